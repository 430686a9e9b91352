R="render/"
p("C06","Damaged or foreign segments are never rendered as if they were whole",
 "Render and TetraHist either produce exactly the output the stored particles call for, or fail visibly. A segment file which is truncated anywhere, empty, zeroed, of another byte order flag or header size, of another sheet's geometry, box, cosmology or particle mass, a second copy of a segment, and a stray file or directory among the segments, never leads to a success with wrong numbers; whole segments are accepted in either byte order.",
 ["inputs","fault_sequences","schedules"],
 "every damaged segment, every truncation point, every kind of stray directory entry, every schedule of the workers reading and accumulating the others",
 "Tests render nothing; damage ranges over every byte of every file, and the workers' timing decides what was accumulated before it is met.",
 [R+"box.go",R+"render.go",R+"hist.go",R+"io/io.go"],
 [("geometry and header check","render/render.go NewManager; render/hist.go"),("segment readers","render/io/io.go")],
 observe="exit status and grid files of Render and TetraHist")
p("C07","A render conserves mass",
 "The density grid of a region covering the whole box holds the whole mass of the sheet: its mean is one, whatever the number of segments, subsampling, particles per tetrahedron, workers and schedule. Adjacent regions which tile the box add up to it, no particle being lost or counted twice at a segment edge, a region edge or the periodic boundary, in three dimensions as in projection.",
 ["inputs","schedules","configurations"],
 "every particle distribution, segment division, pixel count, region placement, worker count and interleaving of workers",
 "Conservation is a sum over all workers' buffers: a lost update or a dropped edge shows only under some division, region or schedule.",
 [R+"box.go",R+"render.go",R+"density/buffer.go",R+"density/interpolator.go",R+"geom/grid.go"],
 [("tetrahedra of a segment and their Monte Carlo samples","render/density/interpolator.go; render/render.go"),("accumulation of worker buffers into regions","render/box.go; render/render.go RenderDensity")],
 observe="the .gtet files of the Render command")
p("C08","Density lands where the matter is",
 "Every pixel of a density grid counts exactly the samples of the tetrahedra inside of it: a pixel no tetrahedron touches is empty, a pixel inside uniform matter holds the local density, for boxes and balls at every place including across the periodic boundary, projected along any axis or not, and pixel (x,y,z) of the file is the pixel at Origin + (x,y,z) * PixelWidth.",
 ["inputs","schedules","configurations"],
 "every displacement field with an exact answer, region, projection axis, worker count and schedule",
 "No test renders; misplacement appears for particular segment and region alignments only.",
 [R+"box.go",R+"render.go",R+"density/interpolator.go",R+"geom/grid.go"],
 [("pixel bounds and wrapping","render/geom/grid.go; render/box.go"),("regions from bounds files","render/io/config.go; render/box.go")],
 observe="the .gtet files of the Render command")
p("C09","Rendering regions together equals rendering them one by one",
 "The grid written for a region does not depend on which other regions are rendered in the same run, in which order, or on the number of worker threads and their interleaving.",
 ["histories","schedules","configurations"],
 "every set and order of regions in one or several bounds files, every worker count and schedule",
 "Leaks of state between regions (buffers, workspaces, options) depend on the order and overlap of regions and on the schedule.",
 [R+"box.go",R+"render.go",R+"main/main.go",R+"density/buffer.go"],
 [("workspaces and buffers reused for all regions","render/render.go Manager; render/density/buffer.go"),("regions","render/box.go")],
 observe="the .gtet files of the Render command")
p("C10","Velocity grids hold the mass weighted mean velocity",
 "Every occupied pixel of a velocity grid holds the density weighted mean of the velocities of the matter in it, in three dimensions and in projection; empty pixels are zero and never NaN; a uniform flow is reproduced everywhere, independent of workers, schedule and segment division.",
 ["inputs","schedules","configurations"],
 "every velocity field with an exact answer, region, projection, worker count and schedule",
 "The mean is the quotient of two accumulations made by concurrent workers; a mismatch of the two shows only under particular divisions and schedules.",
 [R+"box.go",R+"render.go",R+"density/buffer.go",R+"density/interpolator.go"],
 [("velocity accumulation and finalization","render/density/buffer.go; render/box.go"),("vector output","render/main/main.go; render/io/output.go")],
 observe="the .gtet files of the Render command")
p("C11","Derived quantities are the derivatives of the rendered fields",
 "The density gradient, velocity divergence and velocity curl grids equal the documented finite differences of the density or velocity field of the same region, at interior and edge pixels, along all axes, for every accuracy order; a field too narrow for the order is refused rather than read out of range. Linear flows give their exact divergence and curl.",
 ["inputs","schedules","configurations"],
 "every field with an exact answer, region shape, worker count and schedule",
 "Tests cover a single derivative function on one grid; the quantities as rendered are never looked at.",
 [R+"geom/deriv.go",R+"density/buffer.go",R+"box.go"],
 [("finite differences","render/geom/deriv.go"),("derived buffers","render/density/buffer.go")],
 observe="the .gtet files of the Render command")
p("C12","A read fault never yields a wrong render",
 "If any segment file, header or directory cannot be read - a failing open, a read error, or a premature end, at any moment and in any worker's turn - Render fails visibly. Whenever it reports success all grids are complete and exact; transient interruptions (short reads, EINTR, EAGAIN) do no harm.",
 ["fault_sequences","schedules"],
 "every read fault kind at every operation, single, repeated and persistent, under every schedule",
 "Tests never see a read fail.",
 [R+"render.go",R+"io/io.go",R+"main/main.go"],[("segment readers","render/io/io.go"),("loading of segments","render/render.go Manager.Load, RenderDensity")],
 observe="exit status and .gtet files of the Render command")
p("C13","A failed grid write makes a render fail",
 "If any output grid cannot be created, written or closed - a full disk at any byte, an I/O error, a delayed write error - Render does not report success. Whenever it does, all grid files are complete and exact.",
 ["fault_sequences","configurations"],
 "every output fault kind at every output operation, every disk capacity",
 "Tests never see a write fail.",
 [R+"io/output.go",R+"main/main.go"],[("grid writer","render/io/output.go WriteBuffer and WriteGrid; render/main/main.go")],
 observe="exit status and .gtet files of the Render command")
p("C14","Grid files describe themselves, and their readers agree with their writer",
 "Every .gtet file states the quantity, dimensions, origin, span, pixel width, projection axis, cosmology and sampling its contents were made with, for every region of a run. What the writer wrote is what ReadGridHeader and ReadGrid return, for projected, three dimensional and vector grids alike; truncated or unreadable grids are refused.",
 ["inputs","configurations","fault_sequences","histories"],
 "every region shape, projection, quantity and order of regions, every truncation point and read fault",
 "Headers are filled from shared state while several regions are written; a stale field shows only for particular orders of regions.",
 [R+"io/output.go",R+"main/main.go",R+"box.go"],[("grid headers","render/io/output.go; render/main/main.go"),("grid readers","render/io/output.go ReadGridHeader, ReadGrid")],
 observe=".gtet files and results of the exported readers")
p("C15","An interrupted render is repaired by running it again",
 "If a render is killed at any point or loses power, running it again over whatever was left behind succeeds and produces exactly the grids of an undisturbed run.",
 ["crash_points","histories","fault_sequences"],
 "every crash point, every subset of unsynced data lost, repeated crashes, a re-run with other options over old output",
 "Tests cannot stop a process between two given system calls.",
 [R+"main/main.go",R+"io/output.go"],[("output files","render/main/main.go; render/io/output.go")],
 observe="the output directory after the re-run")
p("C16","Every command finishes",
 "Render and TetraHist end - with success or a visible failure - for every number of worker threads (including zero, negative and more than there are processors or work items), every schedule, every stall of a worker, and every fault; they never deadlock, spin, or leave with workers still owing results.",
 ["schedules","fault_sequences","configurations"],
 "every worker count, scheduling policy (random, priority based, starving, round robin), stall and I/O fault",
 "A deadlock needs a particular order of channel operations; tests run no workers.",
 [R+"render.go",R+"hist.go",R+"box.go"],[("worker pools and their channels","render/render.go; render/hist.go"),("thread option","render/main/main.go")],
 observe="outcome of the command within a bounded number of simulated steps")
p("C17","TetraHist counts every sample exactly once",
 "Each histogram TetraHist writes is that of the reference density field over exactly the Monte Carlo samples of the tetrahedra inside the region: every tetrahedron's sample positions contribute once, whichever worker handled it, for every subsampling, worker count, schedule, region and segment division, including tetrahedra which cross the periodic boundary.",
 ["inputs","schedules","configurations"],
 "every particle distribution, reference grid, region, worker count and interleaving",
 "Lost or doubled counts come from the division of cubes among workers and from concurrent accumulation; tests run no histogram.",
 [R+"hist.go",R+"main/main.go"],[("division of cubes and accumulation","render/hist.go"),("reference grid lookup","render/hist.go gridIndex")],
 observe="the histogram files of the TetraHist command")
p("C18","TetraHist never reports success after an I/O fault which cost data",
 "If a segment, grid or header cannot be read, or a histogram cannot be created, written or closed, TetraHist fails visibly; whenever it reports success the histograms are exact; after a crash a re-run repairs the output.",
 ["fault_sequences","crash_points","schedules"],
 "every fault kind at every file operation, every disk capacity, every crash point",
 "Tests never see an I/O operation fail.",
 [R+"hist.go",R+"main/main.go",R+"io/output.go"],[("loading and writing","render/hist.go; render/main/main.go")],
 observe="exit status and histogram files of the TetraHist command")
p("C19","Open files stay bounded",
 "No command holds more file descriptors the more segments, snapshot files or regions it handles: each closes every file it opened, on success and on error, so that it finishes with a small fixed descriptor limit.",
 ["inputs","configurations","fault_sequences"],
 "every number of files, region and fault, under a limit of eight descriptors",
 "The limit matters only for data sets far larger than a test's.",
 [R+"io/io.go",R+"io/output.go",R+"main/main.go",R+"render.go",R+"hist.go"],[("open and close of files","render/io/io.go, output.go; render/main/main.go")],
 observe="outcome and output of all three commands under a descriptor limit")
p("C20","Converting a series equals converting each snapshot alone",
 "ConvertSnapshot over a series (IteratedInput, IteratedOutput, start and end) converts each existing snapshot of the range into its own directory exactly as a conversion of that snapshot alone would, in every range and directory format, and nothing else. A snapshot which cannot be converted makes the command fail without spoiling the directories of the others.",
 ["inputs","histories","fault_sequences"],
 "every range, open end, gap, change of particle layout between snapshots, and fault in the middle of the series",
 "State carried from one snapshot to the next (buffers, headers, reused grids) shows only with particular successions.",
 [R+"main/main.go",R+"io/config.go",R+"io/buffer.go"],[("iteration","render/main/main.go convertSnapshotMain"),("format expansion","render/io/config.go")],
 observe="all output directories of the ConvertSnapshot command")
p("C21","The rendering and histogram managers work side by side and file by file",
 "Used as a library, a Manager or HistManager gives the same grids and histograms as the commands do however it is driven: several managers of both kinds working at once in one process on shared or separate sheets, a sheet loaded file by file with its files in any order, or one manager after another. What one manager does never shows in the results of another, and every manager closes its files and ends its workers.",
 ["schedules","histories","configurations"],
 "every interleaving of concurrent managers, every order of segment files, every mixture of quantities, regions and worker counts",
 "Shared package state (buffers, random generators, headers) shows only when managers overlap; no test makes even one.",
 [R+"render.go",R+"hist.go",R+"box.go",R+"density/buffer.go",R+"density/interpolator.go"],[("managers","render/render.go NewManager, Load, RenderDensity; render/hist.go"),("buffers of workers","render/render.go workspaces; render/density")],
 observe="result buffers of the exported managers")
p("C22","Derivatives of grids are those of their stencils on every grid",
 "Deriv, Gradient, Divergence and Curl give the finite differences of the requested order (second or fourth; fourth by default) at every pixel: centred inside, one-sided next to the edges of a grid, and across the boundary for grids which span a periodic box, combined with the output by the requested operation. Inputs, options and the shared defaults are never changed, so that concurrent callers may share them. Unsupported orders, axes and grids narrower than the stencil are refused.",
 ["inputs","schedules","histories"],
 "every grid shape, order, operation, axis, and every interleaving of callers sharing inputs and options",
 "Edges, non-cubic shapes, periodic spans and reuse of one options value combine into far more cases than a test samples, and callers which share options race only under particular schedules.",
 [R+"geom/deriv.go",R+"geom/grid.go"],[("derivatives","render/geom/deriv.go"),("options","render/geom/deriv.go DerivOptions, DefaultDerivOptions")],
 observe="output buffers of the exported derivative functions")
p("C23","A generator's numbers depend on its own seed and history alone",
 "Every number from a Generator of any type is the next one of the stream its type and seed determine, whatever other generators do at the same time, whether it is drawn by Uniform, UniformInt or in batches of any size by UniformAt; numbers lie in the requested half-open range and are uniform; different seeds give different streams; time seeds are those of the clock. A SobolSequence yields the points of Press et al. from the first on, again after Init, whatever number of dimensions each call asks for. Unknown types of generators are refused.",
 ["schedules","inputs","histories"],
 "every mixture of calls, batch sizes, ranges, seeds and clock readings, and every interleaving of concurrent owners",
 "State shared between generators shows only when several are in use at once; batch boundaries and the wrap of internal buffers need long histories.",
 ["math/rand/"+f for f in ("rand.go","sobol.go","xorshift.go","tausworthe.go","golang.go")],[("generators","math/rand/rand.go"),("Sobol sequence","math/rand/sobol.go")],
 observe="numbers returned by the exported generators")
p("C24","Interpolators agree with their table in every order of use",
 "Linear, bilinear, trilinear, spline, bicubic and tricubic interpolators, over uniform or increasing or decreasing tables of two or more points, give the (multi)linear or natural cubic interpolation of the table, including on its knots and edges; splines give its derivatives and integrals. The result does not depend on earlier evaluations, refused ones included, nor on other interpolators over the same tables, which are never changed. Splines may be re-initialised for another table, the linear systems behind them are solved to rounding, and points outside of the table and tables of mismatched lengths or without order are refused.",
 ["inputs","histories","schedules"],
 "every table shape, point, and history of evaluations, and every interleaving of concurrent owners sharing tables",
 "The interpolators cache the last interval and rows; a stale cache shows only after particular successions of points. The tests only plot.",
 ["math/interpolate/"+f for f in ("linear_interpolators.go","cubic_interpolators.go","spline.go","search.go","interpolator.go")],[("search and cached state","math/interpolate/linear_interpolators.go, cubic_interpolators.go, spline.go, search.go")],
 observe="results of the exported interpolators")
p("C25","Commands change nothing but their outputs",
 "A ConvertSnapshot, Render or TetraHist command writes only the results named by its configuration and regions (and the log and profile files if asked for): snapshots, segments, grids, configuration and bounds files, and foreign files in the output directory are never modified, opened for writing, renamed or removed, and no other file is left behind - whether the command succeeds, fails, is killed at any point or meets a failing disk. A command which is refused for its input (a bad region, damaged or unreadable data) leaves the results of earlier commands untouched and no partial results.",
 ["fault_sequences","crash_points","configurations","histories"],
 "every command, fault kind and point, crash point, damage of the input, and earlier content of the output directory",
 "Which files survive a failure depends on where it strikes; tests never run a command that fails, over directories which hold something to lose.",
 [R+"main/main.go",R+"render.go",R+"io/io.go",R+"io/output.go"],[("order of reading and writing","render/main/main.go renderMain, tetraHistMain, lGadget2Main"),("file access","render/io/io.go, output.go, gtet.go")],
 observe="the whole file tree before and after every simulated process, and its file operations")
p("C26","What cannot be done is refused",
 "A command line, configuration or bounds file which asks for the impossible or the undefined - unknown, missing or contradictory modes and options; quantities, formats, scales and axes that do not exist; counts, widths and units which are not positive; numbers which are not finite; origins outside of the box; negative radii; empty ranges of values or snapshots; images wider than the box; regions which share a name, and so an output file; grid files of another box, quantity or format; missing files and directories - makes the command fail visibly before it writes or changes any file, whatever the rest of the request, the sheet, the schedule or the faults are.",
 ["configurations","inputs","fault_sequences"],
 "every way of spoiling one setting, region or argument of every otherwise valid request",
 "Checks sit in several layers and some are reached only if a tetrahedron meets a region; whether an impossible request is noticed depends on the data, and no test runs a command.",
 [R+"main/main.go",R+"io/config.go",R+"render.go",R+"hist.go"],[("validation","render/main/main.go main; render/io/config.go Valid*, CheckInit"),("late checks","render/render.go, render/hist.go Subsample, quantity switches")],
 observe="exit status and file tree of the command")
p("C27","The Python readers return what the files hold",
 "For every grid file which a render wrote (any quantity, region, projection, and files of the older version 1) python/gotetra.py's read_header, its printed header (also as a command) and read_grid return every header field and every value bit for bit, in an array shaped by the header with x as the last index; for every segment file python/gtet.py's File returns header fields, positions and velocities bit for bit in the order of the file. However reads are fragmented, and whatever was read before or the file held before, a file which is missing, truncated anywhere, of an unknown version or byte order, or which fails to be read is refused with an error and never yields values the file does not hold; healthy files are never refused.",
 ["inputs","fault_sequences","histories"],
 "all grid and segment files, truncation points, read fault sequences, histories of reads and replacements",
 "The readers repeat the layouts of the Go structs by hand, have no tests at all, and truncation or read errors occur at any byte.",
 ["python/gotetra.py","python/gtet.py",R+"io/output.go",R+"io/io.go"],[("grid reader","python/gotetra.py read_header, read_grid, Header"),("segment reader","python/gtet.py File")],
 observe="results of the Python readers")
PURE="a pure function of its arguments: no concurrency, time, I/O, randomness or shared state for a simulated schedule or fault to act on; "
NAP={}
def na(id,title,statement,text,why,files,mech,reason):
    p(id,title,statement,["inputs"],text,why,files,mech)
    P[-1]["anchors"]["hook_needed"]="none"
    NAP[id]=PURE+reason
p("C28","Halo catalogues are converted and read without loss",
 "RockstarConvert and RockstarConvertTopN turn a text halo catalogue into a binary one which holds every halo, or exactly the most massive ones, with all their columns bit for bit; ReadRockstarVals and ReadBinaryRockstarVals return from either catalogue the requested columns (and radii computed from masses in the given cosmology) of every halo, and ReadRockstar ids, positions, masses and radii in the requested definition from the largest halo to the smallest, in any number of concurrent calls on the same or different catalogues. A catalogue which cannot be read or written completely - an error of any file operation, a full disk, an error at close, a binary catalogue cut short or padded - makes the call fail visibly; a conversion which was killed is repaired by running it again; readers and converters close their files.",
 ["fault_sequences","crash_points","inputs","schedules"],
 "every catalogue, number of halos, radius definition, fault kind at every file operation, truncation point, crash point, and interleaving of concurrent calls",
 "The package cannot be built in the test environment and has no tests; faults strike between any two operations and a truncated catalogue may be cut at any byte.",
 [R+"halo/io.go",R+"halo/radius.go","cosmo/param.go"],[("conversion and binary format","render/halo/io.go RockstarConvert, RockstarConvertTopN, ReadBinaryRockstarVals"),("radii and masses","render/halo/radius.go")],
 observe="binary catalogues and results of the exported readers")
p("C29","Subhalo searches find every overlap exactly once",
 "After FindSubhalos, a SubhaloFinder lists for every halo exactly the other halos whose spheres (radii scaled by the given factor) overlap its own in the periodic box, each once - as hosts those before it in the catalogue, as subhalos those after it - whatever the number of cells of its grid, the positions (the edges of the box included), the radii (as wide as the box included) and the number of halos (none included), for the first and every later search, and for concurrent clients sharing catalogues and grids; its lists and counts agree with each other. The Grid files every halo under the cell which holds it, Bounds cover every cell a sphere reaches, and the input is never changed.",
 ["inputs","histories","schedules"],
 "every catalogue, grid, radius and succession of searches, and every interleaving of clients sharing input",
 "Overlaps across the edges of the box, spheres wider than it, shared input and second uses of a finder need particular positions and successions; no test makes a finder.",
 [R+"halo/finder.go",R+"halo/grid.go"],[("finder","render/halo/finder.go FindSubhalos, markSubhalos, crossMatch"),("grid and bounds","render/halo/grid.go; render/halo/finder.go Bounds")],
 observe="results of the exported finder, grid and bounds")
p("C30","Sorting, reversing and selecting order every array",
 "Quick and Shell leave a sorted permutation of their input; Reverse reverses it; Percentile, Median and NthLargest return the element of that rank (percentiles counted from the smallest, the median of an even number being the upper one) and leave the array alone. This holds for arrays of every length and arrangement, with or without a buffer and whatever it holds, in every succession of calls and for concurrent clients which select from the same array. Buffers of the wrong size, ranks outside of the array and percentiles outside of [0, 1] are refused.",
 ["inputs","histories","schedules"],
 "every array, length, duplicate pattern, rank and buffer, every succession of calls, and every interleaving of clients sharing arrays",
 "A test sorts one random array. Runs of duplicates, pivots at the ends, short arrays and stale buffers need particular arrays and successions, and input changed under a concurrent reader needs a schedule.",
 ["math/sort/"+f for f in ("quick.go","shell.go","median.go","sort.go")],[("quick sort and its short arrays","math/sort/quick.go, shell.go"),("selection and its buffers","math/sort/median.go")],
 observe="results of the exported functions and the arrays given to them")
p("C31","Matrices and their factorisations solve what they are given",
 "Products, transposes, determinants, inverses and solutions of linear equations, of 64 and 32 bit matrices, through a matrix or through its LU factorisation, into new, stale or the input's own memory, satisfy their defining equations to rounding, for every well-conditioned matrix and whatever a factorisation was used for before. Operands and right hand sides are never changed, so that concurrent clients may share matrices and factorisations. Products and right hand sides of mismatched sizes, matrices which are not square and matrices with a row of zeros are refused.",
 ["inputs","histories","schedules"],
 "every shape, pivot order and right hand side, every succession of factorisations in the same memory, and every interleaving of clients sharing them",
 "The package has no tests; row exchanges, stale factorisations and aliased outputs show only for particular matrices and successions.",
 ["math/mat/mat.go","math/mat/mat32.go"],[("products","math/mat/mat.go MultAt, MultVec, VecMult, TransposeAt"),("LU factorisation","math/mat/mat.go, mat32.go LUFactorsAt, SolveVector, SolveMatrix, InvertAt, Determinant")],
 observe="results of the exported functions and the matrices given to them")
p("C32","Smoothing kernels and derivatives of sequences are those of their definitions",
 "Convolving a sequence with a top hat, Gaussian or Savitzky-Golay kernel (or the derivative of the last) gives, at every point up to both ends, the weighted sum over the sequence continued by the boundary condition (periodic, mirrored, zero or constant), with the weights of the kernel's definition: normalised, and for Savitzky-Golay kernels those of the least squares polynomial. BoundaryCondition.Get returns the same continuation. calc.Deriv, of second or fourth order, gives at every point, the ends included, the derivative of the polynomial through the nearest points (the finite differences, for evenly spaced ones), whether they are evenly spaced or not. Sequences are never changed and may be shared by concurrent clients, as may kernels; outputs may be new or stale memory. Even widths, orders as large as the width, and mismatched lengths are refused.",
 ["inputs","schedules","histories"],
 "every kernel, width, order, derivative, boundary condition and sequence, and every interleaving of clients sharing them",
 "A test compares one kernel; the ends of sequences, where boundary conditions act, differ for every width and condition.",
 ["math/interpolate/filter.go","math/calc/deriv.go"],[("kernels and boundary conditions","math/interpolate/filter.go"),("derivatives","math/calc/deriv.go")],
 observe="results of the exported functions and the sequences given to them")
p("C33","Vectors, tetrahedra and cells follow the geometry of the box",
 "Vectors: Scale, Mod (into the box), Add, Sub (the shortest displacement in the periodic box), Cross (v1 x v2), Dot and Norm, the same through all three variants of each, also onto their own operands. Tetrahedra: volume, containment, barycenter and cell bounds agree with Euclidean geometry for whatever corners the object holds now; distributed and sampled points lie inside, uniformly, with the weights of their unit points. The six tetrahedra of a grid cube tile it for every stride, and centred ones lie in different octants and stay inside the grid. Grids map cells to indices and back; boxes of cells intersect, periodically or not, exactly if they share cells (boxes which merely touch are free). Operands are never changed.",
 ["inputs","histories","schedules"],
 "every tetrahedron, point, vector, grid and pair of boxes, every succession of uses of one tetrahedron, and every interleaving of clients sharing points",
 "Tetrahedra cache their volume and barycenter and vectors alias their operands, so that answers depend on what was asked before; no test makes a tetrahedron.",
 [R+"geom/tetra.go",R+"geom/vec.go",R+"geom/grid.go"],[("vectors","render/geom/vec.go"),("tetrahedra and their caches","render/geom/tetra.go"),("grids and cell bounds","render/geom/grid.go")],
 observe="results of the exported functions and the points given to them")
p("C34","Example configurations are complete, true and usable",
 "-ExampleConfig NAME prints, for ConvertSnapshot, Render, TetraHist, Box and Ball, an example which mentions every option and which the command accepts as soon as its paths are filled in: as it is printed, with any of its optional settings uncommented, or with other values filled in, the command does exactly what the settings call for, a log file receiving the messages and a profile file the profile. It touches no file. Other names are refused, and an example which cannot be printed completely makes the command fail.",
 ["configurations","fault_sequences","inputs"],
 "every example, choice of optional settings, filled-in value, data set, schedule, and fault of the standard output or of the files of the command",
 "Tests never print or read an example; each option acts in another part of the commands, and an error while printing needs an output which fails.",
 [R+"main/main.go",R+"io/config.go"],[("example texts and option parsing","render/io/config.go"),("command line, log and profile files","render/main/main.go")],
 observe="the standard output of -ExampleConfig, and all the outputs of the commands its text configures")
p("C35","Commands which run at the same time do not disturb each other",
 "Any number of commands may run at the same time in one directory tree if they write different files: conversions of different snapshots or of different parts of a series, renders and histograms over the same or over different segments, into the same directories or ones which do not exist yet. However their file operations interleave, each of them succeeds and leaves the output it leaves when alone, and no other file appears, changes or disappears. If one of them is killed, or fails because of its own disk, the others do not notice, and it can be run again. A render of complete segments which are being converted once more at that moment is exact or fails visibly, and does not disturb the conversion. The same conversion run several times at once, if all of them succeed, leaves the output of one.",
 ["schedules","configurations","fault_sequences","crash_points"],
 "every set of commands, interleaving of their file operations, division of inputs and output directories between them, crash point and fault of one of them",
 "Tests run one thing at a time; whether two processes meet at a shared file or directory depends on the order of single system calls.",
 [R+"main/main.go",R+"io/io.go",R+"render.go",R+"hist.go"],[("output files and directories","render/main/main.go lGadget2Main, renderMain, tetraHistMain; render/io/io.go WriteSheet"),("input listing and segment readers","render/main/main.go densitySetupIO, tetraHistSetupIO; render/io/io.go")],
 observe="exit status of every command and all files of the tree")
p("C36","Snapshot files are read exactly through the library, too",
 "ReadGadgetHeader, ReadGadget and ReadGadgetParticlesAt return, for every snapshot file in the byte order and with the id size the caller names, exactly what the file holds: particle counts (of the whole snapshot in 64 bits), particle mass, box and cosmology; every position, wrapped into the box, every velocity with the square root of the scale factor applied, and every id, in the order of the file, whether positions and velocities are stored in single or double precision, each on its own. A ParticleBuffer of any length puts every particle in the place its id names. A file which is absent, cut short, cannot be read completely, has a block of another length than its header calls for, or holds positions or velocities which are no numbers or far outside of the box, and buffers of other lengths than the file needs, are refused. Other readers of the same or of other files at the same time, and earlier reads, good or bad, into the same buffers make no difference, and no file stays open.",
 ["inputs","histories","schedules","fault_sequences"],
 "every snapshot file, byte order, mixture of precisions, damage, succession of reads by any number of clients, and read or open fault",
 "No test reads a snapshot; what a fragmented or concurrent read leaves in a reused buffer depends on where system calls break off.",
 [R+"io/io.go",R+"io/buffer.go"],[("snapshot readers","render/io/io.go ReadGadgetHeader, ReadGadget, ReadGadgetParticlesAt"),("particle buffer","render/io/buffer.go")],
 observe="results of the exported functions")
p("C37","What files are called and how they are reached makes no difference",
 "The outcome of a command does not depend on how its files and directories are named to it. Configuration and bounds files, input directories, grid files, output directories, log files and the patterns of a series may be given by relative or absolute paths, with redundant separators, dots and trailing slashes, with blanks, percent signs, brackets, wildcards, quotes, backslashes and other characters in them, through symbolic links to the file or directory or to one above it, and the files in an input directory may themselves be symbolic or hard links: every file is found, none is skipped, and what is converted, rendered, counted, refused or repaired, also under faults and crashes, is what it is by the plain path. Regions, PrependName and AppendName may contain any such characters too, and the results are then called exactly that, in the output directory that was named.",
 ["configurations","inputs","fault_sequences","crash_points"],
 "every way to name each file of a command, character in the names of files and regions, kind of link, in combination with the inputs, schedules, faults and crashes of the other properties",
 "No test runs a command; names are treated in few places, but their combination with listings, patterns, formats and links is unbounded.",
 [R+"main/main.go",R+"io/config.go"],[("paths of inputs and outputs","render/main/main.go lGadget2Main, densitySetupIO, tetraHistSetupIO, renderMain, tetraHistMain, openFileGroup"),("names of regions","render/io/config.go ReadBoundsConfig")],
 observe="exit status of every command and the files in the output directory")
p("C38","Logs are complete, and what becomes of them makes no difference",
 "With a LogFile, everything a command would otherwise log to the standard error goes there, up to the last line and also if the command fails, so that the reason of a failure is found there; a successful command then says nothing on the standard error. The exit status and the outputs do not depend on whether there is a LogFile or ProfileFile, nor on whether the log can be written: if the standard error or the disk of the LogFile takes nothing, takes it in parts or stops doing so at any point, conversions, renders and histograms still finish with their exact outputs.",
 ["fault_sequences","configurations","inputs"],
 "every command and way for it to fail, each write to the log failing, once or for ever, short or interrupted, alone and with the schedules and inputs of the other properties",
 "No test runs a command, and none could make single writes to its log fail.",
 [R+"main/main.go",R+"render.go",R+"hist.go"],[("log and profile files","render/main/main.go openFileGroup, FileGroup.Close, densitySetupIO, tetraHistSetupIO"),("logging","render/main/main.go, render/render.go, render/hist.go")],
 observe="exit status, standard error, LogFile and outputs of every command")
na("C92","Cosmological densities follow the Friedmann equations",
 "HubbleFrac, RhoCritical and RhoAverage follow the given cosmology at every redshift.",
 "every cosmology and redshift","No test calls them.",
 ["cosmo/param.go","cosmo/const.go"],[("densities","cosmo")],
 "where the commands use it (density units of grids) C09 covers it")
NOTE={}
