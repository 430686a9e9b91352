import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state if isinstance(state,list) else [state]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]="none in /repo: the schedule, clock, random source and system calls are taken over in a scratch copy and a standard library overlay"
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
R="render/"
p("C01","Conversion places every particle exactly once",
 "Converting a snapshot writes exactly one segment file for every segment of the sheet, and every grid point of every segment holds the position (wrapped into the box) and velocity, in output units, of the one particle whose id names that point of the periodic particle lattice, wherever in whichever snapshot file it was stored. The headers describe the same box, cosmology, particle mass and geometry, and bounds which contain every particle of the segment, those of the velocities tightly.",
 ["inputs","configurations","fault_sequences"],
 "every particle count, number of segments, division of particles over files and order within them, number precision, unit choice, and every pattern of short reads, short writes and interrupted calls",
 "No test runs a conversion; any test would sample one layout and always sees full-length reads and writes.",
 [R+"main/main.go",R+"io/io.go",R+"io/buffer.go"],
 [("snapshot reader and particle placement","render/main/main.go createGrids; render/io/buffer.go"),("segment writer","render/main/main.go writeGrids, copyToSegment; render/io/io.go WriteSheet")],
 observe="the segment files left by the ConvertSnapshot command")
p("C02","A damaged or unreadable snapshot is never converted as if it were whole",
 "If any snapshot file cannot be read completely - a read or open error, a premature end, a truncated, missing, duplicated or empty file, or a directory that cannot be listed - or the files do not make up one snapshot - they disagree about the box, the cosmology or the number of particles, a particle is missing or occurs twice, an id names no particle of the lattice, a position or velocity is no number or far outside of the box, or the particles do not form a cube - the conversion fails visibly. Whenever it reports success its output is complete and exact.",
 ["fault_sequences","inputs","crash_points"],
 "every input fault kind at every read, open and directory operation, and every truncation point of every file",
 "Tests run against a file system that never fails and files that are always whole.",
 [R+"main/main.go",R+"io/io.go"],[("block readers","render/io/io.go ReadGadgetParticlesAt, readVecAsByte, readInt64AsByte"),("completeness check","render/main/main.go createGrids")],
 observe="exit status and segment files of the ConvertSnapshot command")
p("C03","Failed writes make a conversion fail",
 "If any segment file cannot be created, written, or closed - a full disk, an I/O error, or a delayed write error - the conversion does not report success. Whenever it does report success all segment files are complete and exact.",
 ["fault_sequences","configurations"],
 "every output fault kind at every output operation, every disk capacity, single, repeated and persistent faults",
 "Tests never see a write fail, and the point at which a disk fills up ranges over every byte of output.",
 [R+"main/main.go",R+"io/io.go"],[("segment writer","render/io/io.go WriteSheet"),("output directory","render/main/main.go writeGrids")],
 observe="exit status and segment files of the ConvertSnapshot command")
p("C04","An interrupted conversion is repaired by running it again",
 "If a conversion is killed at any point, or the machine loses power during it, then running the same conversion again over whatever was left behind succeeds and produces exactly the output of an undisturbed conversion, whatever was left behind. This also holds when the re-run is interrupted in its turn.",
 ["crash_points","fault_sequences","histories"],
 "every crash point (every file operation and scheduling point), every subset of unsynced data lost, repeated crashes",
 "Tests cannot stop a process between two given system calls and then inspect what a re-run makes of the debris.",
 [R+"main/main.go",R+"io/io.go"],[("output directory and overwriting","render/main/main.go writeGrids; render/io/io.go WriteSheet")],
 observe="the output directory after the re-run, byte for byte")
p("C05","Segment files round-trip, and damaged ones are refused by every reader",
 "What was written as a segment file is read back bit for bit - header, positions and velocities, in either byte order, concurrently with other readers and writers of other files, under short reads and writes. A segment file which is truncated, unreadable, or does not match the caller's buffer is refused by the header, position and velocity readers alike: they never report success with anything but the stored data. A segment whose vectors do not match its header is refused before its file is touched.",
 ["inputs","schedules","fault_sequences","histories"],
 "all interleavings of concurrent clients on several files, all header and vector values (NaN payloads, infinities, denormals), all truncation points and I/O fault sequences",
 "No test reads or writes a segment file; sampled contents and an always-healthy disk would not exercise the error paths.",
 [R+"io/io.go"],[("segment readers","render/io/io.go readSheetHeaderAt, ReadSheetPositionsAt, ReadSheetVelocitiesAt"),("segment writer","render/io/io.go WriteSheet")],
 observe="results of the exported readers")
exec(open('/verif/tools/props2.py').read()) if __import__('os').path.exists('/verif/tools/props2.py') else None
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
T="deterministic simulation with fault injection: seeded search over simulated schedules and fault sequences"
built=__import__('sys').argv[1:]
checks=[{"property":x["id"],"quick_cmd":"./check.sh %s"%x["id"],"thorough_cmd":"./check.sh %s thorough"%x["id"],
 "technique":T,"level":"exploration","level_note":NOTE.get(x["id"],"seeded random search; the evidence file states how much was covered") if 'NOTE' in globals() else "seeded random search; the evidence file states how much was covered"} for x in P if x["id"] in built]
na=[{"property":x["id"],"reason":NAP.get(x["id"],"its check is still being built")} for x in P if x["id"] not in built]
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
