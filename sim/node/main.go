// simnode executes one simulated process: either the whole gotetra command
// (its real main function with the given arguments) or one of the library
// level workloads in api_*.go, inside a synctest bubble, under the simulated
// scheduler, clock, random source and file system faults of a step file.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"testing/synctest"

	gtmain "github.com/phil-mansfield/gotetra/render/main"

	"verifnode/simrt"
)

// Step fully determines one simulated process execution.
type Step struct {
	Kind  string            `json:"kind"` // "main" or "api"
	Args  []string          `json:"args,omitempty"`
	API   string            `json:"api,omitempty"`
	Par   json.RawMessage   `json:"par,omitempty"`
	Sched simrt.SchedConfig `json:"sched"`
	IO    simrt.IOConfig    `json:"io"`
	Rand  uint64            `json:"rand"`
	NCPU  int               `json:"ncpu,omitempty"`
	Trace bool              `json:"trace,omitempty"`
	Ops   bool              `json:"ops,omitempty"`
}

type Result struct {
	Outcome string          `json:"outcome"` // exit, panic, deadlock, livelock, crash
	Code    int             `json:"code"`
	Panic   string          `json:"panic,omitempty"`
	Sched   simrt.Stats     `json:"sched"`
	IO      simrt.IOStats   `json:"io"`
	Data    json.RawMessage `json:"data,omitempty"`
}

var (
	step Step
	data json.RawMessage
)

func emit(kind string, v interface{}) {
	b := append([]byte(kind+" "), simrt.JSON(v)...)
	b = append(b, '\n')
	for len(b) > 0 {
		n, err := syscall.Write(3, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return
		}
		b = b[n:]
	}
}

func finish(outcome string, code int, pmsg string, procExit int) {
	if outcome == "exit" {
		simrt.AtExit()
	}
	r := Result{Outcome: outcome, Code: code, Panic: pmsg,
		Sched: simrt.Snapshot(), IO: simrt.IOSnapshot(), Data: data}
	if !step.Ops {
		r.IO.Ops = nil
	}
	emit("result", r)
	syscall.Exit(procExit)
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &step)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "simnode: bad step:", err)
		os.Exit(97)
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(-1)
	runtime.GOMAXPROCS(1)
	runtime.SimSetup(step.Rand, step.NCPU)

	simrt.InstallIO(step.IO, emit, func() { finish("crash", -1, "", 3) })
	os.SimExit = func(code int) { finish("exit", code, "", 0) }

	synctest.SimRun(func() {
		simrt.Run(step.Sched, step.Trace, func() {
			defer func() {
				if r := recover(); r != nil {
					st := debug.Stack()
					if len(st) > 4000 {
						st = st[:4000]
					}
					finish("panic", 2, fmt.Sprintf("%v\n%s", r, st), 0)
				}
			}()
			if step.Kind == "main" {
				os.Args = append([]string{"gotetra"}, step.Args...)
				flag.CommandLine = flag.NewFlagSet("gotetra", flag.ExitOnError)
				gtmain.SimMain()
			} else {
				f := apis[step.API]
				if f == nil {
					fmt.Fprintln(os.Stderr, "simnode: unknown api", step.API)
					syscall.Exit(97)
				}
				data = simrt.JSON(f(step.Par))
			}
			finish("exit", 0, "", 0)
		}, func(kind string) { finish(kind, -1, "", 0) })
	})
}
