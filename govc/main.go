package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(8 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|run ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	}
}

// cmdRun: run single harnesses (development)
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	pkg := fs.String("pkg", ".", "")
	to := fs.Duration("t", 20*time.Second, "")
	v := fs.Bool("v", false, "")
	fs.Parse(args)
	t0 := time.Now()
	if f := os.Getenv("GOVC_PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	p, err := loadProgram(*repo, filepath.Join(*verif, "contracts"), strings.Split(*pkg, ","))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs, %d harnesses\n", time.Since(t0).Seconds(), len(p.harnesses))
	bad := 0
	for _, h := range p.harnesses {
		if h.kind != "VC" && h.kind != "VT" {
			continue
		}
		if fs.NArg() > 0 {
			m := false
			for _, a := range fs.Args() {
				if ok, _ := filepath.Match(a, h.name); ok || h.has(a) {
					m = true
				}
			}
			if !m {
				continue
			}
		}
		r := p.runHarness(h, *to)
		ok := "ok  "
		if len(r.Failed) > 0 || r.Unsup != "" || r.Vacuous {
			ok = "FAIL"
			bad++
		}
		fmt.Printf("%s %-32s %4d/%-4d obligations, %d paths, %.1fs (solver %.1fs) %v\n", ok, h.name, r.Proved, r.Obligs, r.Paths, r.Secs, r.SolverS, r.Solvers)
		if r.Unsup != "" {
			fmt.Println("     unsupported:", r.Unsup)
		}
		if r.Vacuous {
			fmt.Println("     precondition unsatisfiable or function never called")
		}
		for i, f := range r.Failed {
			if i > 8 && !*v {
				break
			}
			fmt.Printf("     %s @%s: %s %s %.1fs\n        %s\n", f.Name, f.Pos, f.Status, f.Reason, f.Secs, strings.Join(f.Trace, " "))
		}
		if *v {
			fmt.Println("     trusted:", r.Trusted, "\n     inlined:", r.Inlined, "\n     contracts:", r.Used, "\n     notes:", r.Notes)
		}
	}
	if bad > 0 {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}
