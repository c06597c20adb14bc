package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"time"

	"golang.org/x/tools/go/ssa"
)

type checkFn func(p *Prog, r *Report)

var checks = map[string]checkFn{}

func register(id string, f checkFn) { checks[id] = f }

func runCheck(id, repo, verif string) (code int) {
	f := checks[id]
	if f == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	r := newReport(id, &Prog{})
	defer func() {
		if e := recover(); e != nil {
			fmt.Printf("the analysis of %s failed: %v\n%s\n", id, e, debug.Stack())
			os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
			rep := filepath.Join("evidence", "replay", id+".txt")
			os.WriteFile(filepath.Join(verif, rep), []byte(fmt.Sprint(e)), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
			code = 1
		}
	}()
	known := loadKnown(filepath.Join(verif, "known-findings.txt"))
	p, err := loadRepo(repo)
	if err != nil {
		r.p = &Prog{}
		fmt.Println(err)
		panic(err)
	}
	r.p, theProg = p, p
	f(p, r)
	return r.finish(verif, known)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: necheck check ID... | dump FUNC | engine")
		os.Exit(2)
	}
	repo, verif := os.Getenv("NC_REPO"), os.Getenv("NC_VERIF")
	if repo == "" {
		repo = "/repo"
	}
	if verif == "" {
		verif = "/verif"
	}
	switch os.Args[1] {
	case "check":
		ids := os.Args[2:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = sortedKeys(checks)
		}
		rc := 0
		for _, id := range ids {
			t := time.Now()
			c := runCheck(id, repo, verif)
			if c > rc {
				rc = c
			}
			if os.Getenv("NC_TIME") != "" {
				fmt.Println(id, time.Since(t))
			}
		}
		os.Exit(rc)
	case "dump":
		p, err := loadRepo(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, f := range p.Funcs {
			if len(os.Args) < 3 {
				fmt.Println(fname(f))
			} else if fname(f) == os.Args[2] {
				f.WriteTo(os.Stdout)
			}
		}
	case "engine":
		p, err := loadRepo(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, f := range p.Funcs {
			if w := os.Getenv("NC_FN"); w != "" && w != fname(f) {
				continue
			}
			if f.Name() == "init" {
				continue
			}
			t := time.Now()
			x := newExec(p)
			x.inline = func(x *Exec, st *State, fn *ssa.Function, r *callRec) bool { return stdInline(st, fn) }
			err := x.run(f, rootOpt{})
			fmt.Println(fname(f), x.steps, x.paths, len(x.memo), time.Since(t), err)
		}
	}
}
