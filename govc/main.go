package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func externs(w *World, pkgs []string) {
	cnt := map[string]int{}
	for k, fn := range w.funcs {
		ok := false
		for _, p := range pkgs {
			if strings.Contains(k, "mute/"+p+".") {
				ok = true
			}
		}
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						cnt["iface ("+cc.Value.Type().String()+")."+cc.Method.Name()]++
					} else if f, ok := cc.Value.(*ssa.Function); ok && f.Blocks == nil {
						cnt[calleeKey(f)]++
					}
				}
			}
		}
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(cnt[k], k)
	}
}

func specDir() string {
	if d := os.Getenv("GOVC_CONTRACTS"); d != "" {
		return d
	}
	return "/verif/contracts"
}

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// packagesFor lists the packages that the contracts reachable from keys live in.
func packagesFor(s *Specs, keys []string) []string {
	m := map[string]bool{}
	for _, k := range keys {
		if c := s.contracts[k]; c != nil && c.pkg != "" {
			m[c.pkg] = true
		}
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func printReport(r *FuncReport, verbose bool) {
	st := "ok"
	if r.Err != "" {
		st = "ERROR " + r.Err
	} else if len(r.fails) > 0 {
		st = "FAILED"
	}
	fmt.Printf("%-60s %d/%d obligations, %d paths, %d queries, %.1fs %s\n", r.Key, r.good, r.total, r.paths, r.queries, r.wall.Seconds(), st)
	var ns []string
	for n := range r.fails {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		f := r.fails[n]
		fmt.Printf("   FAIL %s at %s x%d [%s]\n      goal: %s\n", n, f.Pos, f.Count, f.Solvers, trunc(f.Goal, 1200))
		for _, p := range f.Path {
			fmt.Printf("      | %s\n", trunc(p, 200))
		}
	}
	if verbose {
		fmt.Printf("   backends %v\n   models %v\n   inlined %v\n   trusts %v\n   uses %v\n   notes %v\n", r.byBackend, keysOf(r.models), keysOf(r.inlined), keysOf(r.trusts), keysOf(r.uses), r.Notes)
	}
}
func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, strings.ReplaceAll(k, modPath+"/", ""))
	}
	sort.Strings(r)
	return r
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc externs|fn|check ...")
		os.Exit(1)
	}
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(60*time.Second, pprof.StopCPUProfile)
	}
	switch os.Args[1] {
	case "externs":
		w, err := Load(repoDir(), []string{"./..."}, nil)
		if err != nil {
			panic(err)
		}
		externs(w, os.Args[2:])
	case "locals": // record the local variables the hints of the contracts may name
		specs, err := LoadSpecs(specDir())
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		w, err := Load(repoDir(), packagesFor(specs, specs.order), specs.extPkgs)
		if err == nil {
			err = writeLocals(w, specs, specDir()+"/locals.json")
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	case "fn": // debug: verify the functions whose key contains one of the arguments
		specs, err := LoadSpecs(specDir())
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		var keys []string
		verbose := false
		for _, k := range specs.order {
			for _, a := range os.Args[2:] {
				if a == "-v" {
					verbose = true
					continue
				}
				if strings.Contains(k, a) && !specs.contracts[k].trusted {
					keys = append(keys, k)
					break
				}
			}
		}
		w, err := Load(repoDir(), packagesFor(specs, keys), specs.extPkgs)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		specs.w = w
		res := runFuncs(w, specs, keys, nil, 20, false)
		for _, l := range specs.lemmas {
			for _, a := range os.Args[2:] {
				if strings.Contains("lemma:"+l.name, a) {
					res.reports = append(res.reports, l.prove(specs, 20))
				}
			}
		}
		for _, r := range res.reports {
			printReport(r, verbose)
		}
	default:
		os.Exit(runCheck(os.Args[2:]))
	}
}
