package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// driverResult is what the bounded conformance driver of a property reported.
type driverResult struct {
	present          bool
	built            bool
	failed           bool
	out              string
	finds            []driverFind
	cases            int
	cmd              string
	wall             float64
	pkgs             []string
	hasInt, intBuilt bool
}
type driverFind struct{ key, text string }

type knownFinding struct{ prop, kind, key, text string }

// loadKnown reads /verif/known-findings.txt:
//
//	KNOWN property=<id> obligation=<name> <what fails>
//	KNOWN property=<id> finding=<driver key> <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown(root string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		fs := strings.SplitN(l, " ", 4)
		if len(fs) < 4 {
			continue
		}
		k := knownFinding{prop: strings.TrimPrefix(fs[1], "property="), text: fs[3]}
		j := strings.Index(fs[2], "=")
		if j < 0 {
			continue
		}
		k.kind, k.key = fs[2][:j], fs[2][j+1:]
		r = append(r, k)
	}
	return r
}

// propFuncs: functions under contract that carry a clause of the property.
func propFuncs(s *Specs, prop string) []string {
	var r []string
	for _, k := range s.order {
		c := s.contracts[k]
		if c.trusted {
			continue
		}
		hit := false
		for _, p := range c.props {
			hit = hit || p == prop
		}
		for _, e := range c.ensures {
			for _, t := range e.tags {
				hit = hit || t == prop
			}
		}
		for _, l := range c.loops {
			for _, e := range l.invs {
				for _, t := range e.tags {
					hit = hit || t == prop
				}
			}
		}
		if hit {
			r = append(r, k)
		}
	}
	return r
}

// runDriver overlays the property's test files onto /repo and runs them.
// Layout: drivers/<ID>/<package path>/*.go
// A second directory drivers/<ID>_int holds tests that use unexported names;
// it is built and run on its own, so that a renamed helper only costs those.
func runDriver(root, repo, prop, tier, tmp string) *driverResult {
	a := make(chan *driverResult)
	go func() { a <- runDriver1(root, repo, prop+"_int", tier, filepath.Join(tmp, "int")) }()
	r := runDriver1(root, repo, prop, tier, filepath.Join(tmp, "ext"))
	b := <-a
	if !r.present {
		return b
	}
	if b.present {
		r.finds = append(r.finds, b.finds...)
		r.failed = r.failed || b.failed
		r.cases += b.cases
		r.pkgs = append(r.pkgs, b.pkgs...)
		r.out += "\n" + b.out
		if b.wall > r.wall {
			r.wall = b.wall
		}
		r.intBuilt = b.built
		r.hasInt = true
	}
	return r
}

func runDriver1(root, repo, prop, tier, tmp string) *driverResult {
	dr := &driverResult{}
	base := filepath.Join(root, "drivers", prop)
	os.MkdirAll(tmp, 0755)
	if _, err := os.Stat(base); err != nil {
		return dr
	}
	dr.present = true
	repl := map[string]string{}
	pk := map[string]bool{}
	add := func(dir string) error {
		return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}
			rel, _ := filepath.Rel(dir, p)
			pkg := filepath.Dir(rel)
			repl[filepath.Join(repo, pkg, filepath.Base(rel))] = p
			if strings.HasSuffix(p, "_test.go") {
				pk["./"+pkg] = true
				// the package's own test files do not take part
				old, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go"))
				for _, o := range old {
					if _, ours := repl[o]; !ours {
						repl[o] = ""
					}
				}
			}
			return nil
		})
	}
	if add(base) != nil {
		return dr
	}
	lib, _ := os.ReadFile(filepath.Join(root, "drivers", "lib", "lib.go.txt"))
	for p := range pk {
		fs, _ := filepath.Glob(filepath.Join(base, p, "*_test.go"))
		if len(fs) == 0 {
			continue
		}
		src, _ := os.ReadFile(fs[0])
		if m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(src); m != nil {
			lf := filepath.Join(tmp, strings.NewReplacer("/", "_", ".", "_").Replace(p)+"_lib_test.go")
			os.WriteFile(lf, bytes.Replace(lib, []byte("package PKG"), append([]byte("package "), m[1]...), 1), 0644)
			repl[filepath.Join(repo, p, "verif_lib_test.go")] = lf
		}
	}
	for p := range pk {
		dr.pkgs = append(dr.pkgs, p)
		common, _ := filepath.Glob(filepath.Join(root, "drivers", "lib", p, "*_test.go"))
		for _, f := range common {
			repl[filepath.Join(repo, p, filepath.Base(f))] = f
		}
	}
	sort.Strings(dr.pkgs)
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ob, 0644)
	args := []string{"test", "-overlay", of, "-vet=off", "-count=1", "-timeout", "240s", "-run", "^TestVerif", "-v"}
	args = append(args, dr.pkgs...)
	dr.cmd = "go " + strings.Join(args, " ")
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), 600*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repo
	scratch := filepath.Join(tmp, "scratch")
	os.MkdirAll(scratch, 0755)
	cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "TMPDIR="+scratch, "HOME_SCRATCH="+scratch)
	var ob2 bytes.Buffer
	cmd.Stdout = &ob2
	cmd.Stderr = &ob2
	err := cmd.Run()
	dr.wall = time.Since(t0).Seconds()
	dr.out = ob2.String()
	dr.built = !strings.Contains(dr.out, "[build failed]") && !strings.Contains(dr.out, "[setup failed]") && ctx.Err() == nil
	for _, m := range regexp.MustCompile(`(?m)^\s*VERIF-CASES (\d+)`).FindAllStringSubmatch(dr.out, -1) {
		n, _ := strconv.Atoi(m[1])
		dr.cases += n
	}
	for _, m := range regexp.MustCompile(`(?m)VERIF-FAIL key=(\S+) (.*)$`).FindAllStringSubmatch(dr.out, -1) {
		dr.finds = append(dr.finds, driverFind{m[1], m[2]})
	}
	if err != nil && dr.built {
		dr.failed = true
		if len(dr.finds) == 0 {
			dr.finds = append(dr.finds, driverFind{"crash", firstLines(dr.out, 12)})
		}
	}
	return dr
}

func firstLines(s string, n int) string {
	for _, mark := range []string{"panic:", "fatal error:", "--- FAIL"} {
		if i := strings.Index(s, mark); i >= 0 {
			s = s[i:]
			break
		}
	}
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

func runCheck(a []string) int {
	t0 := time.Now()
	root, repo := "/verif", repoDir()
	prop, tier := "", os.Getenv("VERIF_TIER")
	nodriver, noproof := false, false
	for i := 0; i < len(a); i++ {
		switch a[i] {
		case "-root":
			i++
			root = a[i]
		case "-tier":
			i++
			tier = a[i]
		case "-no-driver":
			nodriver = true
		case "-no-proof":
			noproof = true
		default:
			prop = a[i]
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println("cannot create a scratch directory:", err)
		return 1
	}
	defer os.RemoveAll(tmp)
	specs, err := LoadSpecs(filepath.Join(root, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	keys := propFuncs(specs, prop)
	if len(keys) == 0 && !noproof {
		fmt.Println("no contract carries property", prop)
		return 2
	}
	var drv *driverResult
	drvDone := make(chan bool)
	go func() {
		defer close(drvDone)
		if nodriver {
			drv = &driverResult{}
			return
		}
		drv = runDriver(root, repo, prop, tier, tmp)
	}()
	var reports []*FuncReport
	loadErr := ""
	secs := 20
	if tier == "thorough" {
		secs = 90
		funcBudget = 600
	}
	if !noproof {
		w, err := Load(repo, packagesFor(specs, keys), specs.extPkgs)
		if err != nil {
			loadErr = err.Error()
		} else {
			specs.w = w
			reports = runFuncs(w, specs, keys, map[string]bool{prop: true}, secs, true).reports
			for _, l := range specs.lemmasFor(map[string]bool{prop: true}) {
				reports = append(reports, l.prove(specs, secs))
			}
		}
	}
	<-drvDone

	known := loadKnown(root)
	isKnown := func(kind, key string) *knownFinding {
		for i := range known {
			k := &known[i]
			if k.prop == prop && k.kind == kind && k.key == key {
				return k
			}
		}
		return nil
	}
	total, good := 0, 0
	backends := map[string]int{}
	trusted := map[string]bool{}
	inl := map[string]bool{}
	notes := map[string]bool{}
	var solver time.Duration
	queries := 0
	var fns []map[string]interface{}
	type viol struct{ name, text string }
	var viols []viol
	printed := map[string]bool{}
	report := func(kind, key, text string) {
		if k := isKnown(kind, key); k != nil {
			l := fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.text)
			if !printed[l] {
				printed[l] = true
				fmt.Println(l)
			}
			return
		}
		viols = append(viols, viol{key, text})
	}
	if loadErr != "" {
		viols = append(viols, viol{"load", "the packages under contract could not be loaded: " + loadErr})
	}
	for _, r := range reports {
		total += r.total
		good += r.good
		for b, n := range r.byBackend {
			backends[b] += n
		}
		for k := range r.trusts {
			trusted["assumed contract: "+strings.ReplaceAll(k, modPath+"/", "")] = true
		}
		for k := range r.models {
			trusted["library model: "+k] = true
		}
		for k := range r.inlined {
			inl[strings.ReplaceAll(k, modPath+"/", "")] = true
		}
		for _, n := range r.Notes {
			notes[n] = true
		}
		solver += r.nsTime
		queries += r.queries
		fns = append(fns, map[string]interface{}{"function": strings.ReplaceAll(r.Key, modPath+"/", ""), "obligations": r.total,
			"discharged": r.good, "paths": r.paths, "wall_s": round(r.wall.Seconds())})
		if r.Err != "" {
			total++
			report("obligation", strings.ReplaceAll(r.Key, modPath+"/", "")+"/engine", "the function is no longer within the verifier's reach: "+r.Err)
		}
		var ns []string
		for n := range r.fails {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			f := r.fails[n]
			var b strings.Builder
			fmt.Fprintf(&b, "obligation %s\n  at %s (%d instance(s))\n  goal: %s\n  solvers: %s\n  path:\n", f.Name, f.Pos, f.Count, trunc(f.Goal, 4000), f.Solvers)
			for _, p := range f.Path {
				fmt.Fprintf(&b, "    %s\n", p)
			}
			report("obligation", n, b.String())
		}
	}
	proofViols := len(viols)
	if drv.failed {
		for _, f := range drv.finds {
			report("finding", f.key, "failing input: "+f.text)
		}
	}
	drvViols := len(viols) - proofViols
	if eng := takeErrs(); len(eng) > 0 {
		for _, e := range eng {
			notes["solver message: "+trunc(e, 200)] = true
		}
	}

	asm := []string{
		"machine integers are exact (mathematical integers with the Go type's wrap-around), byte sequences are shorter than 2^47",
		"distinct pointer, slice and map inputs do not alias; append never writes into spare capacity shared with its argument; receivers are non-nil",
		"goroutines, channels and data races are outside the model; every function is verified as sequential code",
		"cryptographic primitives are uninterpreted functions with the algebraic laws listed in DESIGN.md; no computational assumption is used",
		"termination is not proved (partial correctness)",
	}
	for n := range notes {
		asm = append(asm, "over-approximated: "+n)
	}
	sort.Strings(asm[5:])
	var tb []string
	for k := range trusted {
		tb = append(tb, k)
	}
	sort.Strings(tb)
	tb = append([]string{"govc verification-condition generator (/verif/govc)", "golang.org/x/tools/go/ssa", "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2"}, tb...)
	var inls []string
	for k := range inl {
		inls = append(inls, k)
	}
	sort.Strings(inls)
	cov := map[string]interface{}{
		"obligations": total, "discharged": good,
		"checker_cmd":              "bash /verif/check.sh " + prop,
		"trusted_base":             tb,
		"functions":                fns,
		"functions_under_contract": len(fns),
		"inlined_functions":        inls,
		"discharged_by":            backends,
		"solver_s":                 round(solver.Seconds()),
		"solver_queries":           queries,
	}
	if drv.present {
		cov["bounded_conformance_driver"] = map[string]interface{}{"label": "bounded, not counted as proved", "packages": drv.pkgs, "built": drv.built,
			"unexported_part_built": !drv.hasInt || drv.intBuilt, "cases": drv.cases, "wall_s": round(drv.wall), "failed": drv.failed}
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": asm, "wall_s": round(time.Since(t0).Seconds()), "violations": len(viols)}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(eb, '\n'), 0644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged (%d solver queries, %.1fs), driver: present=%v built=%v cases=%d failed=%v, %.1fs\n",
		prop, len(fns), good, total, queries, solver.Seconds(), drv.present, drv.built, drv.cases, drv.failed, time.Since(t0).Seconds())
	if drv.present && !drv.built {
		fmt.Println("note: the conformance driver did not build against this tree; the verdict rests on the proof obligations alone")
		fmt.Println(trunc(drv.out, 1500))
	}
	if len(viols) == 0 {
		return 0
	}
	rp := filepath.Join(root, "evidence", "replay-"+prop+".txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", prop)
	for _, v := range viols {
		fmt.Fprintf(&b, "%s\n%s\n\n", v.name, v.text)
	}
	if drv.present {
		fmt.Fprintf(&b, "driver command (cwd /repo; overlay built by bash /verif/check.sh %s): %s\n\n%s\n", prop, drv.cmd, trunc(drv.out, 20000))
	}
	os.WriteFile(rp, []byte(b.String()), 0644)
	for i, v := range viols {
		if i < 12 {
			fmt.Printf("  failed: %s\n", trunc(strings.ReplaceAll(v.name+": "+v.text, "\n", " "), 700))
		}
	}
	suffix := ""
	if drvViols == 0 {
		suffix = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, rp, suffix)
	return 1
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
