package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mutecomm/mute"

type World struct {
	renames map[*ssa.Function]map[string]string
	dir     string
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	funcs   map[string]*ssa.Function // by contract key
	mutable map[*ssa.Global]bool
	loops   map[*ssa.Function]*loopInfo
	tpkgs   map[string]*types.Package
}

// moduleDeps expands patterns to the in-module packages they depend on.
func moduleDeps(dir string, pats []string, ext map[string]bool) ([]string, error) {
	cmd := exec.Command("go", append([]string{"list", "-deps", "-f", "{{.ImportPath}}"}, pats...)...)
	cmd.Dir = dir
	var eb strings.Builder
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v %s", err, eb.String())
	}
	var r []string
	for _, l := range strings.Fields(string(out)) {
		if l == modPath || strings.HasPrefix(l, modPath+"/") || ext[l] {
			r = append(r, l)
		}
	}
	sort.Strings(r)
	return r, nil
}

func Load(dir string, pats []string, ext map[string]bool) (*World, error) {
	deps, err := moduleDeps(dir, pats, ext)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, deps...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	w := &World{dir: dir, prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{},
		mutable: map[*ssa.Global]bool{}, loops: map[*ssa.Function]*loopInfo{}, tpkgs: map[string]*types.Package{}}
	for _, p := range pkgs {
		w.tpkgs[p.PkgPath] = p.Types
		for _, im := range p.Types.Imports() {
			if w.tpkgs[im.Path()] == nil {
				w.tpkgs[im.Path()] = im
			}
		}
	}
	for _, p := range ps {
		if p != nil {
			w.pkgs[p.Pkg.Path()] = p
		}
	}
	for n := range assignedElsewhere(dir) {
		i := strings.LastIndexByte(n, '.')
		if p := w.pkgs[n[:i]]; p != nil {
			if g, ok := p.Members[n[i+1:]].(*ssa.Global); ok {
				w.mutable[g] = true
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		k := funcKey(fn)
		if k != "" {
			if _, dup := w.funcs[k]; !dup || fn.Synthetic == "" {
				w.funcs[k] = fn
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if fn.Name() == "init" && fn.Synthetic != "" {
							continue
						}
						// any use other than a load may mutate it
						if u, ok := in.(*ssa.UnOp); ok && u.X == g {
							continue
						}
						if _, ok := in.(*ssa.DebugRef); ok {
							continue
						}
						if ia, ok := in.(*ssa.IndexAddr); ok && readOnlyAddr(ia) {
							continue
						}
						if fa, ok := in.(*ssa.FieldAddr); ok && readOnlyAddr(fa) {
							continue
						}
						w.mutable[g] = true
					}
				}
			}
		}
	}
	return w, nil
}

// readOnlyAddr: every referrer of the address is a load.
func readOnlyAddr(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.X != v {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if !readOnlyAddr(r) {
				return false
			}
		case *ssa.FieldAddr:
			if !readOnlyAddr(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// funcKey names a function: path.Func, (*path.T).M, (path.T).M; closures are path.F$1.
func funcKey(fn *ssa.Function) string {
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") && !strings.HasPrefix(fn.Synthetic, "instance of") {
		return ""
	}
	return fn.String()
}

func calleeKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// ---------- natural loops ----------

type loopInfo struct {
	headers []*ssa.BasicBlock
	body    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	ord     map[*ssa.BasicBlock]int
}

func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, ord: map[*ssa.BasicBlock]int{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				body := li.body[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.body[s] = body
					li.headers = append(li.headers, s)
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// source order: by position of the header's first positioned instruction
	pos := func(b *ssa.BasicBlock) int {
		best := 1 << 60
		for bb := range li.body[b] {
			for _, in := range bb.Instrs {
				if p := int(in.Pos()); p > 0 && p < best {
					best = p
				}
			}
		}
		return best
	}
	sort.SliceStable(li.headers, func(i, j int) bool { return pos(li.headers[i]) < pos(li.headers[j]) })
	for i, h := range li.headers {
		li.ord[h] = i
	}
	return li
}
