package main

// Events a function under contract may emit: callers that use its contract only know the set.

import (
	"go/ast"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mentionsEvents: does the clause (or a definition it uses) talk about events?
func (s *Specs) mentionsEvents(n ast.Node, lets []letDef, depth int) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok && !found {
			switch id.Name {
			case "count", "evarg", "evpos", "evlast", "evcat", "kept":
				found = true
			default:
				if d := s.defs[id.Name]; d != nil && depth < 6 && s.mentionsEvents(d.body.e, nil, depth+1) {
					found = true
				}
				for _, l := range lets {
					if l.name == id.Name && depth < 6 && s.mentionsEvents(l.e.e, lets, depth+1) {
						found = true
					}
				}
			}
		}
		return !found
	})
	return found
}

// eventsOf collects the names of the events a call of fn may emit.
func (x *Exec) eventsOf(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		key := calleeKey(f)
		if con := x.specs.contracts[key]; con != nil {
			if con.event != "" {
				out[con.event] = true
			}
			if con.trusted {
				return
			}
			if con.quiet && f != fn {
				for n := range globalEvents(x.eventsOf(f)) {
					out[n] = true
				}
				return
			}
		}
		if _, ok := models[key]; ok || f.Blocks == nil || f.Pkg == nil && f.Parent() == nil || !inModule(f) {
			ioEvents(key, out)
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeClosure:
					walk(in.Fn.(*ssa.Function))
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok {
						out["global:"+g.Pkg.Pkg.Path()+"."+g.Name()] = true
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if cc.IsInvoke() {
					ikey := "(" + cc.Value.Type().String() + ")." + cc.Method.Name()
					if con := x.specs.contracts[ikey]; con != nil && con.event != "" {
						out[con.event] = true
					}
					ioEvents(ikey, out)
					continue
				}
				switch v := cc.Value.(type) {
				case *ssa.Function:
					walk(v)
				case *ssa.Builtin:
				case *ssa.MakeClosure:
					walk(v.Fn.(*ssa.Function))
				default:
					out["funcvalue"] = true
				}
			}
		}
	}
	walk(fn)
	return out
}

func inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

func ioEvents(key string, out map[string]bool) {
	for _, s := range []string{"Read", "rand", "Int", "Generate", "Copy", "Padding"} {
		if strings.Contains(key, s) {
			out["read"] = true
			out["edgen"] = true
		}
	}
	if strings.Contains(key, "ReadAll") {
		out["ReadAll"] = true
	}
	for _, s := range []string{"Write", "Copy", "Fprint", "Print", "Encode", "Close"} {
		if strings.Contains(key, s) {
			out["write"] = true
		}
	}
}

// globalEvents are the assignments to package variables among the events.
func globalEvents(evs map[string]bool) map[string]bool {
	out := map[string]bool{}
	for n := range evs {
		if strings.HasPrefix(n, "global:") {
			out[n] = true
		}
	}
	return out
}
