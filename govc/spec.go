package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	text       string
	e          ast.Expr
	tags       []string
	file       string
	line       int
	callerOnly bool // assumed by callers, not proved
	calleeOnly bool // about state the contract hides from callers
}

func (cl *Clause) tagStr() string {
	if len(cl.tags) == 0 {
		return ""
	}
	return "[" + strings.Join(cl.tags, ",") + "]"
}

type LoopSpec struct{ invs []*Clause }

type Contract struct {
	key      string
	pkg      string
	params   []string
	results  []string
	requires []*Clause
	ensures  []*Clause
	modifies []*Clause
	modAny   bool
	hides    []*Clause // fields the function may change, invisibly for its callers
	loops    map[int]*LoopSpec
	inline   bool
	trusted  bool
	maypanic bool
	panicIf  *Clause // with maypanic: the only states the function may panic in
	event    string
	props    []string
	lets     []letDef
	file     string
	names    map[string]string // package aliases in scope
	secs     int
	maxPaths int
	why      string
	cuts     []*cutSpec
	ats      []*cutSpec // what holds whenever an event is emitted
	fresh    []string   // results that are nil or newly allocated and not stored anywhere
	sameErr  bool
	outs     string // extern: list of pointers whose targets get any value
	quiet    bool
	roCalls  bool // function values called by the body leave their arguments unchanged (assumed)
}
type letDef struct {
	name string
	e    *Clause
	post bool // evaluated where it is used, not at entry
}
type Def struct {
	params []string
	body   *Clause
	names  map[string]string
}
type Logic struct {
	args []Sort
	ret  Sort
}
type Axiom struct {
	name     string
	vars     []string
	sorts    []Sort
	body     *Clause
	mentions map[string]bool
	specs    *Specs
	names    map[string]string
}

type Specs struct {
	locals    map[string][]localVar
	mu        sync.Mutex
	contracts map[string]*Contract
	defs      map[string]*Def
	logic     map[string]*Logic
	axioms    []*Axiom
	lemmas    []*Lemma
	noInline  map[string]bool
	inlineExt map[string]bool // functions of other modules that are verified with their bodies
	extPkgs   map[string]bool
	ufLen     map[string]int
	ufRange   map[string][2]*big.Int
	order     []string
	w         *World
	patterns  []string
}

var keywords = map[string]bool{"package": true, "logic": true, "def": true, "axiom": true, "lemma": true, "func": true, "iface": true,
	"extern": true, "requires": true, "ensures": true, "modifies": true, "loop": true, "inline": true, "maypanic": true,
	"event": true, "prop": true, "let": true, "noinline": true, "limit": true, "paths": true, "why": true, "load": true, "fresh": true, "hides": true, "hidden": true, "post": true, "cut": true, "at": true, "quiet": true, "callbacks": true, "inlineext": true, "outs": true, "assumes": true}

func LoadSpecs(dir string) (*Specs, error) {
	s := &Specs{contracts: map[string]*Contract{}, defs: map[string]*Def{}, logic: map[string]*Logic{},
		noInline: map[string]bool{}, inlineExt: map[string]bool{}, extPkgs: map[string]bool{}, ufLen: map[string]int{}, ufRange: map[string][2]*big.Int{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := s.parseFile(f); err != nil {
			return nil, err
		}
	}
	if err := s.loadLocals(dir); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Specs) parseFile(f string) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	type stmt struct {
		kw, rest string
		line     int
	}
	var stmts []stmt
	for i, ln := range strings.Split(string(b), "\n") {
		if k := strings.Index(ln, "#"); k >= 0 && (k == 0 || ln[k-1] == ' ' || ln[k-1] == '\t') {
			ln = ln[:k]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		kw := t
		for j, ch := range t {
			if !(ch >= 'a' && ch <= 'z') {
				kw = t[:j]
				break
			}
		}
		if keywords[kw] && (len(t) == len(kw) || strings.ContainsRune(" [\t", rune(t[len(kw)]))) {
			stmts = append(stmts, stmt{kw, strings.TrimSpace(t[len(kw):]), i + 1})
		} else if len(stmts) > 0 {
			stmts[len(stmts)-1].rest += " " + t
		} else {
			return fmt.Errorf("%s:%d: stray text", f, i+1)
		}
	}
	names := map[string]string{}
	pkg := ""
	var cur *Contract
	base := filepath.Base(f)
	clause := func(st stmt) (*Clause, error) {
		cl := &Clause{file: base, line: st.line}
		r := st.rest
		if strings.HasPrefix(r, "[") {
			j := strings.Index(r, "]")
			for _, t := range strings.FieldsFunc(r[1:j], func(c rune) bool { return c == ',' || c == ' ' }) {
				cl.tags = append(cl.tags, t)
			}
			r = strings.TrimSpace(r[j+1:])
		}
		cl.text = r
		var err error
		cl.e, err = parser.ParseExpr(implications(r))
		if err != nil {
			return nil, fmt.Errorf("%s:%d: %v in %q", base, st.line, err, implications(r))
		}
		return cl, nil
	}
	for _, st := range stmts {
		switch st.kw {
		case "package": // package alias path   |  package path (sets the current package)
			fs := strings.Fields(st.rest)
			if len(fs) == 2 {
				names[fs[0]] = expandPkg(fs[1])
			} else {
				pkg = expandPkg(fs[0])
				names[pkg[strings.LastIndex(pkg, "/")+1:]] = pkg
			}
			cur = nil
		case "load":
			for _, p := range strings.Fields(st.rest) {
				s.patterns = append(s.patterns, expandPkg(p))
			}
		case "inlineext":
			for _, p := range strings.Fields(st.rest) {
				k := expandKey(p, pkg, names)
				s.inlineExt[k] = true
				q := strings.TrimPrefix(strings.TrimPrefix(k, "("), "*")
				j := strings.LastIndex(q, "/")
				s.extPkgs[q[:j+1+strings.Index(q[j+1:], ".")]] = true
			}
		case "noinline":
			for _, p := range strings.Fields(st.rest) {
				s.noInline[expandKey(p, pkg, names)] = true
			}
		case "logic": // logic name(Bytes, Int) Bytes [len N]
			o, c := strings.Index(st.rest, "("), strings.Index(st.rest, ")")
			if o < 0 || c < o {
				return fmt.Errorf("%s:%d: bad logic", base, st.line)
			}
			name := strings.TrimSpace(st.rest[:o])
			l := &Logic{}
			for _, a := range strings.Split(st.rest[o+1:c], ",") {
				if a = strings.TrimSpace(a); a != "" {
					l.args = append(l.args, sortOf(a))
				}
			}
			fs := strings.Fields(st.rest[c+1:])
			l.ret = sortOf(fs[0])
			if len(fs) >= 3 && fs[1] == "len" {
				n, _ := strconv.Atoi(fs[2])
				s.ufLen[name] = n
			}
			if len(fs) >= 4 && fs[1] == "range" {
				lo, _ := new(big.Int).SetString(fs[2], 10)
				hi, ok := new(big.Int).SetString(fs[3], 10)
				if !ok {
					hi = nil
				}
				s.ufRange[name] = [2]*big.Int{lo, hi}
			}
			s.logic[name] = l
		case "def":
			o := strings.Index(st.rest, "(")
			c := strings.Index(st.rest, ")")
			eq := strings.Index(st.rest, "=")
			if o < 0 || c < o || eq < c {
				return fmt.Errorf("%s:%d: bad def", base, st.line)
			}
			d := &Def{names: names}
			for _, a := range strings.Split(st.rest[o+1:c], ",") {
				if a = strings.TrimSpace(a); a != "" {
					d.params = append(d.params, a)
				}
			}
			cl, err := clause(stmt{rest: strings.TrimSpace(st.rest[eq+1:]), line: st.line})
			if err != nil {
				return err
			}
			d.body = cl
			s.defs[strings.TrimSpace(st.rest[:o])] = d
		case "axiom": // axiom name (a Bytes, b Int) expr
			o := strings.Index(st.rest, "(")
			c := strings.Index(st.rest, ")")
			ax := &Axiom{name: strings.TrimSpace(st.rest[:o]), specs: s, mentions: map[string]bool{}, names: names}
			for _, a := range strings.Split(st.rest[o+1:c], ",") {
				fs := strings.Fields(a)
				if len(fs) == 2 {
					ax.vars = append(ax.vars, fs[0])
					ax.sorts = append(ax.sorts, sortOf(fs[1]))
				}
			}
			cl, err := clause(stmt{rest: strings.TrimSpace(st.rest[c+1:]), line: st.line})
			if err != nil {
				return err
			}
			ax.body = cl
			ast.Inspect(cl.e, func(n ast.Node) bool {
				if ce, ok := n.(*ast.CallExpr); ok {
					if id, ok := ce.Fun.(*ast.Ident); ok {
						ax.mentions[id.Name] = true
					}
				}
				return true
			})
			s.axioms = append(s.axioms, ax)
		case "lemma":
			if err := s.parseLemma(st.rest, names, base, func(x string) (*Clause, error) { return clause(stmt{rest: x, line: st.line}) }); err != nil {
				return fmt.Errorf("%s:%d: %v", base, st.line, err)
			}
		case "func", "iface", "extern":
			c, err := parseHead(st.rest, pkg, names)
			if err != nil {
				return fmt.Errorf("%s:%d: %v", base, st.line, err)
			}
			c.file = base
			c.pkg = pkg
			c.names = names
			c.trusted = st.kw != "func"
			cur = c
			if _, dup := s.contracts[c.key]; dup {
				return fmt.Errorf("%s:%d: duplicate contract %s", base, st.line, c.key)
			}
			s.contracts[c.key] = c
			s.order = append(s.order, c.key)
		default:
			if cur == nil {
				return fmt.Errorf("%s:%d: %s outside a contract", base, st.line, st.kw)
			}
			switch st.kw {
			case "requires":
				cl, err := clause(st)
				if err != nil {
					return err
				}
				cur.requires = append(cur.requires, cl)
			case "outs":
				cur.outs = strings.TrimSpace(st.rest)
			case "ensures", "hidden", "assumes":
				cl, err := clause(st)
				if err != nil {
					return err
				}
				if len(cl.tags) == 0 {
					cl.tags = append(cl.tags, cur.props...)
				}
				cl.calleeOnly = st.kw == "hidden"
				cl.callerOnly = st.kw == "assumes"
				cur.ensures = append(cur.ensures, cl)
			case "hides":
				for _, p := range splitTop(st.rest) {
					cl, err := clause(stmt{rest: p, line: st.line})
					if err != nil {
						return err
					}
					cur.hides = append(cur.hides, cl)
				}
			case "modifies":
				if st.rest == "any" {
					cur.modAny = true
					break
				}
				for _, p := range splitTop(st.rest) {
					cl, err := clause(stmt{rest: p, line: st.line})
					if err != nil {
						return err
					}
					cur.modifies = append(cur.modifies, cl)
				}
			case "loop": // loop N: expr
				j := strings.Index(st.rest, ":")
				n, err := strconv.Atoi(strings.TrimSpace(st.rest[:j]))
				if err != nil {
					return fmt.Errorf("%s:%d: bad loop", base, st.line)
				}
				if cur.loops[n] == nil {
					cur.loops[n] = &LoopSpec{}
				}
				if r := strings.TrimSpace(st.rest[j+1:]); r != "" {
					cl, err := clause(stmt{rest: r, line: st.line})
					if err != nil {
						return err
					}
					cur.loops[n].invs = append(cur.loops[n].invs, cl)
				}
			case "let", "post":
				j := strings.Index(st.rest, "=")
				cl, err := clause(stmt{rest: strings.TrimSpace(st.rest[j+1:]), line: st.line})
				if err != nil {
					return err
				}
				cur.lets = append(cur.lets, letDef{strings.TrimSpace(st.rest[:j]), cl, st.kw == "post"})
			case "cut": // cut E: expr
				j := strings.Index(st.rest, ":")
				if j < 0 {
					return fmt.Errorf("%s:%d: bad cut", base, st.line)
				}
				ev := strings.TrimSpace(st.rest[:j])
				var cs *cutSpec
				for _, o := range cur.cuts {
					if o.event == ev {
						cs = o
					}
				}
				if cs == nil {
					cs = &cutSpec{event: ev}
					cur.cuts = append(cur.cuts, cs)
				}
				if r := strings.TrimSpace(st.rest[j+1:]); strings.HasPrefix(r, "keep ") {
					// keep name = expr: the value at this point, for the postconditions
					n, ex, ok := strings.Cut(r[5:], "=")
					if !ok {
						return fmt.Errorf("%s:%d: bad keep", base, st.line)
					}
					cl, err := clause(stmt{rest: strings.TrimSpace(ex), line: st.line})
					if err != nil {
						return err
					}
					n = strings.TrimSpace(n)
					cs.keeps = append(cs.keeps, letDef{n, cl, true})
					get, err := clause(stmt{rest: "keptvalue(\"" + n + "\")", line: st.line})
					if err != nil {
						return err
					}
					cur.lets = append(cur.lets, letDef{n, get, true})
				} else if r != "" {
					cl, err := clause(stmt{rest: r, line: st.line})
					if err != nil {
						return err
					}
					cs.invs = append(cs.invs, cl)
				}
			case "at": // at E: expr
				j := strings.Index(st.rest, ":")
				if j < 0 {
					return fmt.Errorf("%s:%d: bad at", base, st.line)
				}
				cl, err := clause(stmt{rest: strings.TrimSpace(st.rest[j+1:]), line: st.line})
				if err != nil {
					return err
				}
				cur.ats = append(cur.ats, &cutSpec{event: strings.TrimSpace(st.rest[:j]), invs: []*Clause{cl}})
			case "fresh":
				cur.fresh = append(cur.fresh, strings.Fields(strings.ReplaceAll(st.rest, ",", " "))...)
			case "inline":
				cur.inline = true
			case "maypanic":
				cur.maypanic = true
				if st.rest != "" {
					cl, err := clause(st)
					if err != nil {
						return err
					}
					cur.panicIf = cl
				}
			case "quiet": // its events are not part of the histories of its callers
				cur.quiet = true
			case "callbacks":
				if strings.TrimSpace(st.rest) != "readonly" {
					return fmt.Errorf("%s:%d: callbacks %s", base, st.line, st.rest)
				}
				cur.roCalls = true
			case "event":
				cur.event = st.rest
			case "why":
				cur.why = st.rest
			case "prop":
				cur.props = strings.Fields(st.rest)
			case "limit":
				cur.secs, _ = strconv.Atoi(st.rest)
			case "paths":
				cur.maxPaths, _ = strconv.Atoi(st.rest)
			}
		}
	}
	return nil
}

func sortOf(n string) Sort {
	switch n {
	case "Int":
		return SInt
	case "Bool":
		return SBool
	case "Bytes":
		return SBytes
	}
	return SVal
}
func expandPkg(p string) string {
	if p == "mute" || strings.HasPrefix(p, "mute/") {
		return "github.com/mutecomm/" + p
	}
	return p
}

// expandKey: "F", "T.M", "(*T).M", "alias.F", "path/pkg.F" in the current package
func expandKey(k, pkg string, names map[string]string) string {
	if strings.HasPrefix(k, "(") {
		star := strings.HasPrefix(k, "(*")
		j := strings.Index(k, ")")
		t := strings.TrimPrefix(strings.TrimPrefix(k[:j], "("), "*")
		full := qualify(t, pkg, names)
		if star {
			full = "*" + full
		}
		return "(" + full + ")" + k[j+1:]
	}
	return qualify(k, pkg, names)
}
func qualify(t, pkg string, names map[string]string) string {
	if t == "error" {
		return t
	}
	j := strings.LastIndex(t, "/")
	if d := strings.Index(t[j+1:], "."); d >= 0 {
		p := t[:j+1+d]
		if full, ok := names[p]; ok {
			p = full
		}
		return expandPkg(p) + t[j+1+d:]
	}
	return pkg + "." + t
}

func parseHead(h, pkg string, names map[string]string) (*Contract, error) {
	// key(params) (results)
	start := 0
	if strings.HasPrefix(h, "(") {
		start = strings.Index(h, ")") + 1
	}
	o := strings.Index(h[start:], "(")
	if o < 0 {
		return nil, fmt.Errorf("bad head %q", h)
	}
	o += start
	c := strings.Index(h[o:], ")") + o
	con := &Contract{key: expandKey(strings.TrimSpace(h[:o]), pkg, names), loops: map[int]*LoopSpec{}}
	split := func(s string) []string {
		var r []string
		for _, p := range strings.Split(s, ",") {
			if p = strings.TrimSpace(p); p != "" {
				r = append(r, p)
			}
		}
		return r
	}
	con.params = split(h[o+1 : c])
	rest := strings.TrimSpace(h[c+1:])
	if strings.HasPrefix(rest, "(") {
		con.results = split(rest[1:strings.LastIndex(rest, ")")])
	}
	return con, nil
}

func splitTop(s string) []string {
	var out []string
	depth, last := 0, 0
	inStr := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			inStr = !inStr
		case '\\':
			if inStr {
				i++
			}
		case '(', '[', '{':
			if !inStr {
				depth++
			}
		case ')', ']', '}':
			if !inStr {
				depth--
			}
		case ',':
			if depth == 0 && !inStr {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[last:]))
}

// implications rewrites a ==> b (lowest precedence, right associative) to imp(a, b), and <==> to iff.
func implications(s string) string {
	parts := splitTop(s)
	if len(parts) > 1 {
		for i := range parts {
			parts[i] = implications(parts[i])
		}
		return strings.Join(parts, ", ")
	}
	depth := 0
	inStr := false
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '"' {
			inStr = !inStr
		}
		if inStr {
			if ch == '\\' {
				i++
			}
			continue
		}
		switch ch {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		}
		if depth == 0 {
			if strings.HasPrefix(s[i:], "<==>") {
				return "iff(" + implications(s[:i]) + ", " + implications(s[i+4:]) + ")"
			}
			if strings.HasPrefix(s[i:], "==>") {
				return "imp(" + implications(s[:i]) + ", " + implications(s[i+3:]) + ")"
			}
		}
	}
	// recurse into groups
	var b strings.Builder
	inStr = false
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			b.WriteString(s[i : j+1])
			i = j
			continue
		}
		if ch == '(' {
			j, dp := i+1, 1
			q := false
			for ; j < len(s); j++ {
				if s[j] == '"' {
					q = !q
				}
				if q {
					if s[j] == '\\' {
						j++
					}
					continue
				}
				if s[j] == '(' {
					dp++
				}
				if s[j] == ')' {
					dp--
					if dp == 0 {
						break
					}
				}
			}
			if j < len(s) {
				b.WriteString("(" + implications(s[i+1:j]) + ")")
				i = j
				continue
			}
		}
		b.WriteByte(ch)
	}
	return b.String()
}

// ---------- evaluation ----------

type evalCtx struct {
	x     *Exec
	st    *State
	old   *State
	vars  map[string]Value
	names map[string]string // package aliases
	pkg   string
	look  func(n string) (Value, bool)
	specs *Specs
	c     *Ctx

	rangeOf  func(i int) (*Term, *VMap)
	rangePos func(i int) *Term
	posts    map[string]*Clause
	unknown  func(string)
}

func (e *evalCtx) with(n string, v Value) *evalCtx {
	m := map[string]Value{}
	for k, x := range e.vars {
		m[k] = x
	}
	m[n] = v
	ne := *e
	ne.vars = m
	return &ne
}

type specErr struct{ msg string }

func (e *evalCtx) fail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

type nilMarker struct{}

func (e *evalCtx) term(n ast.Expr) *Term {
	v := e.eval(n)
	t, ok := v.(*Term)
	if !ok {
		if e.x != nil {
			if b := e.x.asBytes(e.st, v); b != nil {
				return b
			}
			if e.st != nil {
				return e.x.toVal(e.st, v, nil)
			}
		}
		e.fail("expected a term, got %T", v)
	}
	return t
}
func (e *evalCtx) boolT(n ast.Expr) (t *Term) {
	if e.x != nil {
		k, reads := e.x.noEvents, e.x.evReads
		defer func() {
			// a term over an event that did not happen, or over another call of the
			// same function, can have the wrong sort: any truth value
			if r := recover(); r != nil {
				se, ok := r.(specErr)
				if e.x.noEvents == k && !(ok && e.x.evReads != reads && (strings.Contains(se.msg, "sort") || strings.Contains(se.msg, "not a byte sequence"))) {
					panic(r)
				}
				t = e.c.Fresh("noevent", SBool)
			}
		}()
	}
	t = e.term(n)
	if t.sort != SBool {
		e.fail("expected a boolean")
	}
	return t
}

func (e *evalCtx) eval(n ast.Expr) Value {
	c := e.c
	x := e.x
	switch n := n.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(n.Value, 0)
			if !ok {
				e.fail("bad int %s", n.Value)
			}
			return c.Big(b)
		case token.STRING:
			s, err := strconv.Unquote(n.Value)
			if err != nil {
				e.fail("bad string %s", n.Value)
			}
			return c.Lit(s)
		case token.CHAR:
			s, _, _, err := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\'')
			if err != nil {
				e.fail("bad char %s", n.Value)
			}
			return c.Int(int64(s))
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			return c.T
		case "false":
			return c.F
		case "nil":
			return nilMarker{}
		}
		if v, ok := e.vars[n.Name]; ok {
			return v
		}
		if p, ok := e.posts[n.Name]; ok {
			return e.eval(p.e)
		}
		if e.look != nil {
			if v, ok := e.look(n.Name); ok {
				return v
			}
		}
		if v, ok := e.pkgObj(e.pkg, n.Name); ok {
			return v
		}
		if e.unknown != nil {
			e.unknown(n.Name)
		}
		e.fail("unknown name %s", n.Name)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			_, isVar := e.vars[id.Name]
			if _, ok := e.posts[id.Name]; !isVar && !ok {
				if p, ok := e.names[id.Name]; ok {
					if v, ok := e.pkgObj(p, n.Sel.Name); ok {
						return v
					}
					e.fail("no %s in %s", n.Sel.Name, p)
				}
			}
		}
		return e.fieldOf(e.eval(n.X), n.Sel.Name)
	case *ast.StarExpr:
		v := e.eval(n.X)
		p, ok := v.(*VPtr)
		if !ok {
			e.fail("* of %T", v)
		}
		return x.load(e.st, p)
	case *ast.IndexExpr:
		v := e.eval(n.X)
		if m, ok := v.(*VMap); ok {
			k := e.keyTerm(n.Index, m.typ.Key())
			_, r := x.mapGet(e.st, m, k)
			return r
		}
		i := e.term(n.Index)
		switch v := v.(type) {
		case *Term:
			if v.sort == SBytes {
				return c.At(v, i)
			}
		case *VSlice:
			if v.base == nil {
				return x.havocVal(e.st, v.elem, "nilidx")
			}
			return x.elemAt(e.st, x.load(e.st, v.base), c.Add(v.off, i), v.elem)
		case *VArr:
			return x.elemAt(e.st, v, i, v.elem)
		case *VSeq:
			return x.elemAt(e.st, v, i, v.elem)
		case VTuple:
			return v[i.I64()]
		case *VPtr:
			a := x.load(e.st, v)
			return x.elemAt(e.st, a, i, elemType(v.elem))
		}
		e.fail("index of %T", v)
	case *ast.SliceExpr:
		v := e.eval(n.X)
		b := x.asBytesE(e, v)
		lo := c.Int(0)
		if n.Low != nil {
			lo = e.term(n.Low)
		}
		hi := c.Len(b)
		if n.High != nil {
			hi = e.term(n.High)
		}
		return c.SubB(b, lo, hi)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return c.Not(e.boolT(n.X))
		case token.SUB:
			return c.Sub(c.Int(0), e.term(n.X))
		case token.AND: // address of a field
			if s, ok := n.X.(*ast.SelectorExpr); ok {
				if p := e.lvPtr(s); p != nil {
					return p
				}
				return &VPtr{sym: x.fresh("nilfield", SVal)}
			}
			e.fail("& of something other than a field")
		}
	case *ast.BinaryExpr:
		switch n.Op {
		case token.LAND:
			a := e.boolT(n.X)
			if a == c.F {
				return a
			}
			return c.And(a, e.boolT(n.Y))
		case token.LOR:
			a := e.boolT(n.X)
			if a == c.T {
				return a
			}
			return c.Or(a, e.boolT(n.Y))
		case token.EQL, token.NEQ:
			k := 0
			if x != nil {
				k = x.evReads
			}
			a, b := e.eval(n.X), e.eval(n.Y)
			if ta, ok := a.(*Term); ok && x != nil && x.evReads != k {
				if tb, ok := b.(*Term); ok && ta.sort != tb.sort {
					// values of different events of the same name: any truth value
					return c.Fresh("noevent", SBool)
				}
			}
			if n.Op == token.EQL {
				return e.eq(a, b)
			}
			return c.Not(e.eq(a, b))
		}
		a, b := e.term(n.X), e.term(n.Y)
		for _, t := range []*Term{a, b} {
			if t.sort != SInt && !(t.sort == SBytes && (n.Op == token.ADD || n.Op == token.LSS || n.Op == token.LEQ || n.Op == token.GTR || n.Op == token.GEQ)) {
				e.fail("%v operand of %v", t.sort, n.Op)
			}
		}
		switch n.Op {
		case token.ADD:
			if a.sort == SBytes {
				return c.Cat(a, b)
			}
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO:
			return c.Div(a, b)
		case token.REM:
			return c.Mod(a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.sort == SBytes {
				z := c.Int(0)
				cmp := c.UF("bcmp", SInt, a, b)
				switch n.Op {
				case token.LSS:
					return c.Lt(cmp, z)
				case token.LEQ:
					return c.Le(cmp, z)
				case token.GTR:
					return c.Lt(c.UF("bcmp", SInt, b, a), z)
				}
				return c.Le(c.UF("bcmp", SInt, b, a), z)
			}
			switch n.Op {
			case token.LSS:
				return c.Lt(a, b)
			case token.LEQ:
				return c.Le(a, b)
			case token.GTR:
				return c.Gt(a, b)
			}
			return c.Ge(a, b)
		}
	case *ast.CallExpr:
		return e.call(n)
	}
	e.fail("unsupported expression %T", n)
	return nil
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

func (x *Exec) asBytesE(e *evalCtx, v Value) *Term {
	if t, ok := v.(*Term); ok && t.sort == SBytes {
		return t
	}
	if x != nil {
		if b := x.asBytes(e.st, v); b != nil {
			return b
		}
	}
	e.fail("not a byte sequence: %T", v)
	return nil
}

func (e *evalCtx) keyTerm(n ast.Expr, kt types.Type) *Term {
	v := e.eval(n)
	if isByteArray(kt) || isString(kt) {
		return e.x.toVal(e.st, e.x.asBytesE(e, v), kt)
	}
	return e.x.toVal(e.st, v, kt)
}

// pkgObj resolves a package-level constant or variable.
func (e *evalCtx) pkgObj(path, name string) (Value, bool) {
	if e.x == nil {
		return nil, false
	}
	tp := e.x.w.tpkgs[path]
	if tp == nil {
		return nil, false
	}
	o := tp.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return e.x.constVal(e.st, ssa.NewConst(o.Val(), o.Type())), true
	case *types.Var:
		if p := e.x.w.prog.Package(tp); p != nil {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				return e.x.load(e.st, &VPtr{obj: e.x.globalObj(e.st, g), elem: g.Type().(*types.Pointer).Elem()}), true
			}
		}
	}
	return nil, false
}

// typeOf resolves "alias.Type" or a type of the contract's package.
func (e *evalCtx) typeOf(n string) types.Type {
	if strings.HasPrefix(n, "*") {
		return types.NewPointer(e.typeOf(n[1:]))
	}
	switch n {
	case "object": // of JSON
		return types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil).Complete())
	case "list":
		return types.NewSlice(types.NewInterfaceType(nil, nil).Complete())
	}
	if o, ok := types.Universe.Lookup(n).(*types.TypeName); ok {
		return o.Type()
	}
	full := qualify(n, e.pkg, e.names)
	j := strings.LastIndex(full, ".")
	if p := e.x.w.tpkgs[full[:j]]; p != nil {
		if o, ok := p.Scope().Lookup(full[j+1:]).(*types.TypeName); ok {
			return o.Type()
		}
	}
	e.fail("unknown type %s", n)
	return nil
}

func (e *evalCtx) fieldOf(v Value, name string) Value {
	x := e.x
	if p, ok := v.(*VPtr); ok && p.sym != nil && p.sym.op == "ite" && len(p.path) == 0 {
		// one of two objects, such as the element appended last or one before
		a, aok := e.fieldOf(&VPtr{sym: p.sym.args[1], elem: p.elem}, name).(*Term)
		b, bok := e.fieldOf(&VPtr{sym: p.sym.args[2], elem: p.elem}, name).(*Term)
		if aok && bok && a.sort == b.sort {
			return e.c.Ite(p.sym.args[0], a, b)
		}
	}
	for depth := 0; depth < 4; depth++ {
		if p, ok := v.(*VPtr); ok {
			v = x.load(e.st, p)
			continue
		}
		break
	}
	if iv, ok := v.(*VIface); ok && iv.typ != nil {
		return e.fieldOf(iv.v, name)
	}
	sv, ok := v.(*VStruct)
	if !ok {
		if p, ok := v.(*Term); ok && p.sort == SVal {
			e.fail("field %s of opaque value", name)
		}
		e.fail("field %s of %T", name, v)
	}
	s := under(sv.typ).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return x.field(e.st, sv, i)
		}
	}
	for i := 0; i < s.NumFields(); i++ { // promoted
		if s.Field(i).Embedded() {
			ft := s.Field(i).Type()
			if p, ok := ft.(*types.Pointer); ok {
				ft = p.Elem()
			}
			if es, ok := under(ft).(*types.Struct); ok {
				for j := 0; j < es.NumFields(); j++ {
					if es.Field(j).Name() == name {
						return e.fieldOf(x.field(e.st, sv, i), name)
					}
				}
			}
		}
	}
	e.fail("no field %s in %s", name, typeKey(sv.typ))
	return nil
}

func (e *evalCtx) eq(a, b Value) *Term {
	c := e.c
	_, an := a.(nilMarker)
	_, bn := b.(nilMarker)
	if an && bn {
		return c.T
	}
	if an {
		return e.x.isNil(e.st, b)
	}
	if bn {
		return e.x.isNil(e.st, a)
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 && ta.sort == tb.sort {
		return c.Eq(ta, tb)
	}
	if e.x == nil {
		e.fail("cannot compare")
	}
	_, pa := a.(*VPtr)
	_, pb := b.(*VPtr)
	if !(pa && pb) {
		ba, bb := e.x.asBytes(e.st, a), e.x.asBytes(e.st, b)
		if ba != nil && bb != nil {
			return c.Eq(ba, bb)
		}
	}
	if ok1 && ta.sort == SVal && !ok2 {
		return c.Eq(ta, e.x.toVal(e.st, b, nil))
	}
	if ok2 && tb.sort == SVal && !ok1 {
		return c.Eq(tb, e.x.toVal(e.st, a, nil))
	}
	return e.x.eqV(e.st, a, b)
}

func (e *evalCtx) str(n ast.Expr) string {
	if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
		s, _ := strconv.Unquote(l.Value)
		return s
	}
	e.fail("string literal expected")
	return ""
}

func (e *evalCtx) call(n *ast.CallExpr) Value {
	c := e.c
	x := e.x
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		e.fail("call of %T", n.Fun)
	}
	A := n.Args
	need := func(k int) {
		if len(A) != k {
			e.fail("%s needs %d arguments", id.Name, k)
		}
	}
	switch id.Name {
	case "len":
		need(1)
		v := e.eval(A[0])
		if t, ok := v.(*Term); ok && t.sort == SBytes {
			return c.Len(t)
		}
		if p, ok := v.(*VPtr); ok {
			if t, ok := x.load(e.st, p).(*Term); ok && t.sort == SBytes {
				return c.Len(t)
			}
		}
		return x.builtinLen(e.st, "len", v)
	case "old":
		need(1)
		ne := *e
		ne.st = e.old
		if e.old == nil {
			e.fail("old() not available here")
		}
		v := ne.eval(A[0])
		// byte contents must be frozen in the old state
		if s, ok := v.(*VSlice); ok {
			return x.freeze(e.old, e.st, s)
		}
		if p, ok := v.(*VPtr); ok && (p.sym != nil || p.obj != 0) {
			if t, ok := x.load(e.old, p).(*Term); ok && t.sort == SBytes {
				return t
			}
		}
		return v
	case "imp":
		need(2)
		a := e.boolT(A[0])
		if a == c.F {
			return c.T
		}
		return c.Imp(a, e.boolT(A[1]))
	case "iff":
		need(2)
		return c.Eq(e.boolT(A[0]), e.boolT(A[1]))
	case "ite":
		need(3)
		g := e.boolT(A[0])
		if g == c.T || e.x != nil && e.x.sv != nil && e.x.sv.known[g] > 0 {
			return e.eval(A[1])
		}
		if g == c.F || e.x != nil && e.x.sv != nil && e.x.sv.known[c.Not(g)] > 0 {
			return e.eval(A[2])
		}
		return c.Ite(g, e.term(A[1]), e.term(A[2]))
	case "cat":
		var ts []*Term
		for _, a := range A {
			ts = append(ts, x.asBytesE(e, e.eval(a)))
		}
		return c.Cat(ts...)
	case "bytes", "str":
		need(1)
		return x.asBytesE(e, e.eval(A[0]))
	case "zeros":
		need(1)
		return c.Zeros(e.term(A[0]))
	case "unit":
		need(1)
		return c.Unit(e.term(A[0]))
	case "sub":
		need(3)
		return c.SubB(x.asBytesE(e, e.eval(A[0])), e.term(A[1]), e.term(A[2]))
	case "forall", "exists":
		need(4)
		v := c.FreshBound(A[0].(*ast.Ident).Name, SInt)
		body := e.with(A[0].(*ast.Ident).Name, v).boolT(A[3])
		g := c.And(c.Le(e.term(A[1]), v), c.Lt(v, e.term(A[2])))
		if id.Name == "forall" {
			return c.Forall([]*Term{v}, c.Imp(g, body))
		}
		return c.Exists([]*Term{v}, c.And(g, body))
	case "fold": // fold(j, n, body): body for j = 0, 1, ..., n-1, concatenated
		need(3)
		jn := A[0].(*ast.Ident).Name
		jv := c.Var("fold_j", SInt)
		n := e.term(A[1])
		body := e.with(jn, jv).term(A[2])
		if body.sort != SBytes {
			e.fail("fold over %v", body.sort)
		}
		name := fmt.Sprintf("fold:%d", body.id)
		f := c.UF(name, SBytes, n)
		if e.x != nil {
			e.x.fact(e.st, c.Eq(c.UF(name, SBytes, c.Int(0)), c.Empty()))
			if !n.isInt() || n.I64() > 0 {
				p := c.AddK(n, -1)
				e.x.fact(e.st, c.Imp(c.Gt(n, c.Int(0)), c.Eq(f, c.Cat(c.UF(name, SBytes, p), e.with(jn, p).term(A[2])))))
			}
		}
		return f
	case "forallkey": // forallkey(k, m, body): for every key of map m
		need(3)
		m, ok := e.eval(A[1]).(*VMap)
		if !ok {
			e.fail("forallkey over non-map")
		}
		kv := c.FreshBound(A[0].(*ast.Ident).Name, SVal)
		val := x.fromVal(e.st, kv, m.typ.Key())
		kt := x.toVal(e.st, val, m.typ.Key())
		dst := e.st
		if ce, ok := A[1].(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "old" {
				dst = e.old // the keys of the old map
			}
		}
		dom, _ := x.mapGet(dst, m, kt)
		body := e.with(A[0].(*ast.Ident).Name, val).boolT(A[2])
		return c.Forall([]*Term{kv}, c.Imp(dom, body))
	case "has":
		need(2)
		m, ok := e.eval(A[0]).(*VMap)
		if !ok {
			e.fail("has() of non-map")
		}
		ok2, _ := x.mapGet(e.st, m, e.keyTerm(A[1], m.typ.Key()))
		return ok2
	case "deep":
		need(1)
		return x.deep(e.st, e.eval(A[0]), 0)
	case "deepx":
		need(1)
		return x.deepx(e.st, e.eval(A[0]))
	case "unjson": // unjson("alias.Type", b): the value decoded from JSON b into a zero value
		need(2)
		T := e.typeOf(e.str(A[0]))
		return e.x.fromVal(e.st, c.UF("unjson:"+typeKey(T), SVal, e.term(A[1]), e.x.deep(e.st, e.x.zero(e.st, T), 0)), T)
	case "unasn1": // unasn1("alias.Type", b): the value decoded from DER b into a zero value
		need(2)
		T := e.typeOf(e.str(A[0]))
		return e.x.fromVal(e.st, c.UF("unasn1:"+typeKey(T), SVal, e.term(A[1]), e.x.deep(e.st, e.x.zero(e.st, T), 0)), T)
	case "asn1": // asn1(p): the DER encoding of the struct p points to (or is)
		need(1)
		switch p := e.eval(A[0]).(type) {
		case *VPtr:
			v := e.x.deepx(e.st, p)
			return c.UF("asn1:"+typeKey(p.elem), SBytes, v)
		case *VStruct:
			return c.UF("asn1:"+typeKey(p.typ), SBytes, e.x.deepx(e.st, p))
		}
		e.fail("asn1 of a non-struct")
	case "asn1encok":
		need(1)
		switch p := e.eval(A[0]).(type) {
		case *VPtr:
			if plainASN1(p.elem) {
				return c.T
			}
			return c.UF("asn1encok:"+typeKey(p.elem), SBool, e.x.deepx(e.st, p))
		case *VStruct:
			if plainASN1(p.typ) {
				return c.T
			}
			return c.UF("asn1encok:"+typeKey(p.typ), SBool, e.x.deepx(e.st, p))
		}
		e.fail("asn1encok of a non-struct")
	case "asn1ok":
		need(2)
		return c.UF("asn1ok:"+typeKey(e.typeOf(e.str(A[0]))), SBool, e.term(A[1]))
	case "bigof": // bigof(b): the big integer with big-endian bytes b
		need(1)
		return c.UF("bigof", SVal, e.term(A[0]))
	case "bigbytes": // bigbytes(p): the bytes of a big integer
		need(1)
		v := e.eval(A[0])
		if t, ok := v.(*Term); ok {
			return e.x.bigBytes(t)
		}
		return e.x.bigBytes(e.x.load(e.st, e.eval(A[0]).(*VPtr)).(*Term))
	case "bigval": // bigval(p): the value of a big integer
		need(1)
		v := e.eval(A[0])
		if t, ok := v.(*Term); ok {
			return t
		}
		return e.x.load(e.st, v.(*VPtr)).(*Term)
	case "json": // json(p): the JSON encoding of the struct p points to
		need(1)
		if p, ok := e.eval(A[0]).(*VPtr); ok {
			t, _ := x.jsonEnc(e.st, p, types.NewPointer(p.elem))
			return t
		}
		e.fail("json of a non-pointer")
	case "jsonok":
		need(2)
		return c.UF("jsonok:"+typeKey(e.typeOf(e.str(A[0]))), SBool, e.term(A[1]))
	case "keptvalue":
		need(1)
		if v, ok := e.st.kept[e.str(A[0])]; ok {
			return v
		}
		return e.x.fresh("notkept", SBytes)
	case "pending": // pending(w): the bytes written to an encoding writer so far
		need(1)
		v := e.eval(A[0])
		if iv, ok := v.(*VIface); ok {
			v = iv.v
		}
		if g, ok := e.x.ghostOf(e.st, v); ok {
			if b, ok := e.x.ghost(e.st, g).f["buf"].(*Term); ok {
				return b
			}
		}
		if p, ok := isBufferPtr(v); ok {
			return e.x.bufGet(e.st, p)
		}
		e.fail("pending() of %T", v)
	case "seen": // seen(k [, i]): the i-th map range loop of the function already visited key k
		i := 0
		if len(A) > 1 {
			i = int(e.term(A[1]).I64())
		}
		if e.rangeOf == nil {
			e.fail("seen() outside a loop invariant")
		}
		g, m := e.rangeOf(i)
		return c.inSet(g, e.keyTerm(A[0], m.typ.Key()))
	case "rangepos": // rangepos([i]): position of the i-th range loop (over a string)
		i := 0
		if len(A) > 0 {
			i = int(e.term(A[0]).I64())
		}
		if e.rangePos == nil {
			e.fail("rangepos() outside a loop invariant")
		}
		return e.rangePos(i)
	case "valof":
		need(1)
		return x.toVal(e.st, e.eval(A[0]), nil)
	case "errstr": // errstr(e): the text of an error
		need(1)
		if v, ok := e.eval(A[0]).(*VIface); ok && v.sym != nil {
			return c.UF("errstr", SBytes, v.sym)
		}
		return e.x.fresh("errstr", SBytes) // nil or of a known type: anything
	case "isbox": // isbox(x, "type")
		v := e.eval(A[0]).(*VIface)
		tn := e.str(A[1])
		if strings.HasPrefix(tn, "*") || tn == "object" || tn == "list" {
			tn = typeKey(e.typeOf(tn))
		}
		if v.sym == nil {
			return c.Bool(v.typ != nil && typeKey(v.typ) == tn)
		}
		return c.Eq(v.sym, c.UF("K_box:"+tn, SVal, c.UF("unbox:"+tn, SVal, v.sym)))
	case "unbox": // unbox(x): payload of a concrete interface value
		v, ok := e.eval(A[0]).(*VIface)
		if !ok {
			v = &VIface{sym: e.term(A[0])}
			if v.sym.op == "uf" && strings.HasPrefix(v.sym.name, "K_box:") && len(A) > 1 && v.sym.name == "K_box:"+typeKey(e.typeOf(e.str(A[1]))) {
				return x.fromVal(e.st, v.sym.args[0], e.typeOf(e.str(A[1])))
			}
		}
		if v.typ == nil && len(A) > 1 { // unbox(x, "alias.Type"): the payload, if x has that dynamic type
			T := e.typeOf(e.str(A[1]))
			x.boxTypes["K_box:"+typeKey(T)] = T
			return x.fromVal(e.st, c.UF("unbox:"+typeKey(T), SVal, v.sym), T)
		}
		if v.typ == nil {
			e.fail("unbox of symbolic interface")
		}
		return v.v
	case "count":
		need(1)
		return e.count(e.str(A[0]))
	case "evarg": // evarg("E", k, "param")
		need(3)
		return e.evarg(e.str(A[0]), int(e.term(A[1]).I64()), e.str(A[2]))
	case "evlast": // evlast("E", k, "param"): the k-th event from the end
		need(3)
		return e.evlast(e.str(A[0]), int(e.term(A[1]).I64()), e.str(A[2]))
	case "evcat": // evcat("E", "param"): this parameter of all events E, one after the other
		need(2)
		nm, ps := e.str(A[0]), e.str(A[1])
		var parts []*Term
		for _, ev := range e.st.trace {
			if ev.loop[nm] {
				return c.Cat(append(parts, c.Fresh("evcat", SBytes))...)
			}
			if ev.name == nm {
				for i, pn := range ev.names {
					if pn == ps {
						parts = append(parts, x.asBytesE(e, ev.args[i]))
					}
				}
			}
		}
		return c.Cat(append(parts, c.Empty())...)
	case "evpos":
		need(2)
		nm, k := e.str(A[0]), int(e.term(A[1]).I64())
		for i, ev := range e.st.trace {
			if ev.loop[nm] {
				return c.Fresh("evpos", SInt)
			}
			if ev.name == nm {
				if k == 0 {
					return c.Int(int64(i))
				}
				k--
			}
		}
		return c.Int(1 << 30)
	case "min", "max":
		need(2)
		a, b := e.term(A[0]), e.term(A[1])
		if id.Name == "min" {
			return c.Ite(c.Le(a, b), a, b)
		}
		return c.Ite(c.Le(b, a), a, b)
	case "u64": // u64(f): conversion of a float64 to uint64
		need(1)
		r := c.UF("f2i:uint64", SInt, e.eval(A[0]).(*Term))
		if !r.bound {
			lo, hi := intRange(types.Typ[types.Uint64])
			c.SetRange(r, lo, hi)
		}
		return r
	case "ptrof": // identity of a pointer as Val
		need(1)
		v := e.eval(A[0])
		if p, ok := v.(*VPtr); ok && p.orig != nil {
			v = p.orig // an argument of an event: the pointer that was passed
		}
		return x.toVal(e.st, v, nil)
	case "allnil":
		var ts []*Term
		for _, a := range A {
			ts = append(ts, x.isNil(e.st, e.eval(a)))
		}
		return c.And(ts...)
	}
	if d, ok := e.specs.defs[id.Name]; ok {
		if len(A) != len(d.params) {
			e.fail("%s needs %d arguments", id.Name, len(d.params))
		}
		ne := *e
		ne.vars = map[string]Value{}
		for k, v := range e.vars { // lets of the contract stay visible
			ne.vars[k] = v
		}
		for k, p := range d.params {
			ne.vars[p] = e.eval(A[k])
		}
		if len(d.names) > 0 {
			ne.names = d.names
		}
		return ne.eval(d.body.e)
	}
	if l, ok := e.specs.logic[id.Name]; ok {
		if len(A) != len(l.args) {
			e.fail("%s needs %d arguments", id.Name, len(l.args))
		}
		var ts []*Term
		for k, a := range A {
			v := e.eval(a)
			var t *Term
			switch l.args[k] {
			case SBytes:
				t = x.asBytesE(e, v)
			case SVal:
				if tv, ok := v.(*Term); ok && tv.sort == SVal {
					t = tv
				} else if _, isNil := v.(nilMarker); isNil {
					t = c.UF("K_nil", SVal)
				} else {
					t = x.toVal(e.st, v, nil)
				}
			default:
				tv, ok := v.(*Term)
				if !ok || tv.sort != l.args[k] {
					e.fail("%s argument %d has the wrong sort", id.Name, k)
				}
				t = tv
			}
			ts = append(ts, t)
		}
		return c.UF(id.Name, l.ret, ts...)
	}
	e.fail("unknown function %s", id.Name)
	return nil
}

func (e *evalCtx) count(name string) *Term {
	n := int64(0)
	taint := false
	for _, ev := range e.st.trace {
		if ev.name == name {
			n++
		}
		if ev.loop[name] {
			taint = true
		}
	}
	if taint {
		t := e.c.Fresh("count", SInt)
		e.c.SetRange(t, big.NewInt(n), maxLen)
		return t
	}
	return e.c.Int(n)
}

// noArg is an argument that an event does not have: a call with fewer
// destinations stands for any value, like an event that did not happen.
func (e *evalCtx) noArg(ev Event, p string) Value {
	base := strings.TrimRight(p, "0123456789")
	for _, pn := range ev.names {
		if base != p && (pn == base || pn == base+"0") {
			e.x.noEvents++
			return e.c.UF("noevent", SVal)
		}
	}
	e.fail("event %s has no argument %s", ev.name, p)
	return nil
}

func (e *evalCtx) evarg(name string, k int, p string) Value {
	for _, ev := range e.st.trace {
		if ev.loop[name] {
			break
		}
		if ev.name == name {
			if k == 0 {
				for i, pn := range ev.names {
					if pn == p {
						e.x.evReads++
						return ev.args[i]
					}
				}
				return e.noArg(ev, p)
			}
			k--
		}
	}
	e.x.noEvents++
	return e.c.UF("noevent", SVal)
}

func (e *evalCtx) evlast(name string, k int, p string) Value {
	for j := len(e.st.trace) - 1; j >= 0; j-- {
		ev := e.st.trace[j]
		if ev.loop[name] {
			break
		}
		if ev.name == name {
			if k == 0 {
				for i, pn := range ev.names {
					if pn == p {
						e.x.evReads++
						return ev.args[i]
					}
				}
				return e.noArg(ev, p)
			}
			k--
		}
	}
	e.x.noEvents++
	return e.c.UF("noevent", SVal)
}

// freeze copies the backing store of v as seen in state from into state to.
func (x *Exec) freeze(from, to *State, v Value) Value {
	switch v := v.(type) {
	case *VSlice:
		if v.base == nil {
			return v
		}
		content := x.load(from, v.base)
		var T types.Type = types.NewSlice(v.elem)
		id := x.newObjIn(to, content, T, "frozen")
		if from != to {
			from.heap[id] = to.heap[id]
		}
		return &VSlice{nilT: v.nilT, base: &VPtr{obj: id, elem: T}, off: v.off, len: v.len, cap: v.cap, elem: v.elem}
	case *VPtr:
		if v.sym == nil && v.obj == 0 {
			return v
		}
		if v.sym != nil || v.elem == nil {
			if v.elem == nil {
				return v
			}
		}
		if g, ok := x.ghostOf(from, v); ok {
			_ = g
			return v
		}
		content := x.load(from, v)
		id := x.newObjIn(to, content, v.elem, "frozen")
		if from != to {
			from.heap[id] = to.heap[id]
		}
		return &VPtr{obj: id, elem: v.elem, orig: v}
	}
	return v
}

// deep gives a Val term determined by the full contents of v (pointers replaced by pointees).
func (x *Exec) deep(st *State, v Value, d int) *Term { return x.deepOf(st, v, d, false) }

// deepx: like deep, without the unexported struct fields (what an encoder by reflection sees).
func (x *Exec) deepx(st *State, v Value) *Term { return x.deepOf(st, v, 0, true) }

func (x *Exec) deepOf(st *State, v Value, d int, exported bool) *Term {
	c := x.c
	if d > 6 {
		return x.toVal(st, v, nil)
	}
	switch v := v.(type) {
	case *VPtr:
		if v.sym == nil && v.obj == 0 {
			return c.UF("K_nil", SVal)
		}
		in := x.deepOf(st, x.load(st, v), d+1, exported)
		if !exported {
			in = c.UF("K_some", SVal, in)
		}
		if v.sym != nil || v.orig != nil && v.orig.sym != nil {
			return c.Ite(x.isNil(st, v), c.UF("K_nil", SVal), in)
		}
		return in
	case *VIface:
		if exported && v.typ != nil {
			return x.deepOf(st, v.v, d, exported)
		}
	case *VSlice:
		if exported && v.base != nil && v.len.isInt() && v.len.I64() <= 4 && !isByteT(v.elem) {
			if _, ok := under(v.elem).(*types.Struct); ok {
				var as []*Term
				for i := int64(0); i < v.len.I64(); i++ {
					as = append(as, x.deepOf(st, x.elemAt(st, x.load(st, v.base), c.Add(v.off, c.Int(i)), v.elem), d+1, exported))
				}
				return c.UF("K_list", SVal, append(as, c.UF("K_bool", SVal, v.nilT))...)
			}
		}
	case *VStruct:
		s := under(v.typ).(*types.Struct)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			if exported && !s.Field(i).Exported() {
				continue
			}
			as = append(as, x.deepOf(st, x.field(st, v, i), d+1, exported))
		}
		if exported {
			return c.UF(fmt.Sprintf("K_x:%s", typeKey(v.typ)), SVal, as...)
		}
		return c.UF("K_s:"+typeKey(v.typ), SVal, as...)
	}
	return x.toVal(st, v, nil)
}

func (ax *Axiom) term(c *Ctx) *Term {
	e := &evalCtx{c: c, specs: ax.specs, vars: map[string]Value{}, names: ax.names, x: nil}
	var vs []*Term
	for i, n := range ax.vars {
		v := c.FreshBound(n, ax.sorts[i])
		vs = append(vs, v)
		e.vars[n] = v
	}
	b := e.boolT(ax.body.e)
	if len(vs) == 0 {
		return b
	}
	return c.Forall(vs, b)
}

// ---------- contracts at work ----------

func (x *Exec) ctxFor(con *Contract, st, old *State, vars map[string]Value) *evalCtx {
	e := &evalCtx{x: x, c: x.c, st: st, old: old, vars: map[string]Value{}, names: con.names, pkg: con.pkg, specs: x.specs}
	for k, v := range vars {
		e.vars[k] = v
	}
	for _, l := range con.lets {
		if l.post {
			if e.posts == nil {
				e.posts = map[string]*Clause{}
			}
			e.posts[l.name] = l.e
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if se, ok := r.(specErr); ok {
						panic(specErr{l.name + ": " + se.msg})
					}
					panic(r)
				}
			}()
			le := *e
			if old != nil {
				le.st = old // lets describe the entry state
			}
			e.vars[l.name] = le.eval(l.e.e)
		}()
	}
	return e
}

func (x *Exec) evalClause(e *evalCtx, cl *Clause) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				if x.rp != nil && x.rp.isHint(cl) {
					x.rp.bad[cl] = true
				}
				panic(engineErr{fmt.Sprintf("%s:%d: %s", cl.file, cl.line, se.msg)})
			}
			panic(r)
		}
	}()
	return e.boolT(cl.e)
}

func (x *Exec) evalInv(st *State, d int, cl *Clause) *Term {
	return x.evalClause(x.invCtx(st, d, cl), cl)
}

func (x *Exec) evalInvV(st *State, d int, cl *Clause) (v Value) {
	e := x.invCtx(st, d, cl)
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				if x.rp != nil && x.rp.isHint(cl) {
					x.rp.bad[cl] = true
				}
				panic(engineErr{fmt.Sprintf("%s:%d: %s", cl.file, cl.line, se.msg)})
			}
			panic(r)
		}
	}()
	return e.eval(cl.e)
}

func (x *Exec) invCtx(st *State, d int, cl *Clause) *evalCtx {
	fr := st.frames[d]
	con := x.hintCon(fr.fn)
	vars := map[string]Value{}
	own := fr
	if con == x.con && calleeKey(fr.fn) != con.key { // the loop has moved to a helper
		own = st.frames[0]
	}
	for i, p := range own.fn.Params {
		if i < len(con.params) {
			vars[con.params[i]] = own.env[p]
		}
	}
	e := &evalCtx{x: x, c: x.c, st: st, old: x.entry, vars: map[string]Value{}, names: con.names, pkg: con.pkg, specs: x.specs}
	rng := func(i int) *ghostObj {
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Range); ok {
					if i == 0 {
						if p, ok := fr.env[r].(*VPtr); ok {
							return st.heap[p.obj].val.(*ghostObj)
						}
						panic(specErr{"range loop not active"})
					}
					i--
				}
			}
		}
		panic(specErr{"no such range loop"})
	}
	e.rangeOf = func(i int) (*Term, *VMap) {
		g := rng(i)
		m, ok := g.f["over"].(*VMap)
		if !ok {
			panic(specErr{"not a map range"})
		}
		return g.f["vis"].(*Term), m
	}
	e.rangePos = func(i int) *Term { return rng(i).f["pos"].(*Term) }
	e.look = func(n string) (Value, bool) {
		if n == "iter" || strings.HasPrefix(n, "iter") {
			k := 0
			if n != "iter" {
				k, _ = strconv.Atoi(n[4:])
				if t, ok := fr.iter[k]; ok {
					return t, true
				}
			} else {
				for o, t := range fr.iter {
					if ls := x.specFor(fr.fn, o); ls != nil {
						for _, i := range ls.invs {
							if i == cl {
								return t, true
							}
						}
					}
				}
			}
		}
		n0 := n
		if x.rp != nil && x.rp.ren[n] != "" && fr.names["&"+n] == nil && fr.names[n] == nil && (vars[n] == nil || own != fr) {
			n = x.rp.ren[n]
		}
		if p, ok := fr.names["&"+n]; ok {
			return x.load(st, p.(*VPtr)), true
		}
		if v, ok := fr.names[n]; ok {
			return v, true
		}
		if own != fr && (x.rp.ren[n0] == "" || x.rp.ren[n0] == n) {
			known := vars[n] != nil
			for k := d - 1; k >= 0; k-- {
				known = known || st.frames[k].names["&"+n] != nil || st.frames[k].names[n] != nil
			}
			for _, v := range x.specs.locals[con.key] {
				known = known || v.Name == n
			}
			if known && x.rp.ren[n0] == "" && x.rp.isHint(cl) {
				x.unknownName(st, d, cl, n, vars[n])
				e.fail("unknown name %s", n)
			}
			for k := d - 1; k >= 0; k-- {
				if p, ok := st.frames[k].names["&"+n]; ok {
					return x.load(st, p.(*VPtr)), true
				}
				if v, ok := st.frames[k].names[n]; ok {
					return v, true
				}
			}
		}
		if r := x.renamed(fr.fn)[n]; r != "" {
			if p, ok := fr.names["&"+r]; ok {
				return x.load(st, p.(*VPtr)), true
			}
			if v, ok := fr.names[r]; ok {
				return v, true
			}
		}
		v, ok := vars[n]
		return v, ok
	}
	if x.rp != nil && x.rp.isHint(cl) {
		e.unknown = func(n string) { x.unknownName(st, d, cl, n, nil) }
	}
	// contract-level lets use entry values
	le := *e
	le.st = x.entry
	if le.st == nil {
		le.st = st
	}
	le.look = func(n string) (Value, bool) { v, ok := vars[n]; return v, ok }
	for _, l := range con.lets {
		if l.post {
			if e.posts == nil {
				e.posts = map[string]*Clause{}
			}
			e.posts[l.name] = l.e
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if se, ok := r.(specErr); ok {
						panic(engineErr{fmt.Sprintf("%s:%d: %s", l.e.file, l.e.line, se.msg)})
					}
					panic(r)
				}
			}()
			v := le.eval(l.e.e)
			e.vars[l.name] = v
			m := map[string]Value{}
			for k, o := range le.vars {
				m[k] = o
			}
			m[l.name] = v
			le.vars = m
		}()
	}
	return e
}

func (x *Exec) applyContract(st *State, con *Contract, fn *ssa.Function, args []Value, sig *types.Signature, rt types.Type, k func(*State, Value), pos token.Pos, trusted bool) {
	vars := map[string]Value{}
	if len(con.params) != len(args) {
		x.abort("contract of %s has %d parameters, call has %d", con.key, len(con.params), len(args))
	}
	for i, p := range con.params {
		vars[p] = args[i]
	}
	if trusted {
		x.rep.trust(con.key)
	}
	for _, en := range con.ensures {
		if en.callerOnly {
			x.rep.trust(con.key + " (assumes " + en.text + ")")
		}
	}
	old := st.clone()
	e := x.ctxFor(con, st, old, vars)
	caller := "entry"
	if len(st.frames) > 0 {
		caller = shortFn(x.top(st).fn)
	}
	for i, r := range con.requires {
		x.oblige(st, fmt.Sprintf("%s/pre%d:%s", caller, i, strings.ReplaceAll(con.key, modPath+"/", "")), x.evalClause(e, r), pos)
	}
	if con.maypanic {
		if con.panicIf != nil && !x.specs.mentionsEvents(con.panicIf.e, con.lets, 0) {
			x.mayPanic(st, "panic:"+strings.ReplaceAll(con.key, modPath+"/", ""), x.c.Not(x.evalClause(e, con.panicIf)), pos)
		} else {
			x.note("maypanic", "panics of "+strings.ReplaceAll(con.key, modPath+"/", "")+" are not excluded")
		}
	}
	// frame
	if con.modAny {
		for _, a := range args {
			x.havocReach(st, a, map[int]bool{})
		}
	}
	// all targets are named in the state before the call
	targets := make([]*VPtr, len(con.modifies))
	for i, m := range con.modifies {
		if n, ok := m.e.(*ast.SelectorExpr); ok {
			targets[i] = x.evalLV(e, m, n)
		}
	}
	for i, m := range con.modifies {
		if targets[i] != nil {
			x.store(st, targets[i], x.havocVal(st, targets[i].elem, "mod"))
			continue
		}
		if _, ok := m.e.(*ast.SelectorExpr); ok {
			continue // below a nil pointer
		}
		x.havocLV(e, m)
	}
	if con.outs != "" {
		l, ok := vars[con.outs].(*VSlice)
		if !ok || l.base == nil && !l.len.isInt() || !l.len.isInt() || l.len.I64() > 40 {
			x.abort("contract of %s: number of pointers in %s is not known", con.key, con.outs)
		}
		for i := int64(0); i < l.len.I64(); i++ {
			iv, ok := x.elemAt(st, x.load(st, l.base), x.c.AddK(l.off, i), l.elem).(*VIface)
			if !ok {
				x.abort("contract of %s: %s", con.key, con.outs)
			}
			p, ok := iv.v.(*VPtr)
			if !ok || iv.typ == nil {
				x.abort("contract of %s: %s holds no pointers", con.key, con.outs)
			}
			v := x.havocVal(st, p.elem, "out")
			x.store(st, p, v)
			vars[fmt.Sprintf("%s%d", con.outs, i)] = v
		}
	}
	res := x.havocVal(st, rt, "r_"+con.key[strings.LastIndexAny(con.key, "./)")+1:])
	if len(con.results) == 1 {
		vars[con.results[0]] = res
	} else if tp, ok := res.(VTuple); ok {
		for i, n := range con.results {
			vars[n] = tp[i]
		}
	}
	// an ensures r == e names the result itself
	for _, en := range con.ensures {
		if en.calleeOnly || x.specs.mentionsEvents(en.e, con.lets, 0) {
			continue
		}
		for _, cj := range conjuncts(en.e) {
			be, ok := cj.(*ast.BinaryExpr)
			if !ok || be.Op != token.EQL {
				continue
			}
			id, ok := be.X.(*ast.Ident)
			if !ok {
				continue
			}
			ri := -1
			for i, n := range con.results {
				if n == id.Name {
					ri = i
				}
			}
			if ri < 0 || mentionsAny(be.Y, con.results) {
				continue
			}
			if id, ok := be.Y.(*ast.Ident); ok && id.Name == "nil" {
				continue
			}
			cur := vars[id.Name]
			if p, ok := cur.(*VPtr); !ok || p.sym == nil {
				continue
			}
			v, ok := x.ctxFor(con, st, old, vars).eval(be.Y).(*VPtr)
			if !ok {
				continue
			}
			vars[id.Name] = v
			if tp, ok := res.(VTuple); ok {
				tp = append(VTuple(nil), tp...)
				tp[ri] = v
				res = tp
			} else {
				res = v
			}
		}
	}
	x.freshResults(st, con, old, vars, res, 0, func(st *State, vars map[string]Value, res Value) {
		x.finishCall(st, old, con, fn, args, vars, res, k, trusted)
	})
}

// freshResults replaces results that are newly allocated by new objects.
func (x *Exec) freshResults(st *State, con *Contract, old *State, vars map[string]Value, res Value, i int, k func(*State, map[string]Value, Value)) {
	if i >= len(con.fresh) {
		k(st, vars, res)
		return
	}
	name := con.fresh[i]
	ri := -1
	for j, n := range con.results {
		if n == name {
			ri = j
		}
	}
	if ri < 0 {
		x.abort("contract of %s: fresh %s is not a result", con.key, name)
	}
	with := func(st *State, v Value) {
		nv := map[string]Value{}
		for n, o := range vars {
			nv[n] = o
		}
		nv[name] = v
		nr := res
		if tp, ok := res.(VTuple); ok {
			tp = append(VTuple(nil), tp...)
			tp[ri] = v
			nr = tp
		} else {
			nr = v
		}
		x.freshResults(st, con, old, nv, nr, i+1, k)
	}
	switch p := vars[name].(type) {
	case *VSlice:
		with(st, x.freeze(st, st, p))
		return
	case *VPtr:
		if p.sym == nil {
			with(st, p)
			return
		}
		// what the postconditions say about nil
		tmp := st.clone()
		x.sv.Push()
		e := x.ctxFor(con, tmp, old, vars)
		for _, en := range con.ensures {
			if !en.calleeOnly && !x.specs.mentionsEvents(en.e, con.lets, 0) {
				x.assume(tmp, x.evalClause(e, en))
			}
		}
		d := x.decide(x.isNil(tmp, p))
		x.sv.Pop()
		isn := x.isNil(st, p)
		alloc := func(st *State) {
			id := x.newObjIn(st, x.havocVal(st, p.elem, "fresh"), p.elem, "fresh")
			with(st, &VPtr{obj: id, elem: p.elem})
		}
		switch d {
		case 1:
			x.assume(st, isn)
			with(st, p)
		case 0:
			x.assume(st, x.c.Not(isn))
			alloc(st)
		default:
			x.branch(st, isn, "result of "+con.key[strings.LastIndex(con.key, "/")+1:]+" nil", func(s *State) { with(s, p) }, alloc)
		}
		return
	}
	with(st, vars[name])
}

func (x *Exec) finishCall(st, old *State, con *Contract, fn *ssa.Function, args []Value, vars map[string]Value, res Value, k func(*State, Value), trusted bool) {
	e := x.ctxFor(con, st, old, vars)
	for _, en := range con.ensures {
		if en.calleeOnly || x.specs.mentionsEvents(en.e, con.lets, 0) {
			continue // about the callee's own events
		}
		x.assume(st, x.evalClause(e, en))
	}
	if !trusted && fn != nil {
		evs := x.eventsOf(fn)
		if con.quiet {
			evs = globalEvents(evs)
		}
		delete(evs, con.event)
		if len(evs) > 0 {
			for _, ds := range x.discs {
				for n := range evs {
					ds.events[n] = true
				}
			}
			st.trace = append(st.trace, Event{name: "*call", loop: evs})
		}
	}
	if con.event != "" {
		ev := Event{name: con.event}
		for i, p := range con.params {
			ev.names = append(ev.names, p)
			ev.args = append(ev.args, x.freeze(old, st, args[i]))
			if _, ok := args[i].(*VPtr); ok && len(con.modifies) > 0 { // the object when the call returned
				ev.names = append(ev.names, "after_"+p)
				ev.args = append(ev.args, x.freeze(st, st, args[i]))
			}
		}
		for _, r := range con.results {
			ev.names = append(ev.names, r)
			ev.args = append(ev.args, vars[r])
		}
		for i := 0; con.outs != ""; i++ {
			n := fmt.Sprintf("%s%d", con.outs, i)
			v, ok := vars[n]
			if !ok {
				break
			}
			ev.names = append(ev.names, n)
			ev.args = append(ev.args, v)
		}
		x.emitEv(st, ev)
	}
	k(st, res)
}

// havocLV havocs a modifies target.
func (x *Exec) evalLV(e *evalCtx, cl *Clause, n *ast.SelectorExpr) *VPtr {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				if x.rp != nil && x.rp.isHint(cl) {
					x.rp.bad[cl] = true
				}
				panic(engineErr{fmt.Sprintf("%s:%d: %s", cl.file, cl.line, se.msg)})
			}
			panic(r)
		}
	}()
	return e.lvPtr(n)
}

func (x *Exec) havocLV(e *evalCtx, cl *Clause) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				if x.rp != nil && x.rp.isHint(cl) {
					x.rp.bad[cl] = true
				}
				panic(engineErr{fmt.Sprintf("%s:%d: %s", cl.file, cl.line, se.msg)})
			}
			panic(r)
		}
	}()
	c := x.c
	st := e.st
	switch n := cl.e.(type) {
	case *ast.StarExpr:
		p := e.eval(n.X).(*VPtr)
		x.store(st, p, x.havocVal(st, p.elem, "mod"))
	case *ast.Ident:
		g := e.globalVar(n.Name)
		id := x.globalObj(st, g)
		x.noteWriteObj(st, id, -1)
		x.havocObj(st, id, map[int]bool{-1: true})
	case *ast.SelectorExpr:
		if p := e.lvPtr(n); p != nil {
			x.store(st, p, x.havocVal(st, p.elem, "mod"))
		}
	case *ast.CallExpr:
		v := e.eval(n.Args[0])
		switch v := v.(type) {
		case *VSlice:
			if v.base == nil {
				return
			}
			if isByteT(v.elem) {
				nb := x.fresh("modb", SBytes)
				if v.len.isInt() {
					c.SetLen(nb, v.len.I64())
				} else {
					x.fact(st, c.Eq(c.Len(nb), v.len))
				}
				x.writeBytes(st, v, c.Int(0), nb)
			} else {
				x.havocObj(st, v.base.obj, map[int]bool{-1: true})
				x.noteWriteObj(st, v.base.obj, -1)
			}
		case *VMap:
			id := x.mapObj(st, v)
			x.noteWriteObj(st, id, -1)
			x.havocObj(st, id, map[int]bool{-1: true})
		case *VPtr:
			x.store(st, v, x.havocVal(st, v.elem, "mod"))
		default:
			e.fail("modifies %T", v)
		}
	default:
		e.fail("unsupported modifies target")
	}
}

// globalVar is a variable of the package of the contract.
func (e *evalCtx) globalVar(name string) *ssa.Global {
	if tp := e.x.w.tpkgs[e.pkg]; tp != nil {
		if p := e.x.w.prog.Package(tp); p != nil {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				return g
			}
		}
	}
	e.fail("modifies: no variable %s", name)
	return nil
}

// lvPtr is the address of a field named by a selector expression.
func (e *evalCtx) lvPtr(n *ast.SelectorExpr) *VPtr {
	x := e.x
	p, ok := e.eval(n.X).(*VPtr)
	if ok {
		p = x.resolve(e.st, p)
	} else if in, ok := n.X.(*ast.SelectorExpr); ok {
		if p = e.lvPtr(in); p == nil {
			return nil
		}
	} else {
		e.fail("modifies: base is not a pointer")
	}
	if p.elem == nil || p.obj == 0 {
		return nil
	}
	s, ok := under(p.elem).(*types.Struct)
	if !ok {
		e.fail("modifies: base is not a struct")
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n.Sel.Name {
			return &VPtr{obj: p.obj, path: append(append([]PE{}, p.path...), PE{f: i}), elem: s.Field(i).Type()}
		}
	}
	e.fail("modifies: no field %s", n.Sel.Name)
	return nil
}

func isImp(cl *Clause) (ast.Expr, bool) {
	e := cl.e
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if ce, ok := e.(*ast.CallExpr); ok {
		if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "imp" {
			return ce.Args[0], true
		}
	}
	return nil, false
}

// allowLV records which (object, field) a modifies clause covers.
func (x *Exec) allowLV(e *evalCtx, cl *Clause, allow func(id, f int)) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				if x.rp != nil && x.rp.isHint(cl) {
					x.rp.bad[cl] = true
				}
				panic(engineErr{fmt.Sprintf("%s:%d: %s", cl.file, cl.line, se.msg)})
			}
			panic(r)
		}
	}()
	st := e.st
	switch n := cl.e.(type) {
	case *ast.StarExpr:
		p := x.resolve(st, e.eval(n.X).(*VPtr))
		allow(p.obj, -1)
	case *ast.Ident:
		allow(x.globalObj(st, e.globalVar(n.Name)), -1)
	case *ast.SelectorExpr:
		if p := e.lvPtr(n); p != nil {
			allow(p.obj, p.path[0].f)
		}
	case *ast.CallExpr:
		switch v := e.eval(n.Args[0]).(type) {
		case *VSlice:
			if v.base != nil {
				b := x.resolve(st, v.base)
				if len(b.path) > 0 {
					allow(b.obj, b.path[0].f)
				} else {
					allow(b.obj, -1)
				}
			}
		case *VMap:
			allow(x.mapObj(st, v), -1)
		case *VPtr:
			allow(x.resolve(st, v).obj, -1)
		default:
			e.fail("modifies %T", v)
		}
	default:
		e.fail("unsupported modifies target")
	}
}

func conjuncts(e ast.Expr) []ast.Expr {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return conjuncts(n.X)
	case *ast.BinaryExpr:
		if n.Op == token.LAND {
			return append(conjuncts(n.X), conjuncts(n.Y)...)
		}
	}
	return []ast.Expr{e}
}

func mentionsAny(e ast.Expr, names []string) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			for _, m := range names {
				r = r || m == id.Name
			}
		}
		return true
	})
	return r
}
