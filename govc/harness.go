package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      []*ssa.Package
	contracts map[*ssa.Function]*ssa.Function
	bigInt    types.Type
	harnesses []*Harness
	overlay   map[string]string // repo path -> contract file
	specFiles map[string]bool
	opaque    map[*ssa.Function]bool
	abstract  map[*ssa.Function]bool // its definition is never used
	byFn      map[*ssa.Function]*Harness
}

type Harness struct {
	fn     *ssa.Function
	name   string
	pkg    *ssa.Package
	kind   string // VC VT VB
	target *ssa.Function
	props  []string
	opts   map[string]string
	gen    string
	pos    token.Pos
	tier   string
}

func (h *Harness) has(p string) bool {
	for _, q := range h.props {
		if q == p {
			return true
		}
	}
	return false
}

const modPath = "github.com/philhofer/seth"

func (p *Program) isRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && strings.HasPrefix(pk.Path(), modPath)
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
	}
	return nil
}

// isSpec: contract code
func (p *Program) isSpec(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk != nil && pk.Path() == vcPath {
		return true
	}
	if pos := fn.Pos(); pos.IsValid() {
		return p.specFiles[p.fset.Position(pos).Filename]
	}
	return false
}

// contractOverlay maps repo paths to contract files.
func contractOverlay(dir, repo string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		m[filepath.Join(repo, rel)] = path
		return nil
	})
	return m, err
}

func loadProgram(repo, contracts string, patterns []string) (*Program, error) {
	return loadProgramDrop(repo, contracts, patterns, nil)
}

func loadProgramDrop(repo, contracts string, patterns []string, drop map[string]bool) (*Program, error) {
	ov, err := contractOverlay(contracts, repo)
	if err != nil {
		return nil, err
	}
	for k, f := range ov {
		if drop[f] {
			delete(ov, k)
		}
	}
	p := &Program{contracts: map[*ssa.Function]*ssa.Function{}, overlay: ov, specFiles: map[string]bool{}, opaque: map[*ssa.Function]bool{}, abstract: map[*ssa.Function]bool{}, byFn: map[*ssa.Function]*Harness{}}
	bytesOv := map[string][]byte{}
	for r, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		bytesOv[r] = b
		p.specFiles[r] = true
	}
	p.fset = token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: p.fset, Overlay: bytesOv, BuildFlags: []string{"-mod=mod"}, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog, p.pkgs = prog, spkgs
	if bp := prog.ImportedPackage("math/big"); bp != nil {
		p.bigInt = bp.Type("Int").Type()
	}
	var own []*packages.Package
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		if strings.HasPrefix(q.PkgPath, modPath) {
			own = append(own, q)
		}
	})
	for _, q := range own {
		sp := prog.Package(q.Types)
		if sp == nil {
			continue
		}
		for fi, f := range q.Syntax {
			_ = fi
			fn := p.fset.Position(f.Pos()).Filename
			if !p.specFiles[fn] {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				n := fd.Name.Name
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if c.Text == "//vc:abstract" {
							p.opaque[sp.Func(n)] = true
							p.abstract[sp.Func(n)] = true
						}
						if c.Text == "//vc:opaque" {
							p.opaque[sp.Func(n)] = true
						}
					}
				}
				if len(n) < 4 || n[0] != 'V' || n[2] != '_' {
					continue
				}
				h := &Harness{name: n, kind: n[:2], pkg: sp, fn: sp.Func(n), opts: map[string]string{}, pos: fd.Pos()}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimPrefix(c.Text, "//")
						if !strings.HasPrefix(t, "vc:") {
							continue
						}
						fl := strings.Fields(t[3:])
						switch fl[0] {
						case "property":
							h.props = append(h.props, fl[1:]...)
						case "for":
							h.target = p.resolve(sp, fl[1])
							if h.target == nil {
								h.opts["missing"] = fl[1]
							}
						case "gen":
							h.gen = fl[1]
						case "thorough":
							h.tier = "thorough"
						default:
							k := fl[0]
							if len(fl) > 1 {
								for _, a := range fl[1:] {
									h.opts[k+":"+a] = "1"
								}
								h.opts[k] = strings.Join(fl[1:], " ")
							} else {
								h.opts[k] = "1"
							}
						}
					}
				}
				switch h.kind {
				case "VC", "VT", "VB", "VI":
					p.harnesses = append(p.harnesses, h)
					p.byFn[h.fn] = h
				}
				if h.kind == "VC" && h.target != nil {
					p.contracts[h.target] = h.fn
				}
				if h.kind == "VB" && h.target != nil {
					if p.contracts[h.target] == nil {
						p.contracts[h.target] = h.fn
					}
				}
			}
		}
	}
	sort.Slice(p.harnesses, func(i, j int) bool { return p.harnesses[i].name < p.harnesses[j].name })
	return p, nil
}

// resolve "Type.Method" or "func" or "pkgpath.func"
func (p *Program) resolve(sp *ssa.Package, name string) *ssa.Function {
	if i := strings.LastIndex(name, "/"); i >= 0 || strings.Count(name, ".") == 2 {
		// path.Type.Method / path.func
		j := i + 1 + strings.Index(name[i+1:], ".")
		if q := p.prog.ImportedPackage(name[:j]); q != nil {
			return p.resolve(q, name[j+1:])
		}
		return nil
	}
	parts := strings.Split(name, ".")
	if len(parts) == 1 {
		return sp.Func(name)
	}
	m := sp.Members[parts[0]]
	t, ok := m.(*ssa.Type)
	if !ok {
		return nil
	}
	for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.prog.MethodSets.MethodSet(tt)
		if sel := ms.Lookup(sp.Pkg, parts[1]); sel != nil {
			if f, ok := sel.Obj().(*types.Func); ok {
				return p.prog.FuncValue(f)
			}
		}
	}
	return nil
}

// ---- globals

// global returns the object of a package variable, evaluating its initialiser.
func (x *Exec) global(st *State, g *ssa.Global) *Obj {
	if o, ok := x.globals[g]; ok {
		if _, ok := st.heap[o]; !ok {
			st.heap[o] = x.heapInit[o]
			for _, d := range x.globalDeps[o] {
				if _, ok := st.heap[d]; !ok {
					st.heap[d] = x.heapInit[d]
				}
			}
		}
		return o
	}
	t := under(g.Type()).(*types.Pointer).Elem()
	o := x.newObj(g.RelString(nil), t)
	o.gen = 0
	x.globals[g] = o
	had := map[*Obj]bool{}
	for d := range st.heap {
		had[d] = true
	}
	v := x.initGlobal(st, g, t)
	for d, dv := range st.heap {
		if !had[d] {
			x.globalDeps[o] = append(x.globalDeps[o], d)
			x.heapInit[d] = dv
		}
	}
	x.heapInit[o] = v
	st.heap[o] = v
	return o
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch a := v.(type) {
		case *ssa.Global:
			return a
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return nil
		}
	}
}

// loadedGlobal: like rootGlobal, also through what g points to
func loadedGlobal(v ssa.Value) *ssa.Global {
	for {
		if g := rootGlobal(v); g != nil {
			return g
		}
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		case *ssa.Slice:
			v = a.X
		case *ssa.UnOp:
			if a.Op != token.MUL {
				return nil
			}
			v = a.X
		default:
			return nil
		}
	}
}

// mutatedOutside: some function other than the package initialiser writes g
// or lets its address escape.
func (p *Program) mutatedOutside(g *ssa.Global, skip map[string]bool) bool {
	pkg := g.Pkg
	bad := false
	var scan func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	scan = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Name() == "init" || skip[fn.Name()] || p.isSpec(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch s := in.(type) {
				case *ssa.Store:
					bad = bad || loadedGlobal(s.Addr) == g
				case *ssa.MapUpdate:
					bad = bad || loadedGlobal(s.Map) == g
				case *ssa.Call:
					if b, ok := s.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") {
						bad = bad || loadedGlobal(s.Call.Args[0]) == g
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	if pkg == nil || pkg.Pkg == nil {
		return false
	}
	if !strings.HasPrefix(pkg.Pkg.Path(), modPath) {
		return false // dependency variables are taken as constant after init
	}
	for _, m := range pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			scan(m)
		case *ssa.Type:
			for _, tt := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					if f, ok := ms.At(i).Obj().(*types.Func); ok {
						scan(p.prog.FuncValue(f))
					}
				}
			}
		}
	}
	return bad
}

func (x *Exec) initGlobal(st *State, g *ssa.Global, t types.Type) (res Val) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				x.infoNotes = append(x.infoNotes, "global "+g.RelString(nil)+" taken as unknown: "+u.msg)
				res = x.globalUnknown(st, g, t)
				return
			}
			panic(e)
		}
	}()
	skip := map[string]bool{}
	if f := x.opts["init"]; f != "" {
		for _, n := range strings.Fields(f) {
			skip[n] = true
		}
	}
	if x.prog.mutatedOutside(g, skip) {
		if x.opts["const:"+g.Name()] == "" {
			return x.globalUnknown(st, g, t)
		}
	}
	// the value of a *big.Int variable given by the harness (the same value is
	// compared with the initialised variable by an executed harness)
	for _, a := range strings.Fields(x.opts["big"]) {
		if i := strings.Index(a, "="); i > 0 && a[:i] == g.Name() {
			n, ok := new(big.Int).SetString(a[i+1:], 16)
			if !ok {
				x.fail("bad value for " + g.Name())
			}
			x.infoNotes = append(x.infoNotes, "variable "+g.RelString(nil)+" has the value checked by execution")
			return x.newBig(st, x.c.Big(n))
		}
	}
	if g.Pkg == nil {
		return x.globalUnknown(st, g, t)
	}
	initFn := g.Pkg.Func("init")
	if initFn == nil || len(initFn.Blocks) == 0 {
		return x.zero(st, t)
	}
	// find the segment
	for _, b := range initFn.Blocks {
		start, end := -1, -1
		last := 0
		for i, in := range b.Instrs {
			var r *ssa.Global
			if s, ok := in.(*ssa.Store); ok {
				r = rootGlobal(s.Addr)
			}
			if c, ok := in.(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Function); ok && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
					last = i + 1
				}
			}
			if r == nil {
				continue
			}
			if r == g {
				if start < 0 {
					start = last
				}
				end = i + 1
			}
			last = i + 1
		}
		if start < 0 {
			continue
		}
		if b.Index > 2 && start == 0 {
			x.fail("multi-block initialiser")
		}
		// run instructions start..end with a temporary frame
		o := x.globals[g]
		s := &State{heap: map[*Obj]Val{}, bnd: map[*Term]ival{}, ghost: map[string]Val{}}
		for k, v := range x.heapInit {
			s.heap[k] = v
		}
		s.heap[o] = x.zero(s, t)
		fr := &Frame{fn: initFn, regs: map[ssa.Value]Val{}, block: b, idx: start, iters: map[*ssa.BasicBlock]int{}, cut: map[*ssa.BasicBlock]int{}}
		s.frames = []*Frame{fr}
		n0 := len(x.obligs)
		for fr.idx < end || len(s.frames) > 1 {
			f := s.top()
			if f.enter != nil {
				to := f.enter
				f.enter = nil
				if r, handled := x.loopEntry(s, to, nil); handled {
					if len(r) != 1 || r[0] != s {
						x.fail("initialiser forks")
					}
					continue
				}
				x.doPhis(s, f.block, to)
				f.prev, f.block, f.idx = f.block, to, firstNonPhi(to)
				continue
			}
			in := f.block.Instrs[f.idx]
			f.idx++
			r := x.step(s, in, 0)
			if len(r) > 1 || (len(r) == 1 && r[0] != s) {
				x.fail("initialiser forks")
			}
			if s.stop != "" {
				x.fail("initialiser stops")
			}
		}
		x.obligs = x.obligs[:n0]
		for k, v := range s.heap {
			if _, ok := x.heapInit[k]; !ok || k == o {
				x.heapInit[k] = v
				if _, ok := st.heap[k]; !ok {
					st.heap[k] = v
				}
			}
		}
		return s.heap[o]
	}
	return x.zero(st, t)
}

func (x *Exec) globalUnknown(st *State, g *ssa.Global, t types.Type) Val {
	if _, ok := under(t).(*types.Interface); ok {
		// package-level error and similar: a fixed non-nil identity
		if isErrorType(t) && !x.prog.mutatedOutside(g, nil) {
			return &IfaceV{id: x.c.App("global:"+g.RelString(nil), bi(1), nil, x.c.zero), isnil: x.c.fls, ityp: t}
		}
	}
	return x.symD(st, t, g.Name(), 1)
}

func isErrorType(t types.Type) bool { return t.String() == "error" }

// ---- running

type ObResult struct {
	Name   string   `json:"name"`
	Pos    string   `json:"pos,omitempty"`
	Status string   `json:"status"`
	Solver string   `json:"solver,omitempty"`
	Secs   float64  `json:"secs,omitempty"`
	Reason string   `json:"reason,omitempty"`
	Trace  []string `json:"trace,omitempty"`
	Model  string   `json:"model,omitempty"`
}

type Result struct {
	Harness string          `json:"harness"`
	Target  string          `json:"target,omitempty"`
	Kind    string          `json:"kind"`
	Proved  int             `json:"proved"`
	Failed  []ObResult      `json:"failed,omitempty"`
	Obligs  int             `json:"obligations"`
	Solvers map[string]int  `json:"solvers"`
	Secs    float64         `json:"secs"`
	SolverS float64         `json:"solver_secs"`
	Paths   int             `json:"paths"`
	Unsup   string          `json:"unsupported,omitempty"`
	Vacuous bool            `json:"vacuous,omitempty"`
	Trusted []string        `json:"trusted,omitempty"`
	Inlined []string        `json:"inlined,omitempty"`
	Used    []string        `json:"contracts_used,omitempty"`
	UsedFn  []*ssa.Function `json:"-"`
	Known   []string        `json:"known,omitempty"`
	Notes   []string        `json:"notes,omitempty"`
	Ints    map[string]bool `json:"-"`
	Strs    map[string]bool `json:"-"`
}

var dbgFlag = os.Getenv("GOVC_DEBUG") != ""

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type aliasVar []int // param index -> representative

// aliasVariants enumerates pointer parameter aliasings of equal type.
func aliasVariants(fn *ssa.Function, on bool) [][]int {
	n := len(fn.Params)
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	out := [][]int{append([]int(nil), id...)}
	if !on {
		return out
	}
	var rec func(i int, cur []int)
	out = nil
	rec = func(i int, cur []int) {
		if i == n {
			out = append(out, append([]int(nil), cur...))
			return
		}
		cur[i] = i
		rec(i+1, cur)
		if _, ok := under(fn.Params[i].Type()).(*types.Pointer); !ok {
			return
		}
		for j := 0; j < i; j++ {
			if cur[j] == j && types.Identical(fn.Params[i].Type(), fn.Params[j].Type()) {
				cur[i] = j
				rec(i+1, cur)
			}
		}
	}
	rec(0, make([]int, n))
	return out
}

// variants are the aliasings of the pointer parameters a contract covers:
// none, all (//vc:alias) or those listed (//vc:aliases x3=x1,y3=y1 ...).
func (h *Harness) variants() [][]int {
	out := aliasVariants(h.fn, h.opts["alias"] != "")
	for _, l := range strings.Fields(h.opts["aliases"]) {
		v := append([]int(nil), aliasVariants(h.fn, false)[0]...)
		for _, e := range strings.Split(l, ",") {
			ab := strings.SplitN(e, "=", 2)
			a, b := -1, -1
			for i, p := range h.fn.Params {
				if p.Name() == ab[0] {
					a = i
				}
				if len(ab) == 2 && p.Name() == ab[1] {
					b = i
				}
			}
			if a < 0 || b < 0 || b >= a {
				panic("bad aliases directive in " + h.name)
			}
			v[a] = v[b]
		}
		out = append(out, v)
	}
	return out
}

func (p *Program) newExec(h *Harness) *Exec {
	c := newCtx()
	x := &Exec{c: c, prog: p, harness: h.name, target: h.target, opts: h.opts,
		unsup: map[string]bool{}, globals: map[*ssa.Global]*Obj{}, trusted: map[string]bool{}, inlined: map[string]bool{}, usedC: map[string]bool{}, usedFn: map[*ssa.Function]bool{},
		bigShare: map[*Term]*Obj{}, loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, reach: map[string]bool{}, heapInit: map[*Obj]Val{}, globalDeps: map[*Obj][]*Obj{}, lookups: map[string]bool{}, knownIDs: map[string]bool{},
		budget: 4000000, maxUnroll: 300, houdiniTO: 3 * time.Second * patience, debug: dbgFlag}
	x.fieldAbs = h.opts["fieldabs"] != ""
	c.fieldAbs = x.fieldAbs
	if v := h.opts["budget"]; v != "" {
		fmt.Sscan(v, &x.budget)
	}
	if v := h.opts["maxunroll"]; v != "" {
		fmt.Sscan(v, &x.maxUnroll)
	}
	x.inc = newInc(c)
	x.t0, x.maxTime = time.Now(), 200*time.Second*patience
	if v := h.opts["exectime"]; v != "" {
		var n int
		fmt.Sscan(v, &n)
		x.maxTime = time.Duration(n) * time.Second
	}
	for _, o := range p.harnesses {
		if o.kind == "VI" && o.pkg == h.pkg {
			// invariants may be restricted to harnesses
			if r := o.opts["in"]; r != "" && h.opts["in"] == "" {
				found := false
				for _, n := range strings.Fields(r) {
					if n == h.name {
						found = true
					}
				}
				if !found {
					continue
				}
			}
			x.invs = append(x.invs, &invFn{fn: o.fn})
		}
	}
	return x
}

// patience multiplies the time limits when failed proofs are tried again
var patience time.Duration = 1

// deadline bounds the proof phase; past it everything is reported as not verified
var deadline time.Time

func pastDeadline() bool { return !deadline.IsZero() && time.Now().After(deadline) }

// runHarness proves a harness. Loop hints are first bound to the variables of
// their parameters' names; when that does not suffice (a variable may have
// been renamed), to all variables of their types.
func (p *Program) runHarness(h *Harness, timeout time.Duration) *Result {
	res, hinted := p.runHarnessWith(h, timeout, false)
	if !hinted || res.Unsup == "" && len(res.Failed) == 0 && !res.Vacuous || pastDeadline() {
		return res
	}
	all, _ := p.runHarnessWith(h, timeout, true)
	if all.Unsup != "" && res.Unsup == "" {
		return res
	}
	return all
}

func (p *Program) runHarnessWith(h *Harness, timeout time.Duration, allHints bool) (res *Result, hinted bool) {
	t0 := time.Now()
	res = &Result{Harness: h.name, Kind: h.kind, Solvers: map[string]int{}}
	if h.target != nil {
		res.Target = h.target.RelString(nil)
	}
	if m := h.opts["missing"]; m != "" {
		res.Unsup = "function under contract not found: " + m
		return
	}
	var obligs []*Oblig
	var execs []*Exec
	reqSeen, reqOK := 0, 0
	trusted, inlined, used, known := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	usedFn := map[*ssa.Function]bool{}
	paths := 0
	for vi, variant := range h.variants() {
		x := p.newExec(h)
		x.allHints = allHints
		hinted = hinted || len(x.invs) > 0
		execs = append(execs, x)
		err := func() (err string) {
			defer func() {
				if e := recover(); e != nil {
					if u, ok := e.(unsupported); ok {
						err = u.msg
						return
					}
					err = fmt.Sprintf("engine error: %v", e)
					if dbgFlag {
						err += "\n" + string(debug.Stack())
					}
				}
			}()
			st := &State{heap: map[*Obj]Val{}, bnd: map[*Term]ival{}, ghost: map[string]Val{}}
			var args []Val
			for i, prm := range h.fn.Params {
				if variant[i] != i {
					args = append(args, args[variant[i]])
				} else {
					args = append(args, x.symD(st, prm.Type(), prm.Name(), 0))
				}
				st.ghost[prm.Name()] = args[i]
				x.inputs = append(x.inputs, inputDesc{prm.Name(), prm.Type(), args[i], nil})
			}
			fr := x.pushFrame(st, h.fn, args, nil, nil)
			if h.target != nil {
				fr.use = &useCtx{fn: h.target, check: true, returns: map[int]Val{}, name: h.name}
			}
			outs := x.explore(st, 0, nil)
			paths += len(outs)
			return ""
		}()
		x.inc.close()
		for _, o := range x.obligs {
			if vi > 0 {
				o.Name = fmt.Sprintf("%s [alias %v]", o.Name, variant)
			}
		}
		obligs = append(obligs, x.obligs...)
		reqSeen += x.reqSeen
		reqOK += x.reqOK
		for k := range x.trusted {
			trusted[k] = true
		}
		for k := range x.inlined {
			inlined[k] = true
		}
		for k := range x.usedC {
			used[k] = true
		}
		for k := range x.usedFn {
			if !usedFn[k] {
				usedFn[k] = true
				res.UsedFn = append(res.UsedFn, k)
			}
		}
		for k := range x.knownIDs {
			known[k] = true
		}
		res.Notes = append(res.Notes, x.infoNotes...)
		if err != "" {
			res.Unsup = err
			break
		}
		// discharge this variant
		discharge(x.c, x.obligs, timeout)
	}
	res.Paths = paths
	if h.target != nil && res.Unsup == "" && reqOK == 0 {
		res.Vacuous = true
	}
	if paths == 0 && res.Unsup == "" {
		res.Unsup = "no path reaches the end"
	}
	_ = reqSeen
	res.Obligs = len(obligs)
	for _, o := range obligs {
		res.SolverS += o.secs
		if o.status == "proved" {
			res.Proved++
			res.Solvers[o.solver]++
		} else {
			if o.status == "" {
				o.status = "unchecked"
			}
			res.Failed = append(res.Failed, ObResult{Name: o.Name, Pos: o.Pos, Status: o.status, Solver: o.solver, Secs: o.secs, Reason: o.reason, Trace: o.trace})
		}
	}
	res.Trusted, res.Inlined, res.Used, res.Known = sortedKeys(trusted), sortedKeys(inlined), sortedKeys(used), sortedKeys(known)
	res.Secs = time.Since(t0).Seconds()
	return
}

var dischargeSem = make(chan struct{}, 10)

func discharge(c *Ctx, obs []*Oblig, timeout time.Duration) {
	type job struct {
		o *Oblig
		q string
	}
	// identical goals under identical hypotheses
	var wg sync.WaitGroup
	nfail := 0
	var mu sync.Mutex
	for _, o := range obs {
		if o.status != "" {
			continue
		}
		if c.fieldAbs {
			o.hyps, o.goal = c.fieldPrep(o.hyps, o.goal)
		}
		o.goal = c.congGoal(o.goal)
		if o.goal.op == OTrue {
			o.status, o.solver = "proved", "simplifier"
			continue
		}
		mu.Lock()
		stopNow := nfail > 12
		mu.Unlock()
		if pastDeadline() {
			o.status = "not attempted (time budget)"
			continue
		}
		if stopNow {
			o.status = "not attempted (too many failures)"
			continue
		}
		// term construction is single-threaded per Ctx: build here
		var queries []string
		for _, r := range []int{3, 6} {
			e, err := buildQuery(c, o.hyps, o.goal, r)
			if err != nil {
				o.reason = err.Error()
				continue
			}
			queries = append(queries, e.out.String())
		}
		if len(queries) == 2 && len(queries[0]) == len(queries[1]) {
			queries = queries[:1]
		}
		o := o
		wg.Add(1)
		dischargeSem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-dischargeSem }()
			for i, q := range queries {
				to := timeout
				if i == 0 && len(queries) > 1 {
					to = timeout / 3
				}
				r := solve(q, to)
				o.secs += r.secs
				o.solver = r.solver
				if r.status == "unsat" {
					o.status = "proved"
					break
				}
				o.status = "failed (" + r.status + ")"
			}
			if o.status != "proved" {
				mu.Lock()
				nfail++
				mu.Unlock()
				if d := os.Getenv("GOVC_DUMP"); d != "" && len(queries) > 0 {
					os.WriteFile(fmt.Sprintf("/tmp/ob_%d.smt2", nfail), []byte("; "+o.Name+"\n(set-logic ALL)\n"+queries[len(queries)-1]+"(check-sat)\n"), 0644)
				}
			}
		}()
	}
	wg.Wait()
}
