package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- values

type Val interface{}

type Obj struct {
	id   int
	name string
	typ  types.Type
	gen  int  // creation stamp
	imm  bool // never written
}

type Path struct {
	f   int
	idx *Term
}

type PtrV struct {
	obj   *Obj
	path  []Path
	isnil *Term // nil: definitely not nil (if obj != nil)
}

type SliceV struct {
	obj           *Obj
	path          []Path
	off, len, cap *Term
	isnil         *Term
}

type StrV struct {
	arr, off, len *Term
}

type StructV struct{ f []Val }

type ArrV struct {
	elem  types.Type
	n     *Term
	arr   *Term   // scalar mode
	elems []Val   // explicit mode
	sub   []*ArrV // struct-of-arrays mode
	dark  bool    // arbitrary contents that cannot be looked at
	keys  *Obj    // slice-of-bytes mode: shared backing object; sub = [off,len,cap]
	flt   bool
}

type IfaceV struct {
	typ   types.Type
	val   Val
	id    *Term
	isnil *Term
	ityp  types.Type // static interface type of opaque value
}

type FuncV struct {
	fn    *ssa.Function
	binds []Val
	name  string // opaque
}

type MapV struct {
	obj *Obj
}

// MapC is the content of a map object: list of updates over a base.
type MapC struct {
	entries []mapEnt
	base    string // "" = empty; otherwise unsupported unknown
}
type mapEnt struct {
	k, v Val
	del  bool
}

type BigV struct{ t *Term }

type TupleV []Val

type OpaqueV struct {
	typ types.Type
	id  *Term
}

type RangeIter struct {
	m   Val
	pos int
}

type ival struct{ lo, hi *big.Int }

type deferred struct {
	call ssa.CallInstruction
	fn   Val
	args []Val
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	ret    ssa.Value // register in caller
	defers []deferred
	cut    map[*ssa.BasicBlock]int // active loop cuts (header -> marker)
	iters  map[*ssa.BasicBlock]int
	onRet  func(st *State, rv Val) Val
	enter  *ssa.BasicBlock
	use    *useCtx
	exits  bool // called by vc.Exits
	args   []Val
}

type State struct {
	heap   map[*Obj]Val
	pc     []*Term
	bnd    map[*Term]ival
	frames []*Frame
	ghost  map[string]Val
	gone   map[*Obj]bool // consumed by a contract (//vc:consumes)
	ret    Val
	stop   string // "", "ret", "panic", "back", "exit", "dead"
	steps  int
	trace  []string
	fdefs  map[*Term]*FPoly
}

func (st *State) fork() *State {
	n := &State{heap: make(map[*Obj]Val, len(st.heap)), bnd: make(map[*Term]ival, len(st.bnd)+4), ghost: make(map[string]Val, len(st.ghost)), stop: st.stop, ret: st.ret, steps: st.steps, fdefs: st.fdefs, gone: st.gone}
	n.trace = append([]string(nil), st.trace...)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.bnd {
		n.bnd[k] = v
	}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.pc = append(make([]*Term, 0, len(st.pc)+4), st.pc...)
	for _, f := range st.frames {
		n.frames = append(n.frames, f.clone())
	}
	return n
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	if f.use != nil {
		u := *f.use
		n.use = &u
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.cut = map[*ssa.BasicBlock]int{}
	for k, v := range f.cut {
		n.cut[k] = v
	}
	n.iters = map[*ssa.BasicBlock]int{}
	for k, v := range f.iters {
		n.iters[k] = v
	}
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// ---- executor

type Oblig struct {
	Name   string
	Pos    string
	hyps   []*Term
	goal   *Term
	status string // proved / failed / unknown
	solver string
	secs   float64
	reason string
	trace  []string
	st     *State
}

type Exec struct {
	c          *Ctx
	prog       *Program
	inc        *incSolver
	obligs     []*Oblig
	nobj       int
	gen        int
	harness    string
	target     *ssa.Function // function under contract (not replaced by its contract)
	inputs     []inputDesc
	pure       int // >0: evaluating spec code: no obligations
	dry        int // >0: discard obligations
	writes     []map[wkey]bool
	unsup      map[string]bool
	globals    map[*ssa.Global]*Obj
	nsteps     int
	npaths     int
	trusted    map[string]bool
	inlined    map[string]bool
	usedC      map[string]bool
	usedFn     map[*ssa.Function]bool
	t0         time.Time
	maxTime    time.Duration
	bigShare   map[*Term]*Obj
	debug      bool
	invs       []*invFn
	budget     int
	allHints   bool
	maxUnroll  int
	errIDs     int64
	loopInfo   map[*ssa.Function]map[*ssa.BasicBlock]*loop
	houdiniQ   int
	fieldAbs   bool
	reach      map[string]bool
	opts       map[string]string
	heapInit   map[*Obj]Val
	globalDeps map[*Obj][]*Obj
	infoNotes  []string
	lookups    map[string]bool
	knownIDs   map[string]bool
	reqSeen    int
	qdepth     int
	houdiniTO  time.Duration
	reqOK      int
}

type wkey struct {
	obj *Obj
	key string
}

// useCtx: the frame runs a contract in place of its function (use=true) or
// checks it (use=false).
type useCtx struct {
	fn       *ssa.Function
	check    bool
	called   bool
	modifies []Val
	anyMod   bool
	returns  map[int]Val
	res      Val
	old      map[*Obj]Val
	name     string
}

type inputDesc struct {
	name string
	typ  types.Type
	val  Val
	heap map[*Obj]Val
}

type unsupported struct{ msg string }

func (x *Exec) fail(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func (x *Exec) newObj(name string, t types.Type) *Obj {
	x.nobj++
	x.gen++
	return &Obj{id: x.nobj, name: name, typ: t, gen: x.gen}
}

func (x *Exec) alloc(st *State, name string, t types.Type, v Val) *Obj {
	o := x.newObj(name, t)
	st.heap[o] = v
	return o
}

// ---- bounds

func (x *Exec) bf(st *State) BF {
	return func(t *Term) (*big.Int, *big.Int) { return x.bounds(st, t) }
}

func tighter(lo, hi *big.Int, iv ival) (*big.Int, *big.Int) {
	if iv.lo != nil && (lo == nil || iv.lo.Cmp(lo) > 0) {
		lo = iv.lo
	}
	if iv.hi != nil && (hi == nil || iv.hi.Cmp(hi) < 0) {
		hi = iv.hi
	}
	return lo, hi
}

func (x *Exec) bounds(st *State, t *Term) (*big.Int, *big.Int) {
	return x.bounds0(st, t, 0)
}

func (x *Exec) bounds0(st *State, t *Term, depth int) (*big.Int, *big.Int) {
	lo, hi := t.lo, t.hi
	if iv, ok := st.bnd[t]; ok {
		lo, hi = tighter(lo, hi, iv)
	}
	if depth > 6 {
		return lo, hi
	}
	switch t.op {
	case OPoly:
		if len(t.mono) <= 120 {
			l, h := polyBounds(t.mono, func(y *Term) (*big.Int, *big.Int) { return x.bounds0(st, y, depth+1) })
			lo, hi = tighter(lo, hi, ival{l, h})
			q, k := x.c.splitConst(t)
			neg := false
			if x.c.monos(q)[0].c.Sign() < 0 {
				q = x.c.Neg(q)
				neg = true
			}
			if iv, ok := st.bnd[q]; ok {
				if neg {
					iv = ival{negb(iv.hi), negb(iv.lo)}
				}
				lo, hi = tighter(lo, hi, ival{addb(iv.lo, k), addb(iv.hi, k)})
			}
		}
	case ODiv:
		if t.a[1].op == OConst {
			l, h := x.bounds0(st, t.a[0], depth+1)
			var iv ival
			if l != nil {
				iv.lo = floorDiv(l, t.a[1].v)
			}
			if h != nil {
				iv.hi = floorDiv(h, t.a[1].v)
			}
			lo, hi = tighter(lo, hi, iv)
		}
	case OMod:
		if t.a[1].op == OConst {
			l, h := x.bounds0(st, t.a[0], depth+1)
			if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(t.a[1].v) < 0 {
				lo, hi = tighter(lo, hi, ival{l, h})
			}
		}
	case OIte:
		al, ah := x.bounds0(st, t.a[1], depth+1)
		bl, bh := x.bounds0(st, t.a[2], depth+1)
		l, h := union(al, ah, bl, bh)
		lo, hi = tighter(lo, hi, ival{l, h})
	case OApp:
		if t.name == "pow2" {
			l, h := x.bounds0(st, t.a[0], depth+1)
			var iv ival
			if l != nil && l.Sign() >= 0 && l.BitLen() < 14 {
				iv.lo = pow2(uint(l.Int64()))
			}
			if h != nil && h.Sign() >= 0 && h.BitLen() < 14 {
				iv.hi = pow2(uint(h.Int64()))
			}
			lo, hi = tighter(lo, hi, iv)
		}
	}
	return lo, hi
}

func negb(a *big.Int) *big.Int {
	if a == nil {
		return nil
	}
	return new(big.Int).Neg(a)
}
func addb(a, b *big.Int) *big.Int {
	if a == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

// conc returns constant if bounds pin t.
func (x *Exec) conc(st *State, t *Term) *Term {
	if t.op == OConst {
		return t
	}
	l, h := x.bounds(st, t)
	if l != nil && h != nil && l.Cmp(h) == 0 {
		return x.c.Big(l)
	}
	return t
}

func (x *Exec) setBnd(st *State, q *Term, lo, hi *big.Int) {
	iv := st.bnd[q]
	l, h := tighter(iv.lo, iv.hi, ival{lo, hi})
	st.bnd[q] = ival{l, h}
}

func (x *Exec) assume(st *State, t *Term) {
	switch t.op {
	case OTrue:
		return
	case OFalse:
		st.stop = "dead"
		st.pc = append(st.pc, t)
		return
	case OAnd:
		for _, y := range t.a {
			x.assume(st, y)
		}
		return
	case OLe:
		q, k := x.c.splitConst(t.a[0])
		nk := new(big.Int).Neg(k) // q <= -k
		if ms := x.c.monos(q); ms[0].c.Sign() < 0 {
			x.setBnd(st, x.c.Neg(q), k, nil) // -q >= k
		} else {
			x.setBnd(st, q, nil, nk)
		}
		x.atomBounds(st, t.a[0], false)
	case OEq:
		q, k := x.c.splitConst(t.a[0])
		nk := new(big.Int).Neg(k)
		x.setBnd(st, q, nk, nk)
		x.atomBounds(st, t.a[0], true)
	case ONot:
		if t.a[0].op == OEq {
			q, k := x.c.splitConst(t.a[0].a[0])
			nk := new(big.Int).Neg(k)
			l, h := x.bounds(st, q)
			if l != nil && l.Cmp(nk) == 0 {
				x.setBnd(st, q, new(big.Int).Add(nk, bi(1)), nil)
			}
			if h != nil && h.Cmp(nk) == 0 {
				x.setBnd(st, q, nil, new(big.Int).Sub(nk, bi(1)))
			}
		}
	}
	st.pc = append(st.pc, t)
}

// atomBounds: derive bounds of the single atoms of linear p from p<=0 (or =0)
func (x *Exec) atomBounds(st *State, p *Term, eq bool) {
	ms := x.c.monos(p)
	if len(ms) > 4 {
		return
	}
	for i, m := range ms {
		if len(m.f) != 1 {
			continue
		}
		var rest []Mono
		for j, o := range ms {
			if j != i {
				rest = append(rest, o)
			}
		}
		rl, rh := polyBounds(rest, x.bf(st))
		// c*f <= -rest  => c*f <= -rl
		if rl != nil {
			b := new(big.Int).Neg(rl)
			if m.c.Sign() > 0 {
				x.setBnd(st, m.f[0], nil, floorDiv(b, m.c))
			} else {
				// f >= ceil(b/c)
				x.setBnd(st, m.f[0], negb(floorDiv(b, negb(m.c))), nil)
			}
		}
		if eq && rh != nil {
			b := new(big.Int).Neg(rh) // c*f >= b
			if m.c.Sign() > 0 {
				x.setBnd(st, m.f[0], negb(floorDiv(negb(b), m.c)), nil)
			} else {
				x.setBnd(st, m.f[0], nil, floorDiv(negb(b), negb(m.c)))
			}
		}
	}
}

// decide: 1 true, -1 false, 0 unknown, cheap.
func (x *Exec) decide(st *State, t *Term) int {
	switch t.op {
	case OTrue:
		return 1
	case OFalse:
		return -1
	case OLe:
		l, h := x.bounds(st, t.a[0])
		if h != nil && h.Sign() <= 0 {
			return 1
		}
		if l != nil && l.Sign() > 0 {
			return -1
		}
	case OEq:
		l, h := x.bounds(st, t.a[0])
		if (h != nil && h.Sign() < 0) || (l != nil && l.Sign() > 0) {
			return -1
		}
		if l != nil && h != nil && l.Sign() == 0 && h.Sign() == 0 {
			return 1
		}
	case ONot:
		return -x.decide(st, t.a[0])
	case OAnd:
		all := true
		for _, y := range t.a {
			d := x.decide(st, y)
			if d == -1 {
				return -1
			}
			if d == 0 {
				all = false
			}
		}
		if all {
			return 1
		}
	case OOr:
		none := true
		for _, y := range t.a {
			d := x.decide(st, y)
			if d == 1 {
				return 1
			}
			if d == 0 {
				none = false
			}
		}
		if none {
			return -1
		}
	}
	if len(st.pc) < 400 {
		n := x.c.Not(t)
		for _, p := range st.pc {
			if p == t {
				return 1
			}
			if p == n {
				return -1
			}
		}
	}
	return 0
}

// decideS uses the solver.
func (x *Exec) decideS(st *State, t *Term) int {
	if t.bound {
		return 0
	}
	if d := x.decide(st, t); d != 0 {
		return d
	}
	if t.size > 200000 {
		return 0
	}
	if !x.inc.feasible(st.pc, t) {
		return -1
	}
	if !x.inc.feasible(st.pc, x.c.Not(t)) {
		return 1
	}
	return 0
}

// mustTrue: solver entailment (quick).
func (x *Exec) mustTrue(st *State, t *Term) bool {
	if x.decide(st, t) == 1 {
		return true
	}
	if x.decide(st, t) == -1 {
		return false
	}
	return !x.inc.feasible(st.pc, x.c.Not(t))
}

// ---- obligations

func (x *Exec) oblige(st *State, name string, pos token.Pos, goal *Term) {
	if x.pure > 0 {
		return
	}
	if goal.bound {
		x.fail("obligation with bound var")
	}
	o := &Oblig{Name: name, hyps: append([]*Term(nil), st.pc...), goal: goal}
	if pos.IsValid() {
		p := x.prog.fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, "/repo/"), p.Line)
	}
	o.trace = append([]string(nil), st.trace...)
	if x.decide(st, goal) == 1 {
		o.status = "proved"
		o.solver = "simplifier"
		o.hyps = nil
	}
	x.obligs = append(x.obligs, o)
	if o.status == "" {
		x.assume(st, goal)
	}
}

func (x *Exec) obligeFail(st *State, name string, pos token.Pos, reason string) {
	if x.pure > 0 {
		return
	}
	o := &Oblig{Name: name, hyps: append([]*Term(nil), st.pc...), goal: x.c.fls, reason: reason}
	if pos.IsValid() {
		p := x.prog.fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, "/repo/"), p.Line)
	}
	o.trace = append([]string(nil), st.trace...)
	x.obligs = append(x.obligs, o)
	st.stop = "dead"
}

func (x *Exec) fnName(st *State) string {
	if len(st.frames) == 0 {
		return x.harness
	}
	return st.top().fn.RelString(nil)
}

// ---- zero and symbolic values

func under(t types.Type) types.Type { return t.Underlying() }

func isBigInt(t types.Type) bool {
	s := t.String()
	if s == "math/big.Int" || s == "github.com/philhofer/seth.Int" {
		return true
	}
	if n, ok := t.(*types.Named); ok {
		// defined type over big.Int shares its struct underlying type
		if st, ok := n.Underlying().(*types.Struct); ok && st.NumFields() == 2 && st.Field(0).Name() == "neg" && st.Field(1).Name() == "abs" {
			return true
		}
	}
	if st, ok := t.(*types.Struct); ok && st.NumFields() == 2 && st.Field(0).Name() == "neg" && st.Field(1).Name() == "abs" {
		return true
	}
	return false
}

func intRange(b *types.Basic) (w uint, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeBounds(w uint, signed bool) (lo, hi *big.Int) {
	if signed {
		hi = new(big.Int).Sub(pow2(w-1), bi(1))
		lo = new(big.Int).Neg(pow2(w - 1))
		return
	}
	return bi(0), new(big.Int).Sub(pow2(w), bi(1))
}

func scalarBasic(t types.Type) (*types.Basic, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return nil, false
	}
	return b, true
}

// scalarElem: can be stored as SMT array of ints
func scalarElem(t types.Type) bool {
	if isBigInt(t) {
		return true
	}
	b, ok := scalarBasic(t)
	if !ok {
		return false
	}
	if b.Info()&types.IsBoolean != 0 {
		return true
	}
	_, _, ok = intRange(b)
	return ok
}

func elemBounds(t types.Type) (lo, hi *big.Int) {
	if isBigInt(t) {
		return nil, nil
	}
	b, _ := scalarBasic(t)
	if b.Info()&types.IsBoolean != 0 {
		return bi(0), bi(1)
	}
	w, s, _ := intRange(b)
	return typeBounds(w, s)
}

func (x *Exec) zero(st *State, t types.Type) Val {
	c := x.c
	if isBigInt(t) {
		return &BigV{c.zero}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.fls
		case u.Info()&types.IsString != 0:
			return &StrV{c.ALit(nil), c.zero, c.zero}
		case u.Info()&types.IsInteger != 0:
			return c.zero
		case u.Kind() == types.UnsafePointer:
			return &PtrV{}
		default:
			return &OpaqueV{t, c.zero}
		}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.zero(st, u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return x.zeroArr(st, u.Elem(), c.Int(u.Len()))
	case *types.Slice:
		return &SliceV{off: c.zero, len: c.zero, cap: c.zero}
	case *types.Pointer:
		return &PtrV{}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Map:
		return &MapV{}
	case *types.Chan:
		return &OpaqueV{t, c.zero}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(st, u.At(i).Type()))
		}
		return tv
	}
	x.fail("zero value of %s", t)
	return nil
}

func (x *Exec) zeroArr(st *State, elem types.Type, n *Term) *ArrV {
	c := x.c
	if scalarElem(elem) {
		if n.op == OConst && n.v.Cmp(bi(16)) <= 0 && n.v.Sign() >= 0 {
			xs := make([]*Term, n.v.Int64())
			for i := range xs {
				xs[i] = c.zero
			}
			return &ArrV{elem: elem, n: n, arr: c.ALit(xs)}
		}
		return &ArrV{elem: elem, n: n, arr: c.AConst(c.zero)}
	}
	if n.op == OConst && n.v.Sign() >= 0 && n.v.Cmp(bi(5000)) <= 0 {
		a := &ArrV{elem: elem, n: n, elems: []Val{}}
		for i := int64(0); i < n.v.Int64(); i++ {
			a.elems = append(a.elems, x.zero(st, elem))
		}
		return a
	}
	if s, ok := under(elem).(*types.Struct); ok && !isBigInt(elem) {
		a := &ArrV{elem: elem, n: n}
		for i := 0; i < s.NumFields(); i++ {
			a.sub = append(a.sub, x.zeroArr(st, s.Field(i).Type(), n))
		}
		return a
	}
	if _, ok := under(elem).(*types.Pointer); ok {
		return &ArrV{elem: elem, n: n, elems: nil, arr: c.AConst(c.zero), flt: true}
	}
	if t, ok := under(elem).(*types.Array); ok && scalarElem(t.Elem()) {
		return &ArrV{elem: elem, n: n, arr: c.AConst(c.zero)}
	}
	x.fail("symbolic-length array of %s", elem)
	return nil
}

// sym creates an arbitrary value of type t.
func (x *Exec) sym(st *State, t types.Type, name string) Val { return x.symD(st, t, name, 0) }

func (x *Exec) symD(st *State, t types.Type, name string, d int) Val {
	c := x.c
	if isBigInt(t) {
		return &BigV{c.Var(name, nil, nil)}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.BVar(name)
		case u.Info()&types.IsString != 0:
			l := c.Var("len."+name, bi(0), maxLen)
			return &StrV{c.AVar(name, bi(0), bi(255)), c.zero, l}
		case u.Info()&types.IsInteger != 0:
			w, s, _ := intRange(u)
			lo, hi := typeBounds(w, s)
			return c.Var(name, lo, hi)
		default:
			return &OpaqueV{t, c.Var(name, nil, nil)}
		}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.symD(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), d))
		}
		return s
	case *types.Array:
		return x.symArr(st, u.Elem(), c.Int(u.Len()), name, d)
	case *types.Slice:
		l := c.Var("len."+name, bi(0), maxLen)
		cp := c.Var("cap."+name, bi(0), maxLen)
		x.assume(st, c.Le(l, cp))
		o := x.alloc(st, name, nil, nil)
		st.heap[o] = x.symArr(st, u.Elem(), cp, name, d)
		nb := c.BVar("nil." + name)
		x.assume(st, c.Implies(nb, c.And(c.Eq(l, c.zero), c.Eq(cp, c.zero))))
		return &SliceV{obj: o, off: c.zero, len: l, cap: cp, isnil: nb}
	case *types.Pointer:
		if d > 3 {
			return &OpaqueV{t, c.Var(name, nil, nil)}
		}
		if !x.symOK(u.Elem()) {
			return &OpaqueV{t, c.Var(name, nil, nil)}
		}
		o := x.alloc(st, name, u.Elem(), nil)
		st.heap[o] = x.symD(st, u.Elem(), name, d+1)
		p := &PtrV{obj: o}
		if d > 0 {
			p.isnil = c.BVar("nil." + name)
		}
		return p
	case *types.Interface:
		return &IfaceV{id: c.Var(name, nil, nil), isnil: c.BVar("nil." + name), ityp: t}
	case *types.Signature:
		return &FuncV{name: c.FreshName(name)}
	case *types.Map:
		o := x.alloc(st, name, t, &MapC{base: c.FreshName("map:" + name)})
		return &MapV{o}
	case *types.Chan:
		return &OpaqueV{t, c.Var(name, nil, nil)}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.symD(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), d))
		}
		return tv
	}
	x.fail("symbolic value of %s", t)
	return nil
}

func (x *Exec) symOK(t types.Type) bool {
	return true
}

var maxLen = new(big.Int).Sub(pow2(47), bi(1))

func (x *Exec) symArr(st *State, elem types.Type, n *Term, name string, d int) *ArrV {
	c := x.c
	if scalarElem(elem) {
		lo, hi := elemBounds(elem)
		av := c.AVar(name, lo, hi)
		if n.op == OConst && n.v.Cmp(bi(16)) <= 0 {
			xs := make([]*Term, n.v.Int64())
			for i := range xs {
				xs[i] = c.Select(av, c.Int(int64(i)), nil)
			}
			return &ArrV{elem: elem, n: n, arr: c.ALit(xs)}
		}
		return &ArrV{elem: elem, n: n, arr: av}
	}
	if n.op == OConst {
		a := &ArrV{elem: elem, n: n, elems: []Val{}}
		for i := int64(0); i < n.v.Int64(); i++ {
			a.elems = append(a.elems, x.symD(st, elem, fmt.Sprintf("%s[%d]", name, i), d+1))
		}
		return a
	}
	if s, ok := under(elem).(*types.Struct); ok && !isBigInt(elem) {
		a := &ArrV{elem: elem, n: n}
		for i := 0; i < s.NumFields(); i++ {
			a.sub = append(a.sub, x.symArr(st, s.Field(i).Type(), n, name+"."+s.Field(i).Name(), d))
		}
		return a
	}
	if sl, ok := under(elem).(*types.Slice); ok && scalarElem(sl.Elem()) {
		lo, hi := elemBounds(sl.Elem())
		k := x.alloc(st, name+"[]", nil, &ArrV{elem: sl.Elem(), n: c.Var("n."+name, nil, nil), arr: c.AVar(name+"[]", lo, hi)})
		k.imm = true
		intT := types.Typ[types.Int]
		mk := func(s string) *ArrV {
			return &ArrV{elem: intT, n: n, arr: c.AVar(name+"."+s, bi(0), maxLen)}
		}
		return &ArrV{elem: elem, n: n, keys: k, sub: []*ArrV{mk("off"), mk("len"), mk("cap")}}
	}
	if b, ok := scalarBasic(elem); ok && b.Info()&types.IsString != 0 {
		k := x.alloc(st, name+"[]", nil, &ArrV{elem: types.Typ[types.Byte], n: c.Var("n."+name, nil, nil), arr: c.AVar(name+"[]", bi(0), bi(255))})
		k.imm = true
		intT := types.Typ[types.Int]
		mk := func(s string) *ArrV {
			return &ArrV{elem: intT, n: n, arr: c.AVar(name+"."+s, bi(0), maxLen)}
		}
		return &ArrV{elem: elem, n: n, keys: k, sub: []*ArrV{mk("off"), mk("len"), mk("cap")}}
	}
	if _, ok := under(elem).(*types.Interface); ok {
		return &ArrV{elem: elem, n: n, arr: c.AVar(name, nil, nil), flt: true}
	}
	if pt, ok := under(elem).(*types.Pointer); ok {
		if a, ok := under(pt.Elem()).(*types.Array); ok && scalarElem(a.Elem()) {
			// pointers into a shared object that is never written; 0 is nil
			k := x.alloc(st, name+"[]", nil, x.symArr(st, pt.Elem(), c.Var("n."+name, nil, nil), name+"[]", d))
			k.imm = true
			return &ArrV{elem: elem, n: n, arr: c.AVar(name, bi(0), maxLen), flt: true, keys: k}
		}
		return &ArrV{elem: elem, n: n, arr: c.AVar(name, nil, nil), flt: true}
	}
	if a, ok := under(elem).(*types.Array); ok && scalarElem(a.Elem()) {
		// flattened: arr index i*len+j
		lo, hi := elemBounds(a.Elem())
		return &ArrV{elem: elem, n: n, arr: c.AVar(name, lo, hi)}
	}
	return &ArrV{elem: elem, n: n, dark: true}
}

func isFlatArr(a *ArrV) (int64, types.Type, bool) {
	if a.arr == nil {
		return 0, nil, false
	}
	if t, ok := under(a.elem).(*types.Array); ok && scalarElem(t.Elem()) {
		return t.Len(), t.Elem(), true
	}
	return 0, nil, false
}

// ---- element access

func boolElem(t types.Type) bool {
	b, ok := scalarBasic(t)
	return ok && b.Info()&types.IsBoolean != 0
}

func (x *Exec) getIdx(st *State, a *ArrV, i *Term) Val {
	if a.dark {
		x.fail("element of symbolic array of %s", a.elem)
	}
	c := x.c
	i = x.conc(st, i)
	if m, et, ok := isFlatArr(a); ok {
		xs := make([]*Term, m)
		for j := range xs {
			xs[j] = c.Select(a.arr, c.AddI(c.Scale(i, bi(m)), int64(j)), x.bf(st))
		}
		return &ArrV{elem: et, n: c.Int(m), arr: c.ALit(xs)}
	}
	if a.arr != nil {
		t := c.Select(a.arr, i, x.bf(st))
		if a.flt {
			if _, ok := under(a.elem).(*types.Interface); ok {
				return &IfaceV{id: t, isnil: c.Eq(t, c.zero), ityp: a.elem}
			}
			if a.keys != nil {
				return &PtrV{obj: a.keys, path: []Path{{idx: t}}, isnil: c.Eq(t, c.zero)}
			}
			return &OpaqueV{a.elem, t}
		}
		if isBigInt(a.elem) {
			return &BigV{t}
		}
		if boolElem(a.elem) {
			return c.Eq(t, c.one)
		}
		return t
	}
	if a.keys != nil {
		off := c.Select(a.sub[0].arr, i, x.bf(st))
		ln := c.Select(a.sub[1].arr, i, x.bf(st))
		cp := c.Select(a.sub[2].arr, i, x.bf(st))
		if !ln.bound && !cp.bound {
			x.assume(st, c.Le(ln, cp)) // every slice in memory is one
		}
		if _, ok := under(a.elem).(*types.Basic); ok {
			return &StrV{st.heap[a.keys].(*ArrV).arr, off, ln}
		}
		return &SliceV{obj: a.keys, off: off, len: ln, cap: cp, isnil: c.And(c.Eq(off, c.zero), c.Eq(cp, c.zero), c.Eq(ln, c.zero))}
	}
	if a.sub != nil {
		s := &StructV{}
		for _, y := range a.sub {
			s.f = append(s.f, x.getIdx(st, y, i))
		}
		return s
	}
	if i.op == OConst {
		k := i.v.Int64()
		if k < 0 || k >= int64(len(a.elems)) {
			return x.zero(st, a.elem)
		}
		return a.elems[k]
	}
	if len(a.elems) == 0 {
		return x.zero(st, a.elem)
	}
	// merge over all
	lo, hi := x.bounds(st, i)
	s, e := 0, len(a.elems)-1
	if lo != nil && lo.IsInt64() && int(lo.Int64()) > s && int(lo.Int64()) <= e {
		s = int(lo.Int64())
	}
	if hi != nil && hi.IsInt64() && int(hi.Int64()) < e && int(hi.Int64()) >= s {
		e = int(hi.Int64())
	}
	r := a.elems[e]
	for k := e - 1; k >= s; k-- {
		r = x.merge(st, c.Eq(i, c.Int(int64(k))), a.elems[k], r)
	}
	return r
}

func (x *Exec) setIdx(st *State, a *ArrV, i *Term, v Val) *ArrV {
	if a.dark {
		n := *a
		return &n
	}
	c := x.c
	i = x.conc(st, i)
	n := *a
	if m, _, ok := isFlatArr(a); ok {
		av := v.(*ArrV)
		n.arr = c.Copy(a.arr, c.Scale(i, bi(m)), av.arr, c.zero, c.Int(m), x.bf(st))
		return &n
	}
	if a.arr != nil {
		if a.flt {
			switch w := v.(type) {
			case *PtrV:
				if w.obj == nil {
					n.arr = c.Store(a.arr, i, c.zero, x.bf(st))
					return &n
				}
				if a.keys != nil && w.obj == a.keys && len(w.path) == 1 && w.path[0].idx != nil {
					n.arr = c.Store(a.arr, i, c.Ite(x.ptrNil(w), c.zero, w.path[0].idx), x.bf(st))
					return &n
				}
			case *OpaqueV:
				n.arr = c.Store(a.arr, i, w.id, x.bf(st))
				return &n
			case *IfaceV:
				if w.id != nil {
					n.arr = c.Store(a.arr, i, w.id, x.bf(st))
					return &n
				}
			}
			x.fail("store of concrete pointer into symbolic pointer array")
		}
		var t *Term
		if bv, ok := v.(*BigV); ok {
			t = bv.t
		} else {
			t = v.(*Term)
		}
		if t.sort == SBool {
			t = c.Ite(t, c.one, c.zero)
		}
		n.arr = c.Store(a.arr, i, t, x.bf(st))
		return &n
	}
	if a.keys != nil {
		sv, ok := v.(*SliceV)
		if !ok {
			x.fail("string store into symbolic string array")
		}
		if sv.obj == nil {
			sv = &SliceV{obj: a.keys, off: c.zero, len: c.zero, cap: c.zero}
		}
		if sv.obj != a.keys {
			sv = x.embed(st, a.keys, sv)
		}
		n.sub = []*ArrV{x.setIdx(st, a.sub[0], i, sv.off), x.setIdx(st, a.sub[1], i, sv.len), x.setIdx(st, a.sub[2], i, sv.cap)}
		return &n
	}
	if a.sub != nil {
		n.sub = nil
		for k, y := range a.sub {
			n.sub = append(n.sub, x.setIdx(st, y, i, v.(*StructV).f[k]))
		}
		return &n
	}
	n.elems = append([]Val(nil), a.elems...)
	if i.op == OConst {
		k := i.v.Int64()
		if k >= 0 && k < int64(len(n.elems)) {
			n.elems[k] = v
		}
		return &n
	}
	for k := range n.elems {
		n.elems[k] = x.merge(st, c.Eq(i, c.Int(int64(k))), v, n.elems[k])
	}
	return &n
}

// embed gives the slice sv of another object a place in the memory that the
// slices of a symbolic array share; neither may be written from then on.
func (x *Exec) embed(st *State, keys *Obj, sv *SliceV) *SliceV {
	c := x.c
	ka, ok := st.heap[keys].(*ArrV)
	if x.pure > 0 || !ok || ka.arr == nil || isBigInt(ka.elem) {
		x.fail("slice store into symbolic slice array")
	}
	arr, off, n := x.bytesOf(st, sv)
	cp := x.conc(st, sv.cap)
	sv.obj.imm = true
	place := c.Var("place", bi(1), maxLen)
	j := c.CanonVar("em")
	x.assume(st, c.Forall(j, c.zero, n, c.Eq(c.Select(ka.arr, c.Add(place, j), nil), c.Select(arr, c.Add(off, j), nil))))
	none := x.sliceNil(sv)
	return &SliceV{obj: keys, off: c.Ite(none, c.zero, place), len: n, cap: c.Ite(none, c.zero, cp)}
}

func (x *Exec) loadPath(st *State, v Val, path []Path) Val {
	for k, p := range path {
		if p.idx != nil {
			a, ok := v.(*ArrV)
			if !ok {
				x.fail("index into %T", v)
			}
			if m, et, ok := isFlatArr(a); ok && k+1 < len(path) && path[k+1].idx != nil && !boolElem(et) && !isBigInt(et) {
				i, j := x.conc(st, p.idx), x.conc(st, path[k+1].idx)
				return x.loadPath(st, x.c.Select(a.arr, x.c.Add(x.c.Scale(i, bi(m)), j), x.bf(st)), path[k+2:])
			}
			if a.sub != nil && a.keys == nil && k+1 < len(path) && path[k+1].idx == nil {
				// direct field of element
				return x.loadPath(st, x.getIdx(st, a.sub[path[k+1].f], p.idx), path[k+2:])
			}
			v = x.getIdx(st, a, p.idx)
		} else {
			s, ok := v.(*StructV)
			if !ok {
				x.fail("field of %T", v)
			}
			v = s.f[p.f]
		}
	}
	return v
}

func (x *Exec) storePath(st *State, v Val, path []Path, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.idx != nil {
		a, ok := v.(*ArrV)
		if !ok {
			x.fail("store index into %T", v)
		}
		if a.sub != nil && a.keys == nil && len(path) > 1 && path[1].idx == nil {
			n := *a
			n.sub = append([]*ArrV(nil), a.sub...)
			f := path[1].f
			if len(path) == 2 {
				n.sub[f] = x.setIdx(st, a.sub[f], p.idx, nv)
			} else {
				n.sub[f] = x.setIdx(st, a.sub[f], p.idx, x.storePath(st, x.getIdx(st, a.sub[f], p.idx), path[2:], nv))
			}
			return &n
		}
		if len(path) == 1 {
			return x.setIdx(st, a, p.idx, nv)
		}
		return x.setIdx(st, a, p.idx, x.storePath(st, x.getIdx(st, a, p.idx), path[1:], nv))
	}
	s, ok := v.(*StructV)
	if !ok {
		x.fail("store field of %T", v)
	}
	n := &StructV{append([]Val(nil), s.f...)}
	n.f[p.f] = x.storePath(st, s.f[p.f], path[1:], nv)
	return n
}

func (x *Exec) load(st *State, p *PtrV) Val {
	if p.obj == nil {
		x.fail("load of nil")
	}
	x.notGone(st, p.obj)
	v, ok := st.heap[p.obj]
	if !ok {
		// reached from a variable that another path loaded first
		if v, ok = x.heapInit[p.obj]; ok {
			st.heap[p.obj] = v
		}
	}
	if !ok {
		x.fail("object %s not in heap", p.obj.name)
	}
	return x.loadPath(st, v, p.path)
}

func pathKey(path []Path) string {
	var b strings.Builder
	for _, p := range path {
		if p.idx != nil {
			break
		}
		fmt.Fprintf(&b, ".%d", p.f)
	}
	return b.String()
}

func (x *Exec) noteWrite(o *Obj, path []Path) {
	for _, w := range x.writes {
		w[wkey{o, pathKey(path)}] = true
	}
}

func (x *Exec) store(st *State, p *PtrV, v Val) {
	if p.obj == nil {
		x.fail("store to nil")
	}
	if p.obj.imm {
		x.fail("store to shared immutable object %s", p.obj.name)
	}
	x.noteWrite(p.obj, p.path)
	st.heap[p.obj] = x.storePath(st, st.heap[p.obj], p.path, v)
}

// merge two values under cond
func (x *Exec) merge(st *State, cond *Term, a, b Val) Val {
	c := x.c
	if cond == c.tru {
		return a
	}
	if cond == c.fls {
		return b
	}
	switch av := a.(type) {
	case *Term:
		bv := b.(*Term)
		return c.Ite(cond, av, bv)
	case *StrV:
		bv := b.(*StrV)
		if *av == *bv {
			return a
		}
		l := c.Ite(cond, av.len, bv.len)
		if av.arr == bv.arr {
			return &StrV{av.arr, c.Ite(cond, av.off, bv.off), l}
		}
		return &StrV{x.aite(cond, x.shiftArr(av.arr, av.off), x.shiftArr(bv.arr, bv.off)), c.zero, l}
	case *StructV:
		bv := b.(*StructV)
		n := &StructV{}
		for i := range av.f {
			n.f = append(n.f, x.merge(st, cond, av.f[i], bv.f[i]))
		}
		return n
	case *ArrV:
		bv := b.(*ArrV)
		if av == bv {
			return a
		}
		n := *av
		if av.n != bv.n {
			n.n = c.Ite(cond, av.n, bv.n)
		}
		if av.dark || bv.dark {
			return &ArrV{elem: av.elem, n: n.n, dark: true}
		}
		if av.flt && av.keys != bv.keys {
			x.fail("merge of pointer arrays")
		}
		if av.arr != nil && bv.arr != nil {
			n.arr = x.aite(cond, av.arr, bv.arr)
			return &n
		}
		if av.keys != nil || bv.keys != nil {
			if av.keys != bv.keys {
				x.fail("merge of slice arrays")
			}
		}
		if av.sub != nil && bv.sub != nil {
			n.sub = nil
			for i := range av.sub {
				n.sub = append(n.sub, x.merge(st, cond, av.sub[i], bv.sub[i]).(*ArrV))
			}
			return &n
		}
		if len(av.elems) == len(bv.elems) {
			n.elems = nil
			for i := range av.elems {
				n.elems = append(n.elems, x.merge(st, cond, av.elems[i], bv.elems[i]))
			}
			return &n
		}
	case *BigV:
		bv := b.(*BigV)
		return &BigV{c.Ite(cond, av.t, bv.t)}
	case *PtrV:
		bv, ok := b.(*PtrV)
		if !ok {
			break
		}
		if av.obj == bv.obj && samePath(av.path, bv.path) {
			an, bn := x.ptrNil(av), x.ptrNil(bv)
			n := *av
			n.isnil = c.Ite(cond, an, bn)
			return &n
		}
		if av.obj == nil || bv.obj == nil {
			n := *av
			if av.obj == nil {
				n = *bv
			}
			n.isnil = c.Ite(cond, x.ptrNil(av), x.ptrNil(bv))
			return &n
		}
		// distinct pointers to big ints (spec code): fresh object
		if len(av.path) == 0 && len(bv.path) == 0 {
			x1, ok1 := st.heap[av.obj].(*BigV)
			x2, ok2 := st.heap[bv.obj].(*BigV)
			if ok1 && ok2 {
				o := x.alloc(st, "merge", av.obj.typ, &BigV{c.Ite(cond, x1.t, x2.t)})
				return &PtrV{obj: o, isnil: c.Ite(cond, x.ptrNil(av), x.ptrNil(bv))}
			}
		}
	case *SliceV:
		bv, ok := b.(*SliceV)
		if !ok {
			break
		}
		if av.obj == bv.obj && samePath(av.path, bv.path) {
			return &SliceV{obj: av.obj, path: av.path, off: c.Ite(cond, av.off, bv.off), len: c.Ite(cond, av.len, bv.len), cap: c.Ite(cond, av.cap, bv.cap), isnil: c.Ite(cond, x.sliceNil(av), x.sliceNil(bv))}
		}
		if av.obj == nil || bv.obj == nil {
			n := *av
			if av.obj == nil {
				n = *bv
			}
			return &SliceV{obj: n.obj, path: n.path, off: n.off, len: c.Ite(cond, av.len, bv.len), cap: c.Ite(cond, av.cap, bv.cap), isnil: c.Ite(cond, x.sliceNil(av), x.sliceNil(bv))}
		}
		if x.pure > 0 {
			// value merge for spec code
			a1 := x.sliceArr(st, av)
			a2 := x.sliceArr(st, bv)
			if a1.arr != nil && a2.arr != nil {
				l := c.Ite(cond, av.len, bv.len)
				arr := x.aite(cond, x.shiftArr(a1.arr, av.off), x.shiftArr(a2.arr, bv.off))
				o := x.alloc(st, "merge", nil, &ArrV{elem: a1.elem, n: l, arr: arr})
				return &SliceV{obj: o, off: c.zero, len: l, cap: l, isnil: c.Ite(cond, x.sliceNil(av), x.sliceNil(bv))}
			}
		}
	case *IfaceV:
		bv, ok := b.(*IfaceV)
		if !ok {
			break
		}
		an, bn := x.ifaceNil(av), x.ifaceNil(bv)
		if av.id == nil && bv.id == nil && av.typ == nil && bv.typ == nil {
			return a
		}
		if av.typ != nil && bv.typ != nil && types.Identical(av.typ, bv.typ) {
			return &IfaceV{typ: av.typ, val: x.merge(st, cond, av.val, bv.val)}
		}
		// error-like merge: identity term
		return &IfaceV{id: c.Ite(cond, x.ifaceID(av), x.ifaceID(bv)), isnil: c.Ite(cond, an, bn), ityp: av.ityp}
	case TupleV:
		bv := b.(TupleV)
		var n TupleV
		for i := range av {
			n = append(n, x.merge(st, cond, av[i], bv[i]))
		}
		return n
	case *OpaqueV:
		if bv, ok := b.(*OpaqueV); ok {
			return &OpaqueV{av.typ, c.Ite(cond, av.id, bv.id)}
		}
	case *FuncV:
		bv := b.(*FuncV)
		if av.fn == bv.fn && av.name == bv.name && len(av.binds) == 0 {
			return a
		}
	case *MapV:
		if bv := b.(*MapV); bv.obj == av.obj {
			return a
		}
	case *MapC:
		if a == b {
			return a
		}
	case nil:
		if b == nil {
			return nil
		}
	}
	if a == b {
		return a
	}
	x.fail("cannot merge %T with %T", a, b)
	return nil
}

func (x *Exec) aite(cond, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OALit && b.op == OALit && len(a.a) == len(b.a) && len(a.a) <= 64 {
		xs := make([]*Term, len(a.a))
		for i := range xs {
			xs[i] = x.c.Ite(cond, a.a[i], b.a[i])
		}
		return x.c.ALit(xs)
	}
	return x.c.Ite(cond, a, b)
}

// shiftArr returns array b with b[i] = a[off+i]
func (x *Exec) shiftArr(a, off *Term) *Term {
	c := x.c
	if off.op == OConst && off.v.Sign() == 0 {
		return a
	}
	if a.op == OALit && off.op == OConst && off.v.IsInt64() && off.v.Int64() >= 0 && off.v.Int64() <= int64(len(a.a)) {
		return c.ALit(a.a[off.v.Int64():])
	}
	v := c.CanonVar("s")
	return c.ALam(v, c.Select(a, c.Add(off, v), nil))
}

func samePath(a, b []Path) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (x *Exec) ptrNil(p *PtrV) *Term {
	if p.obj == nil {
		return x.c.tru
	}
	if p.isnil == nil {
		return x.c.fls
	}
	return p.isnil
}
func (x *Exec) sliceNil(p *SliceV) *Term {
	if p.isnil != nil {
		return p.isnil
	}
	return x.c.Bool(p.obj == nil)
}
func (x *Exec) ifaceNil(p *IfaceV) *Term {
	if p.typ != nil {
		return x.c.fls
	}
	if p.id == nil {
		return x.c.tru
	}
	if p.isnil == nil {
		return x.c.fls
	}
	return p.isnil
}
func (x *Exec) ifaceID(p *IfaceV) *Term {
	if p.id != nil {
		return p.id
	}
	if p.typ == nil {
		return x.c.zero
	}
	if pv, ok := p.val.(*PtrV); ok && pv.obj != nil {
		return x.c.App(fmt.Sprintf("ptrid:%d", pv.obj.id), bi(1), nil, x.c.zero)
	}
	if ov, ok := p.val.(*OpaqueV); ok {
		return ov.id
	}
	return x.c.App("ifaceid:"+p.typ.String(), bi(1), nil, x.c.zero)
}

func (x *Exec) sliceArr(st *State, s *SliceV) *ArrV {
	if s.obj == nil {
		return nil
	}
	x.notGone(st, s.obj)
	v := x.loadPath(st, st.heap[s.obj], s.path)
	a, ok := v.(*ArrV)
	if !ok {
		x.fail("slice of %T", v)
	}
	return a
}

// bytesOf returns (arr, off, len) of a scalar slice.
func (x *Exec) bytesOf(st *State, s *SliceV) (arr, off, n *Term) {
	if s.obj == nil {
		return x.c.ALit(nil), x.c.zero, x.c.zero
	}
	a := x.sliceArr(st, s)
	if a.arr == nil {
		x.fail("bytesOf non-scalar slice")
	}
	return a.arr, x.conc(st, s.off), x.conc(st, s.len)
}

func (x *Exec) newBytes(st *State, name string, arr, n *Term) *SliceV {
	o := x.alloc(st, name, nil, &ArrV{elem: types.Typ[types.Byte], n: n, arr: arr})
	return &SliceV{obj: o, off: x.c.zero, len: n, cap: n}
}

// ---- constants

func (x *Exec) constVal(st *State, k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return x.zero(st, t)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		x.fail("const of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		s := constant.StringVal(k.Value)
		return x.strConst(s)
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(k.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			x.fail("int const %s", v)
		}
		return x.c.Big(n)
	}
	return &OpaqueV{t, x.c.App("const:"+k.Value.ExactString(), nil, nil, x.c.zero)}
}

func (x *Exec) strConst(s string) *StrV {
	return &StrV{x.c.ABytes([]byte(s)), x.c.zero, x.c.Int(int64(len(s)))}
}

// concrete string if all bytes constant
func (x *Exec) constStr(st *State, s *StrV) (string, bool) {
	n := x.conc(st, s.len)
	if n.op != OConst || n.v.Cmp(bi(100000)) > 0 {
		return "", false
	}
	b := make([]byte, n.v.Int64())
	for i := range b {
		t := x.c.Select(s.arr, x.c.AddI(s.off, int64(i)), x.bf(st))
		if t.op != OConst {
			return "", false
		}
		b[i] = byte(t.v.Int64())
	}
	return string(b), true
}

func (x *Exec) get(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Global:
		return &PtrV{obj: x.global(st, v)}
	case *ssa.Builtin:
		return &FuncV{name: "builtin:" + v.Name()}
	}
	r, ok := st.top().regs[v]
	if !ok {
		x.fail("no value for %s in %s", v.Name(), st.top().fn)
	}
	return r
}

func (x *Exec) set(st *State, v ssa.Value, val Val) { st.top().regs[v] = val }

func (x *Exec) dbg(format string, a ...interface{}) {
	if x.debug {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

// iterTotal: loop iterations in the innermost activation
func (st *State) iterTotal() int {
	n := 0
	for _, v := range st.top().iters {
		n += v
	}
	return n
}
