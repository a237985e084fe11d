package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopStop struct {
	depth  int
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

// explore runs st until its frame stack drops to base (stop "ret"), or the
// loop stop triggers ("back"/"exit"). Dead states are dropped.
func (x *Exec) explore(st *State, base int, stop *loopStop) []*State {
	var out []*State
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		more := x.runState(s, base, stop)
		for _, m := range more {
			switch m.stop {
			case "":
				work = append(work, m)
			case "dead":
			case "unwound":
				if len(m.frames) > base {
					m.stop = ""
					work = append(work, m)
				} else {
					out = append(out, m)
				}
			default:
				out = append(out, m)
			}
		}
		if len(work)+len(out) > 20000 {
			x.fail("too many paths")
		}
		if pastDeadline() || time.Since(x.t0) > x.maxTime {
			x.fail("time budget of symbolic execution exceeded")
		}
	}
	return out
}

// runState runs one state until it stops or forks. The returned list holds
// all resulting states (possibly including st itself when stopped).
func (x *Exec) runState(st *State, base int, stop *loopStop) (out []*State) {
	for {
		if st.stop != "" {
			return []*State{st}
		}
		fr := st.top()
		if fr.enter != nil {
			to := fr.enter
			fr.enter = nil
			if stop != nil && len(st.frames) == stop.depth {
				if to == stop.header {
					st.stop = "back"
					fr.enter = to
					return []*State{st}
				}
				if !stop.body[to] {
					st.stop = "exit"
					fr.enter = to
					return []*State{st}
				}
			}
			if res, handled := x.loopEntry(st, to, stop); handled {
				return res
			}
			x.doPhis(st, fr.block, to)
			fr.prev = fr.block
			fr.block = to
			fr.idx = firstNonPhi(to)
			continue
		}
		x.nsteps++
		if x.nsteps > x.budget {
			x.fail("step budget exceeded")
		}
		instr := fr.block.Instrs[fr.idx]
		fr.idx++
		more := x.step(st, instr, base)
		if more != nil {
			return more
		}
	}
}

func firstNonPhi(b *ssa.BasicBlock) int {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return i
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (x *Exec) doPhis(st *State, from, to *ssa.BasicBlock) {
	fr := st.top()
	k := predIndex(from, to)
	n := firstNonPhi(to)
	if n == 0 {
		return
	}
	vals := make([]Val, n)
	for i := 0; i < n; i++ {
		vals[i] = x.get(st, to.Instrs[i].(*ssa.Phi).Edges[k])
	}
	for i := 0; i < n; i++ {
		fr.regs[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
}

// branch forks st on cond; returns states for true and false (nil if infeasible)
func (x *Exec) branch(st *State, cond *Term) (t, f *State) {
	switch x.decide(st, cond) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	if x.pure > 0 && cond.op != OForall && st.iterTotal() < 3 {
		// specification expressions: both sides, merged afterwards
		o := st.fork()
		x.assume(st, cond)
		x.assume(o, x.c.Not(cond))
		switch {
		case st.stop != "":
			return nil, o
		case o.stop != "":
			return st, nil
		}
		return st, o
	}
	ft := x.inc.feasible(st.pc, cond)
	if !ft {
		x.assume(st, x.c.Not(cond))
		return nil, st
	}
	if !x.inc.feasible(st.pc, x.c.Not(cond)) {
		x.assume(st, cond)
		return st, nil
	}
	o := st.fork()
	x.assume(st, cond)
	x.assume(o, x.c.Not(cond))
	return st, o
}

func (x *Exec) step(st *State, instr ssa.Instruction, base int) []*State {
	fr := st.top()
	if x.debug && os.Getenv("GOVC_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%*s%s: %s\n", len(st.frames)*2, "", fr.fn.Name(), instr)
	}
	switch in := instr.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Jump:
		fr.enter = fr.block.Succs[0]
		return nil
	case *ssa.If:
		cond := x.get(st, in.Cond).(*Term)
		if cond.bound {
			return x.mergeFork(st, cond)
		}
		t, f := x.branch(st, cond)
		if t != nil && f != nil {
			x.npaths++
			p := x.prog.fset.Position(in.Cond.Pos())
			if !p.IsValid() {
				p = x.prog.fset.Position(blockPos(fr.block))
			}
			t.trace = append(t.trace, fmt.Sprintf("%s:%d T", shortFile(p.Filename), p.Line))
			f.trace = append(f.trace, fmt.Sprintf("%s:%d F", shortFile(p.Filename), p.Line))
			t.top().enter = fr.block.Succs[0]
			f.top().enter = fr.block.Succs[1]
			return []*State{t, f}
		}
		if t != nil {
			fr.enter = fr.block.Succs[0]
		} else {
			fr.enter = fr.block.Succs[1]
		}
		return nil
	case *ssa.Return:
		var rv Val
		switch len(in.Results) {
		case 0:
		case 1:
			rv = x.get(st, in.Results[0])
		default:
			var tv TupleV
			for _, r := range in.Results {
				tv = append(tv, x.get(st, r))
			}
			rv = tv
		}
		return x.doReturn(st, rv, base)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			fr.idx-- // re-run RunDefers afterwards
			return x.callValue(st, nil, d.call, d.fn, d.args)
		}
		return nil
	case *ssa.Panic:
		v := x.get(st, in.X)
		msg := "panic"
		if iv, ok := v.(*IfaceV); ok {
			if s, ok := iv.val.(*StrV); ok {
				if cs, ok := x.constStr(st, s); ok {
					msg = "panic: " + cs
				}
			}
		}
		x.obligeFail(st, fmt.Sprintf("no-panic in %s (%s)", fr.fn.RelString(nil), msg), in.Pos(), "explicit panic reachable")
		st.stop = "dead"
		return []*State{st}
	case *ssa.Call:
		return x.call(st, in)
	case *ssa.Defer:
		fn, args := x.callee(st, &in.Call)
		fr.defers = append(fr.defers, deferred{in, fn, args})
		return nil
	case *ssa.Go:
		x.fail("go statement in %s", fr.fn)
	case *ssa.Send, *ssa.Select:
		x.fail("channel operation in %s", fr.fn)
	case *ssa.Store:
		p := x.ptr(st, x.get(st, in.Addr), in.Pos())
		if st.stop != "" {
			return []*State{st}
		}
		x.store(st, p, x.get(st, in.Val))
		return nil
	case *ssa.MapUpdate:
		m := x.get(st, in.Map).(*MapV)
		x.mapUpdate(st, m, x.get(st, in.Key), x.get(st, in.Value), in.Pos())
		if st.stop != "" {
			return []*State{st}
		}
		return nil
	case *ssa.Phi:
		x.fail("stray phi")
	case ssa.Value:
		more, handled := x.value(st, in)
		if handled {
			return more
		}
	}
	x.fail("instruction %T in %s", instr, fr.fn)
	return nil
}

func shortFile(f string) string {
	f = strings.TrimPrefix(f, "/repo/")
	return f
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

// mergeFork: branching on a condition with bound variables (pure code): both
// sides are explored with the condition recorded in the path.
func (x *Exec) mergeFork(st *State, cond *Term) []*State {
	fr := st.top()
	o := st.fork()
	st.pc = append(st.pc, cond)
	o.pc = append(o.pc, x.c.Not(cond))
	x.boundBnd(st, cond)
	x.boundBnd(o, x.c.Not(cond))
	fr.enter = fr.block.Succs[0]
	o.top().enter = fr.block.Succs[1]
	return []*State{st, o}
}

func (x *Exec) boundBnd(st *State, t *Term) {
	n := len(st.pc)
	x.assume(st, t)
	st.pc = st.pc[:n]
}

func (x *Exec) doReturn(st *State, rv Val, base int) []*State {
	fr := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if fr.use != nil {
		rv = fr.use.res
		if !fr.use.called {
			x.fail("contract %s used without calling its function", fr.fn)
		}
	}
	if fr.onRet != nil {
		rv = fr.onRet(st, rv)
		if st.stop != "" {
			return []*State{st}
		}
	}
	if len(st.frames) == base {
		st.ret = rv
		st.stop = "ret"
		return []*State{st}
	}
	if fr.ret != nil {
		st.top().regs[fr.ret] = rv
	}
	return nil
}

// ptr checks for nil and returns the pointer.
func (x *Exec) ptr(st *State, v Val, pos token.Pos) *PtrV {
	p, ok := v.(*PtrV)
	if !ok {
		if o, ok := v.(*OpaqueV); ok {
			x.fail("dereference of opaque %s in %s", o.typ, st.top().fn)
		}
		x.fail("dereference of %T in %s", v, st.top().fn)
	}
	if p.obj == nil {
		x.obligeFail(st, "nil-deref in "+st.top().fn.RelString(nil), pos, "nil pointer dereference")
		st.stop = "dead"
		return p
	}
	if p.isnil != nil && x.decide(st, p.isnil) != -1 {
		x.oblige(st, "nil-deref in "+st.top().fn.RelString(nil), pos, x.c.Not(p.isnil))
		if x.pure > 0 {
			x.boundBnd(st, x.c.Not(p.isnil))
		}
	}
	return p
}

func (x *Exec) value(st *State, v ssa.Value) ([]*State, bool) {
	c := x.c
	switch in := v.(type) {
	case *ssa.Alloc:
		t := under(in.Type()).(*types.Pointer).Elem()
		o := x.alloc(st, in.Comment, t, x.zero(st, t))
		x.set(st, v, &PtrV{obj: o})
	case *ssa.BinOp:
		r := x.binop(st, in, x.get(st, in.X), x.get(st, in.Y))
		x.set(st, v, r)
		if st.stop != "" {
			return []*State{st}, true
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := x.ptr(st, x.get(st, in.X), in.Pos())
			if st.stop != "" {
				return []*State{st}, true
			}
			x.set(st, v, x.load(st, p))
		case token.NOT:
			x.set(st, v, c.Not(x.get(st, in.X).(*Term)))
		case token.SUB:
			t, ok := x.get(st, in.X).(*Term)
			if !ok {
				x.set(st, v, x.get(st, in.X))
				break
			}
			x.set(st, v, x.wrap(st, c.Neg(t), in.Type()))
		case token.XOR:
			t := x.get(st, in.X).(*Term)
			b, _ := scalarBasic(in.Type())
			w, s, _ := intRange(b)
			if s {
				x.set(st, v, c.Sub(c.Int(-1), t))
			} else {
				x.set(st, v, c.Sub(c.Big(new(big.Int).Sub(pow2(w), bi(1))), t))
			}
		default:
			x.fail("unop %s in %s", in.Op, st.top().fn)
		}
	case *ssa.ChangeType:
		x.set(st, v, x.get(st, in.X))
	case *ssa.ChangeInterface:
		x.set(st, v, x.get(st, in.X))
	case *ssa.Convert:
		x.set(st, v, x.convert(st, x.get(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		x.set(st, v, &IfaceV{typ: in.X.Type(), val: x.get(st, in.X)})
	case *ssa.MakeClosure:
		f := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, x.get(st, b))
		}
		x.set(st, v, f)
	case *ssa.MakeSlice:
		n := x.get(st, in.Len).(*Term)
		k := x.get(st, in.Cap).(*Term)
		x.oblige(st, "makeslice-len in "+st.top().fn.RelString(nil), in.Pos(), c.And(c.Le(c.zero, n), c.Le(n, k)))
		n, k = x.conc(st, n), x.conc(st, k)
		el := under(in.Type()).(*types.Slice).Elem()
		o := x.alloc(st, "make", nil, nil)
		st.heap[o] = x.zeroArr(st, el, k)
		x.set(st, v, &SliceV{obj: o, off: c.zero, len: n, cap: k})
		if lim, ok := st.ghost["$allocLimit"]; ok {
			x.oblige(st, "alloc-bound in "+st.top().fn.RelString(nil), in.Pos(), c.Le(k, lim.(*Term)))
		}
	case *ssa.MakeMap:
		o := x.alloc(st, "map", in.Type(), &MapC{})
		x.set(st, v, &MapV{o})
	case *ssa.MakeChan:
		x.set(st, v, &OpaqueV{in.Type(), c.Var("chan", bi(1), nil)})
	case *ssa.Extract:
		tv, ok := x.get(st, in.Tuple).(TupleV)
		if !ok {
			x.fail("extract from %T", x.get(st, in.Tuple))
		}
		x.set(st, v, tv[in.Index])
	case *ssa.Field:
		s, ok := x.get(st, in.X).(*StructV)
		if !ok {
			x.fail("field of %T in %s", x.get(st, in.X), st.top().fn)
		}
		x.set(st, v, s.f[in.Field])
	case *ssa.FieldAddr:
		p := x.ptr(st, x.get(st, in.X), in.Pos())
		if st.stop != "" {
			return []*State{st}, true
		}
		np := append(append([]Path(nil), p.path...), Path{f: in.Field})
		x.set(st, v, &PtrV{obj: p.obj, path: np})
	case *ssa.Index:
		i := x.get(st, in.Index).(*Term)
		switch a := x.get(st, in.X).(type) {
		case *ArrV:
			x.boundsCheck(st, i, a.n, in.Pos())
			x.set(st, v, x.getIdx(st, a, i))
		case *StrV:
			x.boundsCheck(st, i, a.len, in.Pos())
			x.set(st, v, c.Select(a.arr, c.Add(a.off, i), x.bf(st)))
		default:
			x.fail("index of %T", a)
		}
	case *ssa.IndexAddr:
		i := x.get(st, in.Index).(*Term)
		switch a := x.get(st, in.X).(type) {
		case *SliceV:
			x.boundsCheck(st, i, a.len, in.Pos())
			if a.obj == nil {
				if st.stop == "" && x.pure == 0 {
					x.obligeFail(st, "index-bounds in "+st.top().fn.RelString(nil), in.Pos(), "index of nil slice")
				}
				st.stop = "dead"
				return []*State{st}, true
			}
			np := append(append([]Path(nil), a.path...), Path{idx: c.Add(a.off, i)})
			x.set(st, v, &PtrV{obj: a.obj, path: np})
		case *PtrV:
			p := x.ptr(st, a, in.Pos())
			if st.stop != "" {
				return []*State{st}, true
			}
			at := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array)
			x.boundsCheck(st, i, c.Int(at.Len()), in.Pos())
			np := append(append([]Path(nil), p.path...), Path{idx: i})
			x.set(st, v, &PtrV{obj: p.obj, path: np})
		default:
			x.fail("indexaddr of %T in %s", a, st.top().fn)
		}
	case *ssa.Lookup:
		switch m := x.get(st, in.X).(type) {
		case *StrV:
			i := x.get(st, in.Index).(*Term)
			x.boundsCheck(st, i, m.len, in.Pos())
			x.set(st, v, c.Select(m.arr, c.Add(m.off, i), x.bf(st)))
		case *MapV:
			return x.mapLookup(st, in, m, x.get(st, in.Index))
		default:
			x.fail("lookup in %T", m)
		}
	case *ssa.Slice:
		return x.slice(st, in)
	case *ssa.TypeAssert:
		return x.typeAssert(st, in)
	case *ssa.Range:
		x.set(st, v, &RangeIter{m: x.get(st, in.X)})
	case *ssa.Next:
		return x.next(st, in)
	case *ssa.SliceToArrayPointer:
		s := x.get(st, in.X).(*SliceV)
		n := under(under(in.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
		x.oblige(st, "slice-to-array in "+st.top().fn.RelString(nil), in.Pos(), c.Ge(s.len, c.Int(n)))
		x.fail("SliceToArrayPointer")
	default:
		return nil, false
	}
	return nil, true
}

func (x *Exec) boundsCheck(st *State, i, n *Term, pos token.Pos) {
	g := x.c.And(x.c.Le(x.c.zero, i), x.c.Lt(i, n))
	if x.pure > 0 {
		return
	}
	x.oblige(st, "index-bounds in "+st.top().fn.RelString(nil), pos, g)
}

func (x *Exec) slice(st *State, in *ssa.Slice) ([]*State, bool) {
	c := x.c
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.get(st, in.Low).(*Term)
	} else {
		lo = c.zero
	}
	if in.High != nil {
		hi = x.get(st, in.High).(*Term)
	}
	if in.Max != nil {
		mx = x.get(st, in.Max).(*Term)
	}
	name := "slice-bounds in " + st.top().fn.RelString(nil)
	switch a := x.get(st, in.X).(type) {
	case *StrV:
		if hi == nil {
			hi = a.len
		}
		x.oblige(st, name, in.Pos(), c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, a.len)))
		x.set(st, in, &StrV{a.arr, c.Add(a.off, lo), x.conc(st, c.Sub(hi, lo))})
	case *SliceV:
		if hi == nil {
			hi = a.len
		}
		cp := a.cap
		if mx != nil {
			x.oblige(st, name, in.Pos(), c.And(c.Le(hi, mx), c.Le(mx, a.cap)))
			cp = mx
		}
		x.oblige(st, name, in.Pos(), c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, cp)))
		n := &SliceV{obj: a.obj, path: a.path, off: c.Add(a.off, lo), len: x.conc(st, c.Sub(hi, lo)), cap: x.conc(st, c.Sub(cp, lo)), isnil: a.isnil}
		x.set(st, in, n)
	case *PtrV:
		p := x.ptr(st, a, in.Pos())
		if st.stop != "" {
			return []*State{st}, true
		}
		n := c.Int(under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
			x.oblige(st, name, in.Pos(), c.And(c.Le(hi, mx), c.Le(mx, n)))
		}
		x.oblige(st, name, in.Pos(), c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, cp)))
		x.set(st, in, &SliceV{obj: p.obj, path: p.path, off: lo, len: x.conc(st, c.Sub(hi, lo)), cap: x.conc(st, c.Sub(cp, lo))})
	default:
		x.fail("slice of %T in %s", a, st.top().fn)
	}
	return nil, true
}

// ---- integers

func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	b, ok := scalarBasic(typ)
	if !ok {
		x.fail("wrap %s", typ)
	}
	w, s, ok := intRange(b)
	if !ok {
		return t
	}
	lo, hi := typeBounds(w, s)
	l, h := x.bounds(st, t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	c := x.c
	if !t.bound && x.pure == 0 || (!t.bound && t.size < 300) {
		out := c.Or(c.Lt(t, c.Big(lo)), c.Gt(t, c.Big(hi)))
		if out == c.fls || !x.inc.feasible(st.pc, out) {
			x.setBndT(st, t, lo, hi)
			return t
		}
	} else if t.bound {
		// spec code: mathematical
		return t
	}
	m := c.Big(pow2(w))
	if !s {
		return c.Mod(t, m, x.bf(st))
	}
	h2 := c.Big(pow2(w - 1))
	return c.Sub(c.Mod(c.Add(t, h2), m, x.bf(st)), h2)
}

func (x *Exec) setBndT(st *State, t *Term, lo, hi *big.Int) {
	q, k := x.c.splitConst(t)
	nk := new(big.Int).Neg(k)
	l, h := addb(lo, nk), addb(hi, nk)
	if ms := x.c.monos(q); len(ms) > 0 && ms[0].c.Sign() < 0 {
		q = x.c.Neg(q)
		l, h = negb(h), negb(l)
	}
	if q.op != OConst {
		x.setBnd(st, q, l, h)
	}
}

func (x *Exec) binop(st *State, in *ssa.BinOp, a, b Val) Val {
	c := x.c
	switch in.Op {
	case token.EQL:
		return x.eq(st, a, b)
	case token.NEQ:
		return c.Not(x.eq(st, a, b))
	}
	at, ok1 := a.(*Term)
	bt, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		if s1, ok := a.(*StrV); ok {
			s2 := b.(*StrV)
			switch in.Op {
			case token.ADD:
				return x.strConcat(st, s1, s2)
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				cs1, ok1 := x.constStr(st, s1)
				cs2, ok2 := x.constStr(st, s2)
				if ok1 && ok2 {
					switch in.Op {
					case token.LSS:
						return c.Bool(cs1 < cs2)
					case token.LEQ:
						return c.Bool(cs1 <= cs2)
					case token.GTR:
						return c.Bool(cs1 > cs2)
					default:
						return c.Bool(cs1 >= cs2)
					}
				}
			}
		}
		if _, ok := a.(*OpaqueV); ok {
			// floats etc.
			if b, ok := scalarBasic(in.Type()); ok && b.Info()&types.IsBoolean != 0 {
				return c.BVar("opaque")
			}
			return &OpaqueV{in.Type(), c.Var("opaque", nil, nil)}
		}
		x.fail("binop %s on %T", in.Op, a)
	}
	t := in.Type()
	switch in.Op {
	case token.ADD:
		return x.wrap(st, c.Add(at, bt), t)
	case token.SUB:
		return x.wrap(st, c.Sub(at, bt), t)
	case token.MUL:
		return x.wrap(st, c.Mul(at, bt), t)
	case token.QUO, token.REM:
		if bt.op != OConst || bt.v.Sign() == 0 {
			x.oblige(st, "div-by-zero in "+st.top().fn.RelString(nil), in.Pos(), c.Not(c.Eq(bt, c.zero)))
		}
		q, r := x.truncDiv(st, at, bt)
		if in.Op == token.QUO {
			return x.wrap(st, q, t)
		}
		return r
	case token.LSS:
		return c.Lt(at, bt)
	case token.LEQ:
		return c.Le(at, bt)
	case token.GTR:
		return c.Gt(at, bt)
	case token.GEQ:
		return c.Ge(at, bt)
	case token.SHL:
		return x.shl(st, at, bt, in.X.Type(), in.Y.Type(), in.Pos())
	case token.SHR:
		return x.shr(st, at, bt, in.X.Type(), in.Y.Type(), in.Pos())
	}
	bb, _ := scalarBasic(t)
	w, s, ok := intRange(bb)
	if !ok {
		x.fail("bitop on %s", t)
	}
	switch in.Op {
	case token.AND:
		return x.bitand(st, at, bt, w, s)
	case token.OR:
		return x.bitor(st, at, bt, w, s)
	case token.XOR:
		and := x.bitand(st, at, bt, w, s)
		r := c.Sub(c.Add(at, bt), c.Scale(and, bi(2)))
		if !s {
			_, h1 := x.bounds(st, at)
			_, h2 := x.bounds(st, bt)
			if h1 != nil && h2 != nil {
				m := h1
				if h2.Cmp(h1) > 0 {
					m = h2
				}
				x.setBndT(st, r, bi(0), new(big.Int).Sub(pow2(uint(m.BitLen())), bi(1)))
			}
		}
		return r
	case token.AND_NOT:
		return c.Sub(at, x.bitand(st, at, bt, w, s))
	}
	x.fail("binop %s", in.Op)
	return nil
}

func (x *Exec) truncDiv(st *State, a, b *Term) (q, r *Term) {
	c := x.c
	al, ah := x.bounds(st, a)
	bl, bh := x.bounds(st, b)
	bf := x.bf(st)
	apos := al != nil && al.Sign() >= 0
	aneg := ah != nil && ah.Sign() <= 0
	bpos := bl != nil && bl.Sign() > 0
	bneg := bh != nil && bh.Sign() < 0
	if !apos && !aneg {
		if d := x.decideS(st, c.Ge(a, c.zero)); d == 1 {
			apos = true
		}
	}
	if !bpos && !bneg {
		if d := x.decideS(st, c.Gt(b, c.zero)); d == 1 {
			bpos = true
		}
	}
	pq := func(a, b *Term) *Term { return c.Div(a, b, bf) }
	switch {
	case apos && bpos:
		return pq(a, b), c.Mod(a, b, bf)
	case aneg && bpos:
		q = c.Neg(pq(c.Neg(a), b))
		return q, c.Neg(c.Mod(c.Neg(a), b, bf))
	case apos && bneg:
		q = c.Neg(pq(a, c.Neg(b)))
		return q, c.Mod(a, c.Neg(b), bf)
	case bpos:
		p := c.Ge(a, c.zero)
		q = c.Ite(p, pq(a, b), c.Neg(pq(c.Neg(a), b)))
		r = c.Ite(p, c.Mod(a, b, bf), c.Neg(c.Mod(c.Neg(a), b, bf)))
		return
	}
	pa, pb := c.Ge(a, c.zero), c.Ge(b, c.zero)
	absA := c.Ite(pa, a, c.Neg(a))
	absB := c.Ite(pb, b, c.Neg(b))
	qa := c.Div(absA, absB, nil)
	q = c.Ite(c.Eq(pa, pb), qa, c.Neg(qa))
	ra := c.Mod(absA, absB, nil)
	r = c.Ite(pa, ra, c.Neg(ra))
	return
}

func trailingZeros(v *big.Int) uint {
	if v.Sign() == 0 {
		return 1 << 20
	}
	return new(big.Int).Abs(v).TrailingZeroBits()
}

// tz returns a k such that 2^k divides t.
func (x *Exec) tz(t *Term) uint {
	switch t.op {
	case OConst:
		return trailingZeros(t.v)
	case OPoly:
		k := uint(1 << 20)
		for _, m := range t.mono {
			n := trailingZeros(m.c)
			for _, f := range m.f {
				n += x.tz(f)
			}
			if n < k {
				k = n
			}
		}
		return k
	case OMod:
		if t.a[1].op == OConst {
			k := x.tz(t.a[0])
			if z := trailingZeros(t.a[1].v); z < k {
				k = z
			}
			return k
		}
	case OIte:
		k := x.tz(t.a[1])
		if j := x.tz(t.a[2]); j < k {
			k = j
		}
		return k
	case OApp:
		if t.name == "pow2" && t.a[0].lo != nil && t.a[0].lo.Sign() > 0 && t.a[0].lo.IsInt64() {
			return uint(t.a[0].lo.Int64())
		}
	}
	return 0
}

func (x *Exec) bitand(st *State, a, b *Term, w uint, signed bool) *Term {
	c := x.c
	a, b = x.conc(st, a), x.conc(st, b)
	if a.op == OConst && b.op == OConst {
		return c.Big(new(big.Int).And(a.v, b.v))
	}
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	bf := x.bf(st)
	if b.op == OConst {
		m := b.v
		if m.Sign() < 0 {
			// a & ^k where k = -m-1 >= 0: a - (a & k)
			k := new(big.Int).Sub(new(big.Int).Neg(m), bi(1))
			return c.Sub(a, x.bitand(st, a, c.Big(k), w, signed))
		}
		// runs of ones
		_, h := x.bounds(st, a)
		r := c.zero
		n := m.BitLen()
		for i := 0; i < n; {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < n && m.Bit(j) == 1 {
				j++
			}
			// bits i..j-1: (a div 2^i mod 2^(j-i)) * 2^i
			d := c.Div(a, c.Big(pow2(uint(i))), bf)
			if h == nil || h.BitLen() > j || x.mayNeg(st, a) {
				d = c.Mod(d, c.Big(pow2(uint(j-i))), bf)
			}
			r = c.Add(r, c.Scale(d, pow2(uint(i))))
			i = j
		}
		return r
	}
	al, ah := x.bounds(st, a)
	bl, bh := x.bounds(st, b)
	isBit := func(l, h *big.Int) bool { return l != nil && h != nil && l.Sign() >= 0 && h.Cmp(bi(1)) <= 0 }
	if isBit(al, ah) && isBit(bl, bh) {
		return c.Mul(a, b)
	}
	if isBit(al, ah) {
		return c.Mul(a, c.Mod(b, c.Int(2), bf))
	}
	if isBit(bl, bh) {
		return c.Mul(b, c.Mod(a, c.Int(2), bf))
	}
	// disjoint: one multiple of 2^k the other < 2^k
	if bh != nil && bl != nil && bl.Sign() >= 0 && x.tz(a) >= uint(bh.BitLen()) {
		return c.zero
	}
	if ah != nil && al != nil && al.Sign() >= 0 && x.tz(b) >= uint(ah.BitLen()) {
		return c.zero
	}
	// all-ones or zero masks: b in {0, -1 mod 2^w}
	if a.op == OIte && a.a[1].op == OConst && a.a[2].op == OConst {
		return c.Ite(a.a[0], x.bitand(st, a.a[1], b, w, signed), x.bitand(st, a.a[2], b, w, signed))
	}
	if b.op == OIte && b.a[1].op == OConst && b.a[2].op == OConst {
		return c.Ite(b.a[0], x.bitand(st, b.a[1], a, w, signed), x.bitand(st, b.a[2], a, w, signed))
	}
	small := func(l, h *big.Int) int {
		if l != nil && l.Sign() >= 0 && h != nil {
			return h.BitLen()
		}
		return 1000
	}
	k := small(al, ah)
	if k2 := small(bl, bh); k2 < k {
		k = k2
	}
	if k <= 8 {
		if a.id > b.id {
			a, b = b, a
		}
		return c.App("and8", bi(0), bi(int64(1)<<uint(k)-1), a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	lo, hi := typeBounds(w, signed)
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		lo = bi(0)
	}
	t := c.App(fmt.Sprintf("and%d", w), lo, hi, a, b)
	if lo.Sign() == 0 {
		x.assume(st, c.And(c.Le(t, a), c.Le(t, b)))
	}
	return t
}

func (x *Exec) mayNeg(st *State, a *Term) bool {
	l, _ := x.bounds(st, a)
	return l == nil || l.Sign() < 0
}

func (x *Exec) bitor(st *State, a, b *Term, w uint, signed bool) *Term {
	c := x.c
	if a.op == OConst && b.op == OConst {
		return c.Big(new(big.Int).Or(a.v, b.v))
	}
	and := x.bitand(st, a, b, w, signed)
	r := c.Sub(c.Add(a, b), and)
	if and != c.zero && !signed {
		_, h1 := x.bounds(st, a)
		_, h2 := x.bounds(st, b)
		if h1 != nil && h2 != nil {
			m := h1
			if h2.Cmp(h1) > 0 {
				m = h2
			}
			x.setBndT(st, r, bi(0), new(big.Int).Sub(pow2(uint(m.BitLen())), bi(1)))
		}
	}
	return r
}

func (x *Exec) shl(st *State, a, s *Term, t, styp types.Type, pos token.Pos) *Term {
	c := x.c
	bb, _ := scalarBasic(t)
	w, signed, _ := intRange(bb)
	s = x.conc(st, s)
	if s.op == OConst {
		if s.v.Sign() < 0 {
			x.obligeFail(st, "negative-shift in "+st.top().fn.RelString(nil), pos, "negative shift")
			return c.zero
		}
		if s.v.Cmp(bi(int64(w))) >= 0 {
			return c.zero
		}
		p := pow2(uint(s.v.Int64()))
		r := c.Scale(a, p)
		if !signed {
			// avoid solver: take low bits
			l, h := x.bounds(st, r)
			_, thi := typeBounds(w, signed)
			if l != nil && l.Sign() >= 0 && h != nil && h.Cmp(thi) <= 0 {
				return r
			}
			return c.Mod(r, c.Big(pow2(w)), x.bf(st))
		}
		return x.wrap(st, r, t)
	}
	sl, sh := x.bounds(st, s)
	if x.mayNeg(st, s) {
		x.oblige(st, "negative-shift in "+st.top().fn.RelString(nil), pos, c.Ge(s, c.zero))
	}
	_ = sl
	if sh != nil && sh.Cmp(bi(int64(w))) < 0 {
		p := x.pow2T(st, s)
		if p.op == OIte && p.a[1].op == OConst && p.a[2].op == OConst {
			return c.Ite(p.a[0], x.wrap(st, c.Mul(a, p.a[1]), t), x.wrap(st, c.Mul(a, p.a[2]), t))
		}
		return x.wrap(st, c.Mul(a, p), t)
	}
	big := c.Ge(s, c.Int(int64(w)))
	if x.decideS(st, big) == -1 {
		return x.wrap(st, c.Mul(a, x.pow2T(st, s)), t)
	}
	p := c.Ite(big, c.zero, x.pow2T(st, s))
	return x.wrap(st, c.Mul(a, p), t)
}

func (x *Exec) pow2T(st *State, s *Term) *Term {
	c := x.c
	l, h := x.bounds(st, s)
	if l != nil && h != nil && l.Sign() >= 0 && l.IsInt64() && h.IsInt64() && h.Int64()-l.Int64() <= 70 {
		r := c.Big(pow2(uint(h.Int64())))
		for k := h.Int64() - 1; k >= l.Int64(); k-- {
			r = c.Ite(c.Le(s, c.Int(k)), c.Big(pow2(uint(k))), r)
		}
		return r
	}
	return c.Pow2(s)
}

func (x *Exec) shr(st *State, a, s *Term, t, styp types.Type, pos token.Pos) *Term {
	c := x.c
	s = x.conc(st, s)
	if s.op == OConst {
		if s.v.Sign() < 0 {
			x.obligeFail(st, "negative-shift in "+st.top().fn.RelString(nil), pos, "negative shift")
			return c.zero
		}
		if s.v.Cmp(bi(5000)) > 0 {
			return c.Ite(c.Ge(a, c.zero), c.zero, c.Int(-1))
		}
		return c.Div(a, c.Big(pow2(uint(s.v.Int64()))), x.bf(st))
	}
	if x.mayNeg(st, s) {
		x.oblige(st, "negative-shift in "+st.top().fn.RelString(nil), pos, c.Ge(s, c.zero))
	}
	l, h := x.bounds(st, s)
	if l != nil && h != nil && l.Sign() >= 0 && h.IsInt64() && h.Int64()-l.Int64() <= 64 {
		r := c.Div(a, c.Big(pow2(uint(h.Int64()))), x.bf(st))
		for k := h.Int64() - 1; k >= l.Int64(); k-- {
			r = c.Ite(c.Le(s, c.Int(k)), c.Div(a, c.Big(pow2(uint(k))), x.bf(st)), r)
		}
		return r
	}
	return c.Div(a, x.c.Pow2(s), x.bf(st))
}

// ---- equality

func (x *Exec) eq(st *State, a, b Val) *Term {
	c := x.c
	switch av := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		if !ok {
			x.fail("eq %T %T", a, b)
		}
		return c.Eq(x.conc2(st, av), x.conc2(st, bt))
	case *StrV:
		bv := b.(*StrV)
		return c.SeqEq(av.arr, av.off, x.conc(st, av.len), bv.arr, bv.off, x.conc(st, bv.len), x.bf(st))
	case *PtrV:
		bv, ok := b.(*PtrV)
		if !ok {
			if _, ok := b.(*OpaqueV); ok {
				return c.BVar("ptreq")
			}
			x.fail("eq %T %T", a, b)
		}
		an, bn := x.ptrNil(av), x.ptrNil(bv)
		if av.obj == nil {
			return bn
		}
		if bv.obj == nil {
			return an
		}
		if av.obj == bv.obj {
			same := c.tru
			if len(av.path) != len(bv.path) {
				same = c.fls
			} else {
				for i := range av.path {
					p, q := av.path[i], bv.path[i]
					if p.idx != nil && q.idx != nil {
						same = c.And(same, c.Eq(p.idx, q.idx))
					} else if p != q {
						same = c.fls
					}
				}
			}
			return c.Or(c.And(an, bn), c.And(c.Not(an), c.Not(bn), same))
		}
		return c.And(an, bn)
	case *SliceV:
		bv := b.(*SliceV)
		if bv.obj == nil && bv.isnil == nil {
			return x.sliceNil(av)
		}
		if av.obj == nil && av.isnil == nil {
			return x.sliceNil(bv)
		}
	case *IfaceV:
		bv := b.(*IfaceV)
		an, bn := x.ifaceNil(av), x.ifaceNil(bv)
		if an == c.tru {
			return bn
		}
		if bn == c.tru {
			return an
		}
		if av.typ != nil && bv.typ != nil {
			if !types.Identical(av.typ, bv.typ) {
				return c.fls
			}
			return x.eq(st, av.val, bv.val)
		}
		return c.Or(c.And(an, bn), c.And(c.Not(an), c.Not(bn), c.Eq(x.ifaceID(av), x.ifaceID(bv))))
	case *ArrV:
		bv := b.(*ArrV)
		if av.arr != nil && bv.arr != nil {
			return c.SeqEq(av.arr, c.zero, av.n, bv.arr, c.zero, bv.n, x.bf(st))
		}
		r := c.tru
		for i := range av.elems {
			r = c.And(r, x.eq(st, av.elems[i], bv.elems[i]))
		}
		return r
	case *StructV:
		bv := b.(*StructV)
		r := c.tru
		for i := range av.f {
			r = c.And(r, x.eq(st, av.f[i], bv.f[i]))
		}
		return r
	case *FuncV:
		bv := b.(*FuncV)
		if bv.fn == nil && bv.name == "" {
			return c.Bool(av.fn == nil && av.name == "")
		}
		if av.fn == nil && av.name == "" {
			return c.Bool(bv.fn == nil && bv.name == "")
		}
	case *MapV:
		bv := b.(*MapV)
		if bv.obj == nil || av.obj == nil {
			return c.Bool(av.obj == bv.obj)
		}
	case *OpaqueV:
		if bv, ok := b.(*OpaqueV); ok {
			return c.Eq(av.id, bv.id)
		}
		if bv, ok := b.(*PtrV); ok && bv.obj == nil {
			return c.Eq(av.id, c.zero)
		}
		return c.BVar("opqeq")
	case *BigV:
		x.fail("comparison of big.Int structs")
	}
	x.fail("eq on %T %T in %s", a, b, st.top().fn)
	return nil
}

func (x *Exec) conc2(st *State, t *Term) *Term {
	if t.sort != SInt || t.bound {
		return t
	}
	return x.conc(st, t)
}

// ---- strings and conversions

func (x *Exec) concat(st *State, a1, o1, n1, a2, o2, n2 *Term) (arr, n *Term) {
	c := x.c
	n1, n2 = x.conc(st, n1), x.conc(st, n2)
	n = c.Add(n1, n2)
	if n1.op == OConst && n2.op == OConst && n.v.Cmp(bi(256)) <= 0 {
		var xs []*Term
		for i := int64(0); i < n1.v.Int64(); i++ {
			xs = append(xs, c.Select(a1, c.AddI(o1, i), x.bf(st)))
		}
		for i := int64(0); i < n2.v.Int64(); i++ {
			xs = append(xs, c.Select(a2, c.AddI(o2, i), x.bf(st)))
		}
		return c.ALit(xs), n
	}
	base := x.shiftArr(a1, o1)
	return c.Copy(base, n1, a2, o2, n2, x.bf(st)), n
}

func (x *Exec) strConcat(st *State, a, b *StrV) *StrV {
	arr, n := x.concat(st, a.arr, a.off, a.len, b.arr, b.off, b.len)
	return &StrV{arr, x.c.zero, n}
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	c := x.c
	fu, tu := under(from), under(to)
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Info()&types.IsInteger != 0 {
			if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
				return x.wrap(st, v.(*Term), to)
			}
			w, s, _ := intRange(tb)
			lo, hi := typeBounds(w, s)
			return c.Var("conv", lo, hi)
		}
		if tb.Info()&types.IsString != 0 {
			switch s := v.(type) {
			case *SliceV:
				arr, off, n := x.bytesOf(st, s)
				return &StrV{arr, off, n}
			case *StrV:
				return s
			case *Term:
				// string(rune) ascii only
				l, h := x.bounds(st, s)
				if l != nil && l.Sign() >= 0 && h != nil && h.Cmp(bi(127)) <= 0 {
					return &StrV{c.ALit([]*Term{s}), c.zero, c.one}
				}
			}
			x.fail("convert to string from %T", v)
		}
		if tb.Info()&types.IsFloat != 0 || tb.Kind() == types.UnsafePointer {
			if tb.Kind() == types.UnsafePointer {
				return v
			}
			return &OpaqueV{to, c.Var("float", nil, nil)}
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*StrV); ok {
			if b, ok := scalarBasic(sl.Elem()); ok && b.Kind() == types.Uint8 {
				n := x.conc(st, s.len)
				arr := x.shiftArr(s.arr, s.off)
				if n.op == OConst && n.v.Cmp(bi(256)) <= 0 {
					arr = c.ALit(x.sel(st, s.arr, s.off, int(n.v.Int64())))
				}
				r := x.newBytes(st, "[]byte", arr, n)
				return r
			}
		}
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		// unsafe.Pointer -> *T reinterpretation keeps the pointer; the users
		// must be intrinsics
		if p, ok := v.(*PtrV); ok {
			return &PtrV{obj: p.obj, path: p.path, isnil: p.isnil}
		}
	}
	return v
}

func (x *Exec) sel(st *State, arr, off *Term, n int) []*Term {
	xs := make([]*Term, n)
	for i := range xs {
		xs[i] = x.c.Select(arr, x.c.AddI(off, int64(i)), x.bf(st))
	}
	return xs
}

// ---- type assertions

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) ([]*State, bool) {
	c := x.c
	iv, ok := x.get(st, in.X).(*IfaceV)
	if !ok {
		x.fail("typeassert on %T", x.get(st, in.X))
	}
	mk := func(s *State, v Val, ok *Term) {
		if in.CommaOk {
			x.set(s, in, TupleV{v, ok})
		} else {
			x.set(s, in, v)
		}
	}
	_, toIface := under(in.AssertedType).(*types.Interface)
	if iv.typ != nil {
		var match bool
		if toIface {
			match = types.Implements(iv.typ, under(in.AssertedType).(*types.Interface))
		} else {
			match = types.Identical(iv.typ, in.AssertedType)
		}
		if match {
			if toIface {
				mk(st, iv, c.tru)
			} else {
				mk(st, iv.val, c.tru)
			}
			return nil, true
		}
		if in.CommaOk {
			mk(st, x.zero(st, in.AssertedType), c.fls)
			return nil, true
		}
		x.obligeFail(st, "type-assert in "+st.top().fn.RelString(nil), in.Pos(), "wrong dynamic type")
		return []*State{st}, true
	}
	if iv.id == nil {
		if in.CommaOk {
			mk(st, x.zero(st, in.AssertedType), c.fls)
			return nil, true
		}
		x.obligeFail(st, "type-assert in "+st.top().fn.RelString(nil), in.Pos(), "nil interface")
		return []*State{st}, true
	}
	if toIface && iv.ityp != nil && types.Implements(iv.ityp, under(in.AssertedType).(*types.Interface)) {
		mk(st, iv, c.Not(x.ifaceNil(iv)))
		return nil, true
	}
	// opaque: has-type predicate
	is := c.And(c.Not(x.ifaceNil(iv)), c.BApp("is:"+in.AssertedType.String(), iv.id))
	if !in.CommaOk {
		x.oblige(st, "type-assert in "+st.top().fn.RelString(nil), in.Pos(), is)
		if toIface {
			mk(st, iv, nil)
		} else {
			mk(st, x.opaqueUnpack(st, iv, in.AssertedType), nil)
		}
		return nil, true
	}
	t, f := x.branch(st, is)
	var out []*State
	if t != nil {
		if toIface {
			mk(t, iv, c.tru)
		} else {
			mk(t, x.opaqueUnpack(t, iv, in.AssertedType), c.tru)
		}
		out = append(out, t)
	}
	if f != nil {
		mk(f, x.zero(f, in.AssertedType), c.fls)
		out = append(out, f)
	}
	if len(out) == 1 && out[0] == st {
		return nil, true
	}
	return out, true
}

func (x *Exec) opaqueUnpack(st *State, iv *IfaceV, t types.Type) Val {
	key := fmt.Sprintf("$unpack:%d:%s", iv.id.id, t)
	if v, ok := st.ghost[key]; ok {
		return v
	}
	v := x.symD(st, t, "unpack", 0)
	st.ghost[key] = v
	return v
}

// ---- maps

func (x *Exec) mapUpdate(st *State, m *MapV, k, v Val, pos token.Pos) {
	if m.obj == nil {
		x.obligeFail(st, "nil-map-write in "+st.top().fn.RelString(nil), pos, "assignment to nil map")
		return
	}
	x.noteWrite(m.obj, nil)
	mc := st.heap[m.obj].(*MapC)
	n := &MapC{base: mc.base}
	for _, e := range mc.entries {
		if x.eq(st, e.k, k) == x.c.tru {
			continue
		}
		n.entries = append(n.entries, e)
	}
	n.entries = append(n.entries, mapEnt{k: k, v: v})
	st.heap[m.obj] = n
}

func (x *Exec) mapDelete(st *State, m *MapV, k Val) {
	if m.obj == nil {
		return
	}
	x.noteWrite(m.obj, nil)
	mc := st.heap[m.obj].(*MapC)
	n := &MapC{base: mc.base, entries: append([]mapEnt(nil), mc.entries...)}
	n.entries = append(n.entries, mapEnt{k: k, del: true})
	st.heap[m.obj] = n
}

func (x *Exec) mapLookup(st *State, in *ssa.Lookup, m *MapV, k Val) ([]*State, bool) {
	c := x.c
	vt := under(in.X.Type()).(*types.Map).Elem()
	setr := func(s *State, v Val, ok *Term) {
		if in.CommaOk {
			x.set(s, in, TupleV{v, ok})
		} else {
			x.set(s, in, v)
		}
	}
	if m.obj == nil {
		setr(st, x.zero(st, vt), c.fls)
		return nil, true
	}
	mc := st.heap[m.obj].(*MapC)
	var out []*State
	cur := st
	for i := len(mc.entries) - 1; i >= 0; i-- {
		e := mc.entries[i]
		t, f := x.branch(cur, x.eq(cur, e.k, k))
		if t != nil {
			if e.del {
				setr(t, x.zero(t, vt), c.fls)
			} else {
				setr(t, e.v, c.tru)
			}
			out = append(out, t)
		}
		if f == nil {
			cur = nil
			break
		}
		cur = f
	}
	if cur != nil {
		if mc.base == "" {
			setr(cur, x.zero(cur, vt), c.fls)
		} else {
			// unknown base: fresh value per lookup, recorded as an entry
			present := c.BVar("has." + mc.base)
			val := x.symD(cur, vt, "val."+mc.base, 1)
			p, a := x.branch(cur, present)
			if p != nil {
				n := &MapC{base: mc.base, entries: append([]mapEnt{{k: k, v: val}}, mc.entries...)}
				p.heap[m.obj] = n
				setr(p, val, c.tru)
				out = append(out, p)
			}
			if a != nil {
				n := &MapC{base: mc.base, entries: append([]mapEnt{{k: k, del: true}}, mc.entries...)}
				a.heap[m.obj] = n
				setr(a, x.zero(a, vt), c.fls)
				out = append(out, a)
			}
			return out, true
		}
		out = append(out, cur)
	}
	if len(out) == 1 && out[0] == st {
		return nil, true
	}
	return out, true
}

func (x *Exec) next(st *State, in *ssa.Next) ([]*State, bool) {
	it := x.get(st, in.Iter).(*RangeIter)
	c := x.c
	if in.IsString {
		s := it.m.(*StrV)
		n := x.conc(st, s.len)
		// ASCII iteration only
		if n.op != OConst {
			x.fail("range over symbolic string in %s", st.top().fn)
		}
		if int64(it.pos) >= n.v.Int64() {
			x.set(st, in, TupleV{c.fls, c.zero, c.zero})
			return nil, true
		}
		b := c.Select(s.arr, c.AddI(s.off, int64(it.pos)), x.bf(st))
		if !(x.decideS(st, c.Le(b, c.Int(127))) == 1) {
			x.fail("range over non-ASCII string")
		}
		x.set(st, in, TupleV{c.tru, c.Int(int64(it.pos)), b})
		st.top().regs[in.Iter] = &RangeIter{m: it.m, pos: it.pos + 1}
		return nil, true
	}
	m := it.m.(*MapV)
	if m.obj == nil {
		x.set(st, in, TupleV{c.fls, nil, nil})
		return nil, true
	}
	mc := st.heap[m.obj].(*MapC)
	if mc.base != "" {
		x.fail("range over unknown map in %s", st.top().fn)
	}
	for _, e := range mc.entries {
		if e.del {
			x.fail("range over map with deletions")
		}
	}
	if it.pos >= len(mc.entries) {
		x.set(st, in, TupleV{c.fls, nil, nil})
		return nil, true
	}
	e := mc.entries[it.pos]
	x.set(st, in, TupleV{c.tru, e.k, e.v})
	st.top().regs[in.Iter] = &RangeIter{m: it.m, pos: it.pos + 1}
	return nil, true
}
