package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	vcIntr()
	bigIntr()
	libIntr()
}

// ---- helpers

// elementRet stands for a result that points to an element of a slice
type elementRet struct {
	s  *SliceV
	is func(Val) *Term
}

func unwrapIface(v Val) Val {
	if iv, ok := v.(*IfaceV); ok && iv.typ != nil {
		return iv.val
	}
	return v
}

// constant string argument
func (x *Exec) cstr(st *State, v Val) string {
	s, ok := v.(*StrV)
	if !ok {
		x.fail("string constant expected, got %T", v)
	}
	r, ok := x.constStr(st, s)
	if !ok {
		x.fail("constant string expected")
	}
	return r
}

// variadic []interface{} argument
func (x *Exec) variadic(st *State, v Val) []Val {
	s := v.(*SliceV)
	if s.obj == nil {
		return nil
	}
	a := x.sliceArr(st, s)
	n := x.conc(st, s.len)
	if n.op != OConst {
		x.fail("variadic of symbolic length")
	}
	var out []Val
	for i := int64(0); i < n.v.Int64(); i++ {
		out = append(out, x.getIdx(st, a, x.c.AddI(s.off, i)))
	}
	return out
}

func (x *Exec) newErr(st *State, what string) Val {
	x.errIDs++
	return &IfaceV{id: x.c.Var("err:"+what, bi(1), nil), isnil: x.c.fls, ityp: types.Universe.Lookup("error").Type()}
}

// ---- vc

func (x *Exec) harnessFrame(st *State) *Frame { return st.top() }

// useFrame is the frame of the contract (or harness) being evaluated, which
// may have called a helper.
func useFrame(st *State) *Frame {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].use != nil {
			return st.frames[i]
		}
	}
	return st.top()
}

func vcIntr() {
	reg := func(name string, f Intrinsic) { intrinsics[vcPath+"."+name] = f }
	reg("Requires", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		t := a[0].(*Term)
		fr := useFrame(st)
		if fr.use != nil && !fr.use.check {
			if x.fieldAbs {
				x.obligeSplit(st, "requires of "+fr.use.fn.RelString(nil), callerPos(st), t)
				return nil, nil
			}
			x.oblige(st, "requires of "+fr.use.fn.RelString(nil), callerPos(st), t)
			return nil, nil
		}
		x.assume(st, t)
		return nil, nil
	})
	reg("Assume", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		x.assume(st, a[0].(*Term))
		return nil, nil
	})
	// Known(id, cond): inputs on which a recorded finding applies
	reg("Known", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		id := x.cstr(st, a[0])
		fr := useFrame(st)
		if fr.use != nil && !fr.use.check {
			x.oblige(st, "excluded known finding "+id+" in "+fr.use.fn.RelString(nil), callerPos(st), x.c.Not(a[1].(*Term)))
			return nil, nil
		}
		x.assume(st, x.c.Not(a[1].(*Term)))
		x.known(id)
		return nil, nil
	})
	ens := func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		label := x.cstr(st, a[0])
		fr := useFrame(st)
		t := x.evalBool(st, a[1])
		if fr.use != nil && !fr.use.check {
			x.assume(st, t)
			return nil, nil
		}
		x.obligeSplit(st, label, ci.Pos(), t)
		return nil, nil
	}
	reg("Ensures", ens)
	reg("Assert", ens)
	// Fact: only concretely checked (bounded); not available to callers
	reg("Sampled", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		return nil, nil
	})
	reg("Symbolic", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		return x.c.tru, nil
	})
	reg("Cut", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		label := x.cstr(st, a[0])
		t := x.evalBool(st, a[1])
		x.obligeSplit(st, label, ci.Pos(), t)
		x.assume(st, t)
		return nil, nil
	})
	// Step: a Cut inside the proof of a contract, invisible to callers
	reg("Step", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		if fr := useFrame(st); fr.use != nil && !fr.use.check {
			return nil, nil
		}
		label := x.cstr(st, a[0])
		t := x.evalBool(st, a[1])
		x.obligeSplit(st, label, ci.Pos(), t)
		x.assume(st, t)
		return nil, nil
	})
	// PowMod(a, e): a to the power e modulo the prime of secp256k1
	reg("PowMod", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		b, e := x.conc(st, x.bigv(st, a[0], ci.Pos())), x.conc(st, x.bigv(st, a[1], ci.Pos()))
		return x.newBig(st, x.c.App("powmod", bi(0), new(big.Int).Sub(secpP, bi(1)), b, e)), nil
	})
	// NoZeroDiv(a, b): a product is zero modulo the prime iff a factor is
	reg("NoZeroDiv", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		c := x.c
		u, v := x.bigv(st, a[0], ci.Pos()), x.bigv(st, a[1], ci.Pos())
		z := func(t *Term) *Term { return c.Eq(c.Mod(t, c.Big(secpP), x.bf(st)), c.zero) }
		zu, zv, zp := z(u), z(v), z(c.Mul(u, v))
		x.assume(st, c.And(c.Or(c.Not(zp), zu, zv), c.Or(c.Not(zu), zp), c.Or(c.Not(zv), zp)))
		x.trusted["the order of the field is prime: a product is zero only if a factor is"] = true
		return nil, nil
	})
	// SumZero(a, b): what divides a and b divides a+b
	reg("SumZero", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		c := x.c
		u, v := x.bigv(st, a[0], ci.Pos()), x.bigv(st, a[1], ci.Pos())
		z := func(t *Term) *Term { return c.Eq(c.Mod(t, c.Big(secpP), x.bf(st)), c.zero) }
		x.assume(st, c.Or(c.Not(z(u)), c.Not(z(v)), z(c.Add(u, v))))
		return nil, nil
	})
	reg("Modifies", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		u := useFrame(st).use
		if u == nil {
			return nil, nil
		}
		for _, v := range x.variadic(st, a[0]) {
			v = unwrapIface(v)
			if sv, ok := v.(*SliceV); ok && sv.obj == nil {
				continue
			}
			u.modifies = append(u.modifies[:len(u.modifies):len(u.modifies)], v)
		}
		return nil, nil
	})
	reg("ModifiesAny", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		if u := useFrame(st).use; u != nil {
			u.anyMod = true
			if !u.check {
				x.fail("contract %s modifies anything: not usable at call sites", st.top().fn)
			}
		}
		return nil, nil
	})
	reg("Returns", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		u := useFrame(st).use
		if u == nil {
			return nil, nil
		}
		i := a[0].(*Term)
		r := map[int]Val{}
		for k, v := range u.returns {
			r[k] = v
		}
		v := a[1]
		rt := u.fn.Signature.Results().At(int(i.v.Int64())).Type()
		if _, isI := under(rt).(*types.Interface); !isI {
			v = unwrapIface(v)
		}
		r[int(i.v.Int64())] = v
		u.returns = r
		return nil, nil
	})
	// element returns the array of a slice and the bounds of its elements
	element := func(x *Exec, v Val) (*SliceV, func(*Term) *PtrV) {
		sv, ok := unwrapIface(v).(*SliceV)
		if !ok || sv.obj == nil {
			x.fail("element of %T", unwrapIface(v))
		}
		return sv, func(i *Term) *PtrV {
			return &PtrV{obj: sv.obj, path: append(append([]Path(nil), sv.path...), Path{idx: x.c.Add(sv.off, i)})}
		}
	}
	index := func(x *Exec, sv *SliceV, v Val) *Term {
		p, ok := unwrapIface(v).(*PtrV)
		n := len(sv.path)
		if !ok || p.obj != sv.obj || p.isnil != nil || len(p.path) != n+1 || !samePath(p.path[:n], sv.path) || p.path[n].idx == nil {
			return x.c.Int(-1)
		}
		i := x.c.Sub(p.path[n].idx, sv.off)
		return x.c.Ite(x.c.And(x.c.Le(x.c.zero, i), x.c.Lt(i, sv.len)), i, x.c.Int(-1))
	}
	// IndexOf(s, p): which element of s p points to, or -1
	reg("IndexOf", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		if sv, ok := unwrapIface(a[0]).(*SliceV); !ok || sv.obj == nil {
			return x.c.Int(-1), nil
		}
		sv, _ := element(x, a[0])
		return index(x, sv, a[1]), nil
	})
	// ElementOf(s, p): p, which points to an element of s (a precondition)
	reg("ElementOf", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		sv, at := element(x, a[0])
		fr := useFrame(st)
		if fr.use != nil && !fr.use.check {
			x.oblige(st, "requires of "+fr.use.fn.RelString(nil), callerPos(st), x.c.Le(x.c.zero, index(x, sv, a[1])))
			return a[1], nil
		}
		i := x.c.Var("element", bi(0), maxLen)
		x.assume(st, x.c.Lt(i, sv.len))
		r := *a[1].(*IfaceV)
		r.val = at(i)
		return &r, nil
	})
	// ReturnsElement(i, s): result i points to an element of s
	reg("ReturnsElement", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		u := useFrame(st).use
		if u == nil {
			return nil, nil
		}
		sv, at := element(x, a[1])
		r := map[int]Val{}
		for k, v := range u.returns {
			r[k] = v
		}
		k := int(a[0].(*Term).v.Int64())
		if u.check {
			r[k] = &elementRet{sv, func(v Val) *Term { return x.c.Le(x.c.zero, index(x, sv, v)) }}
		} else {
			i := x.c.Var("element", bi(0), maxLen)
			x.assume(st, x.c.Lt(i, sv.len))
			r[k] = at(i)
		}
		u.returns = r
		return nil, nil
	})
	reg("Ghost", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		st.ghost[x.cstr(st, a[0])] = unwrapIface(a[1])
		return nil, nil
	})
	quant := func(all bool) Intrinsic {
		return func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
			c := x.c
			lo, hi := x.conc(st, a[0].(*Term)), x.conc(st, a[1].(*Term))
			if lo.op == OConst && hi.op == OConst {
				d := new(big.Int).Sub(hi.v, lo.v)
				if d.Sign() <= 0 {
					return c.Bool(all), nil
				}
				if d.Cmp(bi(16)) <= 0 {
					var ts []*Term
					for i := int64(0); i < d.Int64(); i++ {
						ts = append(ts, x.evalBool(st, a[2], c.AddI(lo, i)))
					}
					if all {
						return c.And(ts...), nil
					}
					return c.Or(ts...), nil
				}
			}
			x.qdepth++
			defer func() { x.qdepth-- }()
			j := c.CanonVar(fmt.Sprintf("q%d", x.qdepth))
			s := st.fork()
			x.setBnd(s, j, lowerOf(x, st, lo), upperOf(x, st, hi))
			body := x.evalBool(s, a[2], j)
			if all {
				return c.Forall(j, lo, hi, body), nil
			}
			return c.Exists(j, lo, hi, body), nil
		}
	}
	reg("Forall", quant(true))
	reg("Exists", quant(false))
	// Cases(n, lo, hi): one case per value of n when the contract is verified
	reg("Cases", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		c := x.c
		n := x.conc(st, a[0].(*Term))
		fr := useFrame(st)
		if n.op == OConst || fr.use != nil && !fr.use.check {
			return n, nil
		}
		lo, hi := a[1].(*Term).v.Int64(), a[2].(*Term).v.Int64()
		x.oblige(st, "cases are exhaustive", ci.Pos(), c.And(c.Le(c.Int(lo), n), c.Le(n, c.Int(hi))))
		var out []*State
		for k := lo; k <= hi; k++ {
			s := st.fork()
			x.assume(s, c.Eq(n, c.Int(k)))
			if s.stop != "" {
				continue
			}
			s.trace = append(s.trace, fmt.Sprintf("%d", k))
			x.setRes(s, ci.Value(), c.Int(k))
			out = append(out, s)
		}
		if out == nil {
			st.stop = "dead"
			return nil, nil
		}
		return nil, out
	})
	// Build(n, f): the n bytes f(0) .. f(n-1)
	reg("Build", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		c := x.c
		n := x.conc(st, a[0].(*Term))
		if n.op == OConst && n.v.Cmp(bi(16)) <= 0 {
			var xs []*Term
			for i := int64(0); i < n.v.Int64(); i++ {
				xs = append(xs, x.evalPure(st, a[1], []Val{c.Int(i)}).(*Term))
			}
			return x.newBytes(st, "build", c.ALit(xs), n), nil
		}
		x.qdepth++
		defer func() { x.qdepth-- }()
		j := c.CanonVar(fmt.Sprintf("q%d", x.qdepth))
		s := st.fork()
		x.setBnd(s, j, bi(0), upperOf(x, st, n))
		body := x.evalPure(s, a[1], []Val{j}).(*Term)
		return x.newBytes(st, "build", c.ALam(j, body), n), nil
	})
	// Frozen(s): a copy of the slice s
	reg("Frozen", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		iv := a[0].(*IfaceV)
		sv, ok := iv.val.(*SliceV)
		if !ok {
			x.fail("vc.Frozen of %T", iv.val)
		}
		if sv.obj == nil {
			return a[0], nil
		}
		o := x.alloc(st, "frozen", nil, x.sliceArr(st, sv))
		o.imm = true
		n := *sv
		n.obj, n.path = o, nil
		w := *iv
		w.val = &n
		return &w, nil
	})
	// Byte(v, k): byte k of v, counted from the least significant
	reg("Byte", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		return x.c.Dig(x.bigv(st, a[0], ci.Pos()), x.conc(st, a[1].(*Term))), nil
	})
	// uninterpreted keccak
	reg("Keccak", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		arr, off, n := x.bytesOf(st, a[0].(*SliceV))
		return x.keccakArr(st, arr, off, n), nil
	})
	// the group operations of secp256k1, uninterpreted
	secp := func(name string, n int) {
		reg(name, func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
			var ts []*Term
			for _, v := range a[:n] {
				ts = append(ts, x.conc(st, x.bigv(st, v, ci.Pos())))
			}
			if st.stop != "" {
				return nil, nil
			}
			if name == "SecpAdd" { // commutes
				o := []*Term{ts[2], ts[3], ts[0], ts[1]}
				for _, xy := range []string{".x", ".y"} {
					x.assume(st, x.c.Eq(x.c.App(name+xy, bi(0), secpP, ts...), x.c.App(name+xy, bi(0), secpP, o...)))
				}
			} else { // scalars count modulo the order
				ts[0] = x.c.Mod(x.c.congNormalize(ts[0], secpN), x.c.Big(secpN), x.bf(st))
			}
			return TupleV{
				x.newBig(st, x.c.App(name+".x", bi(0), secpP, ts...)),
				x.newBig(st, x.c.App(name+".y", bi(0), secpP, ts...)),
			}, nil
		})
	}
	secp("SecpAdd", 4)
	secp("SecpMul", 3)
	secp("SecpBase", 1)
	reg("SecpOn", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		px, py := x.bigv(st, a[0], ci.Pos()), x.bigv(st, a[1], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		return x.c.BApp("SecpOn", x.conc(st, px), x.conc(st, py)), nil
	})
	reg("SecpLift", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		px := x.bigv(st, a[0], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		px = x.conc(st, px)
		v := x.conc(st, a[1].(*Term))
		return TupleV{x.newBig(st, x.c.App("SecpLift", bi(0), secpP, px, v)), x.c.BApp("SecpLift.ok", px, v)}, nil
	})
	reg("Same", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		// pointer / slice identity
		return x.same(st, unwrapIface(a[0]), unwrapIface(a[1])), nil
	})
	reg("Fresh", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		// memory of the slice/pointer did not exist before the call
		u := useFrame(st).use
		_ = u
		x.fail("vc.Fresh in closure only")
		return nil, nil
	})
}

func lowerOf(x *Exec, st *State, t *Term) *big.Int { l, _ := x.bounds(st, t); return l }
func upperOf(x *Exec, st *State, t *Term) *big.Int {
	_, h := x.bounds(st, t)
	if h == nil {
		return nil
	}
	return new(big.Int).Sub(h, bi(1))
}

func callerPos(st *State) token.Pos {
	n := len(st.frames)
	for n > 1 && st.frames[n-1].use == nil {
		n--
	}
	if n >= 2 {
		f := st.frames[n-2]
		if f.idx > 0 && f.idx <= len(f.block.Instrs) {
			return f.block.Instrs[f.idx-1].Pos()
		}
	}
	return 0
}

func (x *Exec) known(id string) {
	if x.dry == 0 && x.pure == 0 {
		x.knownIDs[id] = true
	}
}

func (x *Exec) obligeSplit(st *State, name string, pos token.Pos, t *Term) {
	if t.op == OAnd && len(t.a) <= 300 {
		if x.fieldAbs {
			// bounds of words together
			var fs, bs []*Term
			for _, y := range t.a {
				if x.c.hasField(y) {
					fs = append(fs, y)
				} else {
					bs = append(bs, y)
				}
			}
			for i, y := range fs {
				x.oblige(st, fmt.Sprintf("%s#%d", name, i), pos, y)
			}
			if len(bs) > 0 {
				x.oblige(st, name+"#words", pos, x.c.And(bs...))
			}
			return
		}
		for i, y := range t.a {
			x.oblige(st, fmt.Sprintf("%s#%d", name, i), pos, y)
		}
		return
	}
	x.oblige(st, name, pos, t)
}

func (x *Exec) same(st *State, a, b Val) *Term {
	switch av := a.(type) {
	case *PtrV:
		return x.eq(st, a, b)
	case *SliceV:
		bv := b.(*SliceV)
		if av.obj != bv.obj {
			return x.c.fls
		}
		return x.c.And(x.c.Eq(av.off, bv.off), x.c.Eq(av.len, bv.len))
	}
	return x.eq(st, a, b)
}

// keccakArr: result [32]byte as digits of an uninterpreted 256-bit value
func (x *Exec) keccakArr(st *State, arr, off, n *Term) Val {
	c := x.c
	n = x.conc(st, n)
	off = x.conc(st, off)
	if n.op == OConst && n.v.Cmp(bi(400)) <= 0 {
		xs := x.sel(st, arr, off, int(n.v.Int64()))
		arr, off = c.ALit(xs), c.zero
	}
	h := c.App("keccak256", bi(0), new(big.Int).Sub(pow2(256), bi(1)), arr, off, n)
	xs := make([]*Term, 32)
	for i := range xs {
		xs[i] = c.Mod(c.Div(h, c.Big(pow2(uint(8*(31-i)))), nil), c.Int(256), nil)
	}
	return &ArrV{elem: types.Typ[types.Byte], n: c.Int(32), arr: c.ALit(xs)}
}

// ---- math/big

func (x *Exec) bigv(st *State, v Val, pos token.Pos) *Term {
	p := x.ptr(st, v, pos)
	if st.stop != "" {
		return x.c.zero
	}
	b, ok := x.load(st, p).(*BigV)
	if !ok {
		x.fail("not a big.Int: %T", x.load(st, p))
	}
	return b.t
}

func (x *Exec) setBig(st *State, v Val, t *Term, pos token.Pos) Val {
	p := x.ptr(st, v, pos)
	if st.stop != "" {
		return v
	}
	x.store(st, p, &BigV{t})
	return v
}

func (x *Exec) newBig(st *State, t *Term) Val {
	o := x.alloc(st, "big", x.prog.bigInt, &BigV{t})
	return &PtrV{obj: o}
}

func (c *Ctx) Abs(st *State, x *Exec, t *Term) *Term {
	l, h := x.bounds(st, t)
	if l != nil && l.Sign() >= 0 {
		return t
	}
	if h != nil && h.Sign() <= 0 {
		return c.Neg(t)
	}
	return c.Ite(c.Ge(t, c.zero), t, c.Neg(t))
}

// Dig: i-th base-256 digit (least significant first)
func (c *Ctx) Dig(t, i *Term) *Term {
	if i.op == OConst {
		if i.v.Sign() < 0 {
			return c.zero
		}
		if i.v.Cmp(bi(4096)) < 0 {
			return c.Mod(c.Div(t, c.Big(pow2(uint(8*i.v.Int64()))), nil), c.Int(256), nil)
		}
	}
	return c.App("dig", bi(0), bi(255), t, i)
}

func init() {
	extraAxioms["dig"] = func(c *Ctx, t *Term) []*Term {
		v, i := t.a[0], t.a[1]
		var ax []*Term
		bl := c.App("bytelen", bi(0), maxLen, v)
		ax = append(ax,
			c.Implies(c.And(c.Ge(v, c.zero), c.Ge(i, bl)), c.Eq(t, c.zero)),
			c.Implies(c.And(c.Ge(v, c.one), c.Eq(i, c.AddI(bl, -1))), c.Ge(t, c.one)))
		if v.op == OApp && v.name == "BE" {
			n := v.a[2]
			ax = append(ax, c.Implies(c.And(c.Ge(i, c.zero), c.Lt(i, n)),
				c.Eq(t, c.Select(v.a[0], c.Add(v.a[1], c.Sub(c.AddI(n, -1), i)), nil))))
		}
		return ax
	}
	extraPair["dig"] = func(c *Ctx, a, b *Term) []*Term {
		if a.a[0] != b.a[0] {
			return nil
		}
		return []*Term{c.Implies(c.Eq(a.a[1], b.a[1]), c.Eq(a, b))}
	}
}

// bytesOfBig gives minimal big-endian bytes of |t|
func (x *Exec) bigBytes(st *State, t *Term) (arr, n *Term) {
	c := x.c
	t = x.conc(st, t)
	if t.op == OConst {
		b := t.v.Bytes()
		return c.ABytes(b), c.Int(int64(len(b)))
	}
	a := c.Abs(st, x, t)
	l, h := x.bounds(st, a)
	if l != nil && h != nil && (l.BitLen()+7)/8 == (h.BitLen()+7)/8 && h.BitLen() <= 1024 {
		k := (h.BitLen() + 7) / 8
		xs := make([]*Term, k)
		for i := range xs {
			xs[i] = c.Dig(a, c.Int(int64(k-1-i)))
		}
		return c.ALit(xs), c.Int(int64(k))
	}
	var nl, nh *big.Int
	nl = bi(0)
	if l != nil && l.Sign() > 0 {
		nl = bi(int64((l.BitLen() + 7) / 8))
	}
	if h != nil {
		nh = bi(int64((h.BitLen() + 7) / 8))
	}
	n = c.App("bytelen", bi(0), maxLen, a)
	x.setBnd(st, n, nl, nh)
	if !n.bound && nh != nil {
		st.pc = append(st.pc, c.Le(n, c.Big(nh)), c.Ge(n, c.Big(nl)))
	}
	v := c.CanonVar("d")
	return c.ALam(v, c.Dig(a, c.Sub(c.AddI(n, -1), v))), n
}

// digitLam recognises an array whose element j is dig(t, k-j)
func digitLam(c *Ctx, a *Term) (t, k *Term, ok bool) {
	if a.op != OALam || a.a[1].op != OApp || a.a[1].name != "dig" {
		return nil, nil, false
	}
	v, b := a.a[0], a.a[1]
	k = c.Add(b.a[1], v)
	if k.bound || b.a[0].bound {
		return nil, nil, false
	}
	return b.a[0], k, true
}

// beTerm: big-endian value of n bytes of arr at off
func (x *Exec) beTerm(st *State, arr, off, n *Term) *Term {
	c := x.c
	n, off = x.conc(st, n), x.conc(st, off)
	if t, k, ok := digitLam(c, arr); ok {
		// lowest digit index k-(off+n-1), highest k-off
		low := c.Sub(k, c.AddI(c.Add(off, n), -1))
		if low == c.zero || x.decide(st, c.Eq(low, c.zero)) == 1 {
			bl := c.App("bytelen", bi(0), maxLen, t)
			if n == bl || x.decide(st, c.Ge(n, bl)) == 1 {
				return t
			}
		}
	}
	if n.op == OConst && n.v.Cmp(bi(130)) <= 0 {
		k := int(n.v.Int64())
		xs := x.sel(st, arr, off, k)
		r := c.zero
		for i, b := range xs {
			r = c.Add(r, c.Scale(b, pow2(uint(8*(k-1-i)))))
		}
		if k == 0 {
			return c.zero
		}
		return r
	}
	// zero prefix: copy at the end of a zero array
	if arr.op == OACopy && off == c.zero {
		d, do, s, so, m := arr.a[0], arr.a[1], arr.a[2], arr.a[3], arr.a[4]
		if allZero(d) && x.decide(st, c.Eq(c.Add(do, m), n)) == 1 {
			return x.beTerm(st, s, so, m)
		}
	}
	return c.App("BE", bi(0), nil, arr, off, n)
}

func allZero(d *Term) bool {
	switch d.op {
	case OAConst:
		return d.a[0].op == OConst && d.a[0].v.Sign() == 0
	case OALit:
		for _, y := range d.a {
			if y.op != OConst || y.v.Sign() != 0 {
				return false
			}
		}
		return true
	}
	return false
}

func bigIntr() {
	const B = "(*math/big.Int)."
	reg := func(name string, f Intrinsic) { intrinsics[B+name] = f }
	intrinsics["math/big.NewInt"] = func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		return x.newBig(st, a[0].(*Term)), nil
	}
	set1 := func(f func(x *Exec, st *State, a *Term) *Term) Intrinsic {
		return func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
			t := x.bigv(st, a[1], ci.Pos())
			if st.stop != "" {
				return nil, nil
			}
			return x.setBig(st, a[0], f(x, st, t), ci.Pos()), nil
		}
	}
	set2 := func(f func(x *Exec, st *State, a, b *Term) *Term) Intrinsic {
		return func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
			t := x.bigv(st, a[1], ci.Pos())
			if st.stop != "" {
				return nil, nil
			}
			u := x.bigv(st, a[2], ci.Pos())
			if st.stop != "" {
				return nil, nil
			}
			r := f(x, st, t, u)
			if st.stop != "" {
				return nil, nil
			}
			return x.setBig(st, a[0], r, ci.Pos()), nil
		}
	}
	q := func(f func(x *Exec, st *State, a *Term) Val) Intrinsic {
		return func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
			t := x.bigv(st, a[0], ci.Pos())
			if st.stop != "" {
				return nil, nil
			}
			return f(x, st, t), nil
		}
	}
	reg("SetInt64", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		return x.setBig(st, a[0], a[1].(*Term), ci.Pos()), nil
	})
	reg("SetUint64", intrinsics[B+"SetInt64"])
	reg("Set", set1(func(x *Exec, st *State, a *Term) *Term { return a }))
	reg("Neg", set1(func(x *Exec, st *State, a *Term) *Term { return x.c.Neg(a) }))
	reg("Abs", set1(func(x *Exec, st *State, a *Term) *Term { return x.c.Abs(st, x, a) }))
	reg("Not", set1(func(x *Exec, st *State, a *Term) *Term { return x.c.AddI(x.c.Neg(a), -1) }))
	reg("Add", set2(func(x *Exec, st *State, a, b *Term) *Term { return x.c.Add(a, b) }))
	reg("Sub", set2(func(x *Exec, st *State, a, b *Term) *Term { return x.c.Sub(a, b) }))
	reg("Mul", set2(func(x *Exec, st *State, a, b *Term) *Term { return x.c.Mul(x.conc(st, a), x.conc(st, b)) }))
	nz := func(x *Exec, st *State, b *Term) {
		if x.pure == 0 {
			x.oblige(st, "big division by zero in "+x.fnName(st), 0, x.c.Ne(b, x.c.zero))
		}
	}
	// Euclidean
	reg("Div", set2(func(x *Exec, st *State, a, b *Term) *Term {
		nz(x, st, b)
		return x.euclid(st, a, b, true)
	}))
	reg("Mod", set2(func(x *Exec, st *State, a, b *Term) *Term {
		nz(x, st, b)
		return x.euclid(st, a, b, false)
	}))
	reg("Quo", set2(func(x *Exec, st *State, a, b *Term) *Term {
		nz(x, st, b)
		qq, _ := x.truncDiv(st, a, b)
		return qq
	}))
	reg("Rem", set2(func(x *Exec, st *State, a, b *Term) *Term {
		nz(x, st, b)
		_, r := x.truncDiv(st, a, b)
		return r
	}))
	divmod := func(trunc bool) Intrinsic {
		return func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
			t := x.bigv(st, a[1], ci.Pos())
			if st.stop != "" {
				return nil, nil
			}
			u := x.bigv(st, a[2], ci.Pos())
			if st.stop != "" {
				return nil, nil
			}
			nz(x, st, u)
			if st.stop != "" {
				return nil, nil
			}
			var d, m *Term
			if trunc {
				d, m = x.truncDiv(st, t, u)
			} else {
				d, m = x.euclid(st, t, u, true), x.euclid(st, t, u, false)
			}
			x.setBig(st, a[0], d, ci.Pos())
			if st.stop == "" {
				x.setBig(st, a[3], m, ci.Pos())
			}
			return TupleV{a[0], a[3]}, nil
		}
	}
	reg("DivMod", divmod(false))
	reg("QuoRem", divmod(true))
	reg("Cmp", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		t := x.bigv(st, a[0], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		u := x.bigv(st, a[1], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		return x.cmp3(st, t, u), nil
	})
	reg("CmpAbs", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		t := x.bigv(st, a[0], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		u := x.bigv(st, a[1], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		return x.cmp3(st, x.c.Abs(st, x, t), x.c.Abs(st, x, u)), nil
	})
	reg("Sign", q(func(x *Exec, st *State, a *Term) Val { return x.cmp3(st, a, x.c.zero) }))
	reg("IsInt64", q(func(x *Exec, st *State, a *Term) Val {
		lo, hi := typeBounds(64, true)
		return x.c.And(x.c.Le(x.c.Big(lo), a), x.c.Le(a, x.c.Big(hi)))
	}))
	reg("IsUint64", q(func(x *Exec, st *State, a *Term) Val {
		lo, hi := typeBounds(64, false)
		return x.c.And(x.c.Le(x.c.Big(lo), a), x.c.Le(a, x.c.Big(hi)))
	}))
	reg("Int64", q(func(x *Exec, st *State, a *Term) Val { return x.wrap(st, a, types.Typ[types.Int64]) }))
	reg("Uint64", q(func(x *Exec, st *State, a *Term) Val {
		return x.wrap(st, x.c.Abs(st, x, a), types.Typ[types.Uint64])
	}))
	reg("Bytes", q(func(x *Exec, st *State, a *Term) Val {
		arr, n := x.bigBytes(st, a)
		return x.newBytes(st, "bigbytes", arr, n)
	}))
	reg("BitLen", q(func(x *Exec, st *State, a *Term) Val {
		c := x.c
		a = x.conc(st, a)
		if a.op == OConst {
			return c.Int(int64(a.v.BitLen()))
		}
		ab := c.Abs(st, x, a)
		n := c.App("bitlen", bi(0), nil, ab)
		l, h := x.bounds(st, ab)
		nl := bi(0)
		if l != nil && l.Sign() > 0 {
			nl = bi(int64(l.BitLen()))
		}
		nh := maxLen
		if h != nil {
			nh = bi(int64(h.BitLen()))
		}
		x.setBnd(st, n, nl, nh)
		if !n.bound {
			st.pc = append(st.pc, c.Le(n, c.Big(nh)), c.Ge(n, c.Big(nl)))
		}
		return n
	}))
	reg("Bit", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		t := x.bigv(st, a[0], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		i := x.conc(st, a[1].(*Term))
		if i.op != OConst {
			x.fail("big.Bit symbolic index")
		}
		c := x.c
		return c.Mod(c.Div(t, c.Big(pow2(uint(i.v.Int64()))), x.bf(st)), c.Int(2), x.bf(st)), nil
	})
	reg("SetBytes", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		arr, off, n := x.bytesOf(st, a[1].(*SliceV))
		return x.setBig(st, a[0], x.beTerm(st, arr, off, n), ci.Pos()), nil
	})
	reg("FillBytes", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		t := x.bigv(st, a[0], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		s := a[1].(*SliceV)
		n := x.conc(st, s.len)
		if n.op != OConst {
			x.fail("FillBytes symbolic length")
		}
		c := x.c
		t = c.Abs(st, x, t)
		x.oblige(st, "FillBytes fits in "+x.fnName(st), ci.Pos(), c.Lt(t, c.Pow256(n)))
		k := int(n.v.Int64())
		xs, sum := make([]*Term, k), c.zero
		for i := range xs {
			xs[i] = c.Dig(t, c.Int(int64(k-1-i)))
			sum = c.Add(sum, c.Scale(xs[i], pow2(uint(8*(k-1-i)))))
		}
		x.assume(st, c.Eq(sum, t))
		tmp := x.newBytes(st, "fb", c.ALit(xs), n)
		x.copyBuiltin(st, []Val{s, tmp})
		return s, nil
	})
	reg("Lsh", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		t := x.bigv(st, a[1], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		s := x.conc(st, a[2].(*Term))
		return x.setBig(st, a[0], x.c.Mul(t, x.pow2T(st, s)), ci.Pos()), nil
	})
	reg("Rsh", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		t := x.bigv(st, a[1], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		s := x.conc(st, a[2].(*Term))
		// two's complement: floor
		return x.setBig(st, a[0], x.c.Div(t, x.pow2T(st, s), x.bf(st)), ci.Pos()), nil
	})
	reg("And", set2(func(x *Exec, st *State, a, b *Term) *Term {
		c := x.c
		a, b = x.conc(st, a), x.conc(st, b)
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if a.op == OConst {
				return c.Big(new(big.Int).And(a.v, b.v))
			}
			m := new(big.Int).Add(b.v, bi(1))
			if b.v.Sign() >= 0 && m.BitLen()-1 == int(m.TrailingZeroBits()) {
				return c.Mod(a, c.Big(m), x.bf(st))
			}
		}
		x.fail("big.And")
		return nil
	}))
	reg("Or", set2(func(x *Exec, st *State, a, b *Term) *Term {
		a, b = x.conc(st, a), x.conc(st, b)
		if a.op == OConst && b.op == OConst {
			return x.c.Big(new(big.Int).Or(a.v, b.v))
		}
		x.fail("big.Or")
		return nil
	}))
	reg("Exp", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		c := x.c
		b, e := x.bigv(st, a[1], ci.Pos()), x.bigv(st, a[2], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		m := c.zero
		if p, ok := a[3].(*PtrV); ok && p.obj != nil {
			m = x.bigv(st, a[3], ci.Pos())
		}
		b, e, m = x.conc(st, b), x.conc(st, e), x.conc(st, m)
		if b.op == OConst && e.op == OConst && m.op == OConst {
			return x.setBig(st, a[0], c.Big(new(big.Int).Exp(b.v, e.v, m.v)), ci.Pos()), nil
		}
		if b.op == OConst && b.v.Cmp(bi(2)) == 0 && m == c.zero {
			return x.setBig(st, a[0], x.pow2T(st, e), ci.Pos()), nil
		}
		var lo *big.Int // a power of a positive number is positive (1 for a negative exponent)
		if b.op == OConst && b.v.Sign() > 0 && m == c.zero {
			lo = bi(1)
		}
		return x.setBig(st, a[0], c.App("expmod", lo, nil, b, e, m), ci.Pos()), nil
	})
	reg("ModInverse", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		c := x.c
		g, n := x.bigv(st, a[1], ci.Pos()), x.bigv(st, a[2], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		g, n = x.conc(st, g), x.conc(st, n)
		if g.op == OConst && n.op == OConst {
			r := new(big.Int).ModInverse(g.v, n.v)
			if r == nil {
				x.fail("ModInverse of non-invertible")
			}
			return x.setBig(st, a[0], c.Big(r), ci.Pos()), nil
		}
		return x.setBig(st, a[0], c.App("modinv", bi(0), nil, g, n), ci.Pos()), nil
	})
	reg("SetString", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		c := x.c
		s := a[1].(*StrV)
		base := x.conc(st, a[2].(*Term))
		if cs, ok := x.constStr(st, s); ok && base.op == OConst {
			r, ok := new(big.Int).SetString(cs, int(base.v.Int64()))
			if !ok {
				return TupleV{&PtrV{}, c.fls}, nil
			}
			return TupleV{x.setBig(st, a[0], c.Big(r), ci.Pos()), c.tru}, nil
		}
		okT := c.BApp("setstr.ok", s.arr, s.off, s.len, base)
		val := c.App("setstr", nil, nil, s.arr, s.off, s.len, base)
		p := a[0].(*PtrV)
		x.setBig(st, a[0], val, ci.Pos())
		r := *p
		r.isnil = c.Not(okT)
		return TupleV{&r, okT}, nil
	})
	reg("UnmarshalText", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		c := x.c
		arr, off, n := x.bytesOf(st, a[1].(*SliceV))
		okT := c.BApp("setstr.ok", arr, off, n, c.zero)
		val := c.App("setstr", nil, nil, arr, off, n, c.zero)
		old := x.bigv(st, a[0], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		_ = old
		x.setBig(st, a[0], c.Ite(okT, val, c.Var("bigundef", nil, nil)), ci.Pos())
		ev := x.newErr(st, "unmarshaltext").(*IfaceV)
		return &IfaceV{id: ev.id, isnil: okT, ityp: ev.ityp}, nil
	})
	text := func(base int) func(x *Exec, st *State, a *Term, b *Term) Val {
		return func(x *Exec, st *State, a *Term, b *Term) Val {
			a = x.conc(st, a)
			if a.op == OConst && b.op == OConst {
				return x.strConst(a.v.Text(int(b.v.Int64())))
			}
			n := x.c.App("text.len", bi(1), maxLen, a, b)
			v := x.c.CanonVar("tx")
			return &StrV{x.c.ALam(v, x.c.App("text.at", bi(0), bi(255), a, b, v)), x.c.zero, n}
		}
	}
	reg("Text", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		t := x.bigv(st, a[0], ci.Pos())
		if st.stop != "" {
			return nil, nil
		}
		return text(0)(x, st, t, x.conc(st, a[1].(*Term))), nil
	})
	reg("String", q(func(x *Exec, st *State, a *Term) Val { return text(0)(x, st, a, x.c.Int(10)) }))
}

// cmp3 = three-way comparison
func (x *Exec) cmp3(st *State, a, b *Term) *Term {
	c := x.c
	a, b = x.conc2(st, a), x.conc2(st, b)
	lt, gt := c.Lt(a, b), c.Lt(b, a)
	switch {
	case x.decide(st, lt) == 1:
		return c.Int(-1)
	case x.decide(st, gt) == 1:
		return c.one
	}
	return c.Ite(lt, c.Int(-1), c.Ite(gt, c.one, c.zero))
}

func (x *Exec) euclid(st *State, a, b *Term, div bool) *Term {
	c := x.c
	a, b = x.conc(st, a), x.conc(st, b)
	if div {
		return c.Div(a, b, x.bf(st))
	}
	return c.Mod(a, b, x.bf(st))
}

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }
