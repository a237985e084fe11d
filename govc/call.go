package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vcPath = "github.com/philhofer/seth/internal/vc"

// intrinsic: returns states; nil,nil = single continuing state with value r
type Intrinsic func(x *Exec, st *State, call ssa.CallInstruction, args []Val) (Val, []*State)

var intrinsics = map[string]Intrinsic{}

func (x *Exec) callee(st *State, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if cc.IsInvoke() {
		recv := x.get(st, cc.Value)
		for _, a := range cc.Args {
			args = append(args, x.get(st, a))
		}
		iv, ok := recv.(*IfaceV)
		if !ok {
			x.fail("invoke on %T", recv)
		}
		if iv.typ != nil {
			m := x.prog.prog.LookupMethod(iv.typ, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				x.fail("no method %s on %s", cc.Method.Name(), iv.typ)
			}
			return &FuncV{fn: m}, append([]Val{iv.val}, args...)
		}
		return &FuncV{name: "invoke:" + cc.Method.FullName()}, append([]Val{iv}, args...)
	}
	fn := x.get(st, cc.Value)
	for _, a := range cc.Args {
		args = append(args, x.get(st, a))
	}
	return fn, args
}

func (x *Exec) call(st *State, in *ssa.Call) []*State {
	fn, args := x.callee(st, &in.Call)
	return x.callValue(st, in, in, fn, args)
}

// finish assigns result and returns nil to continue
func (x *Exec) setRes(st *State, in *ssa.Call, v Val) {
	if in != nil && v != nil {
		st.top().regs[in] = v
	}
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.RelString(nil)
	}
	return fn.RelString(nil)
}

func (x *Exec) callValue(st *State, in *ssa.Call, ci ssa.CallInstruction, fv Val, args []Val) []*State {
	f, ok := fv.(*FuncV)
	if !ok {
		x.fail("call of %T", fv)
	}
	if f.fn == nil && f.name == "" {
		x.obligeFail(st, "nil-func-call in "+st.top().fn.RelString(nil), ci.Pos(), "call of nil function")
		return []*State{st}
	}
	if strings.HasPrefix(f.name, "builtin:") {
		v, more := x.builtin(st, ci, f.name[8:], args)
		if more != nil {
			return more
		}
		if st.stop != "" {
			return []*State{st}
		}
		x.setRes(st, in, v)
		return nil
	}
	var key string
	if f.fn != nil {
		key = fnKey(f.fn)
	} else {
		key = f.name
	}
	// contract marker: harness frame calling its function
	fr := st.top()
	if fr.use != nil && f.fn != nil && f.fn == fr.use.fn && !fr.use.called {
		fr.use.called = true
		if fr.use.check {
			return x.checkCall(st, in, f.fn, args)
		}
		return x.havocCall(st, in, f.fn, args)
	}
	switch key {
	case vcPath + ".Exits":
		g, ok := args[0].(*FuncV)
		if !ok || g.fn == nil {
			x.fail("vc.Exits of an unknown function")
		}
		nf := x.pushFrame(st, g.fn, nil, g.binds, in)
		nf.exits = true
		nf.onRet = func(*State, Val) Val { return x.c.fls }
		return nil
	case "os.Exit":
		return x.osExit(st)
	}
	if h, ok := intrinsics[key]; ok && !x.opaqueOff(key) {
		x.trusted[key] = true
		return x.runIntrinsic(st, in, ci, h, args)
	}
	if i := strings.Index(key, "["); i > 0 {
		if h, ok := intrinsics[key[:i]]; ok {
			return x.runIntrinsic(st, in, ci, h, args)
		}
	}
	if f.fn == nil {
		if h := x.opaqueInvoke(st, in, ci, f.name, args); h != nil {
			return h(st)
		}
		x.fail("call of opaque function %s", f.name)
	}
	fn := f.fn
	// contract
	if c := x.prog.contracts[fn]; c != nil && x.useContract(st, fn, c) {
		x.usedC[fn.RelString(nil)] = true
		if h := x.prog.byFn[c]; h != nil && h.kind == "VB" {
			x.trusted["contract assumed (checked by bounded execution only): "+key] = true
		} else {
			x.usedFn[x.prog.contracts[fn]] = true
		}
		nf := x.pushFrame(st, c, args, nil, in)
		nf.use = &useCtx{fn: fn, returns: map[int]Val{}, name: c.Name()}
		return nil
	}
	if len(fn.Blocks) == 0 {
		x.fail("call of external function %s", key)
	}
	if !x.inlineOK(fn) {
		x.fail("call of %s: no contract, no model", key)
	}
	if x.fieldAbs && x.prog.isSpec(fn) && fn.Name() == "vcVal" {
		x.setRes(st, in, x.fieldVal(st, args[0]))
		return nil
	}
	if x.fieldAbs && x.prog.isSpec(fn) && x.prog.byFn[fn] == nil && fn.Parent() == nil && boolResult(fn) {
		x.setRes(st, in, x.evalPure(st, &FuncV{fn: fn}, args))
		return nil
	}
	if x.prog.opaque[fn] && (x.pure > 0 || x.prog.abstract[fn]) {
		if v := x.opaqueSpec(st, fn, args); v != nil {
			x.setRes(st, in, v)
			return nil
		}
	}
	if x.recursing(st, fn) {
		x.fail("recursive call of %s without contract", key)
	}
	if x.prog.isRepo(fn) && !x.prog.isSpec(fn) {
		x.inlined[fn.RelString(nil)] = true
	} else if !x.prog.isSpec(fn) {
		x.trusted["inlined dependency source: "+key] = true
	}
	x.pushFrame(st, fn, args, f.binds, in)
	return nil
}

func (x *Exec) runIntrinsic(st *State, in *ssa.Call, ci ssa.CallInstruction, h Intrinsic, args []Val) []*State {
	v, more := h(x, st, ci, args)
	if more != nil {
		return more
	}
	if st.stop != "" {
		return []*State{st}
	}
	x.setRes(st, in, v)
	return nil
}

func (x *Exec) opaqueOff(key string) bool { return x.opts["nointr:"+key] != "" }

func (x *Exec) useContract(st *State, fn, c *ssa.Function) bool {
	if x.opts["inline:"+fn.Name()] != "" {
		return false
	}
	if fn == x.target {
		// recursive call of the function under contract: use contract
		// (only once the checked call is active)
		for _, f := range st.frames {
			if f.use != nil && f.use.check && f.use.called {
				return true
			}
		}
		return false
	}
	return true
}

func (x *Exec) recursing(st *State, fn *ssa.Function) bool {
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if x.prog.isSpec(fn) {
		return n > 64
	}
	return n > 3
}

func (x *Exec) inlineOK(fn *ssa.Function) bool {
	if x.prog.isRepo(fn) || x.prog.isSpec(fn) {
		return true
	}
	if fn.Synthetic != "" {
		return true
	}
	if fn.Pkg == nil {
		return true // wrappers, generics
	}
	switch fn.Pkg.Pkg.Path() {
	case "encoding/hex", "encoding/binary", "math/bits", "internal/byteorder", "sort", "slices", "cmp", "unicode/utf8", "strconv", "internal/strconv", "github.com/tinylib/msgp/msgp", "github.com/ethereum/go-ethereum/common":
		return true
	}
	return x.opts["inlinepkg:"+fn.Pkg.Pkg.Path()] != ""
}

func (x *Exec) pushFrame(st *State, fn *ssa.Function, args []Val, binds []Val, in *ssa.Call) *Frame {
	nf := &Frame{fn: fn, regs: map[ssa.Value]Val{}, block: fn.Blocks[0], iters: map[*ssa.BasicBlock]int{}, cut: map[*ssa.BasicBlock]int{}}
	if in != nil {
		nf.ret = in
	}
	if len(args) != len(fn.Params) {
		x.fail("arity of %s: %d args", fn, len(args))
	}
	for i, p := range fn.Params {
		nf.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		nf.regs[p] = binds[i]
	}
	nf.args = args
	st.frames = append(st.frames, nf)
	if len(st.frames) > 200 {
		x.fail("call depth")
	}
	return nf
}

// checkCall: the harness calls the function under contract: run the body.
func (x *Exec) checkCall(st *State, in *ssa.Call, fn *ssa.Function, args []Val) []*State {
	u := st.top().use
	u.old = map[*Obj]Val{}
	for k, v := range st.heap {
		u.old[k] = v
	}
	x.reachCheck(st)
	nf := x.pushFrame(st, fn, args, nil, in)
	depth := len(st.frames) - 1
	nf.onRet = func(s *State, rv Val) Val {
		hu := s.frames[depth-1].use
		x.frameCheck(s, hu, fn)
		x.checkOwn(s, hu, fn, rv)
		for i, w := range hu.returns {
			var g Val = rv
			if tv, ok := rv.(TupleV); ok {
				g = tv[i]
			}
			if e, ok := w.(*elementRet); ok {
				x.oblige(s, "returns["+itoa(i)+"] of "+fn.RelString(nil), fn.Pos(), e.is(g))
				continue
			}
			x.oblige(s, "returns["+itoa(i)+"] of "+fn.RelString(nil), fn.Pos(), x.eq(s, g, w))
		}
		return rv
	}
	return nil
}

// reachCheck records that the precondition is satisfiable.
func (x *Exec) reachCheck(st *State) {
	if x.dry > 0 || x.pure > 0 {
		return
	}
	x.reqSeen++
	if x.inc.feasible(st.pc, nil) {
		x.reqOK++
	}
}

// frameCheck: objects that existed before the call and are not declared
// modified must be unchanged.
func (x *Exec) frameCheck(st *State, u *useCtx, fn *ssa.Function) {
	if u.anyMod || x.opts["noframe"] != "" {
		return
	}
	c := x.c
	for o, ov := range u.old {
		nv, ok := st.heap[o]
		if !ok || sameVal(nv, ov) {
			continue
		}
		// covered?
		whole := false
		var ranges [][2]*Term // [off, off+cap)
		for _, m := range u.modifies {
			switch mv := m.(type) {
			case *PtrV:
				if mv.obj == o && len(mv.path) == 0 {
					whole = true
				}
				if mv.obj == o && len(mv.path) > 0 {
					ov = x.storePath(st, ov, mv.path, x.loadPath(st, nv, mv.path))
				}
			case *SliceV:
				if mv.obj == o && len(mv.path) == 0 {
					ranges = append(ranges, [2]*Term{mv.off, c.Add(mv.off, mv.len)})
				} else if mv.obj == o {
					ov = x.storePath(st, ov, mv.path, x.loadPath(st, nv, mv.path))
				}
			case *MapV:
				if mv.obj == o {
					whole = true
				}
			}
		}
		if whole {
			continue
		}
		x.frameEq(st, fn, o.name, ov, nv, ranges)
	}
}

func sameVal(a, b Val) bool {
	switch a.(type) {
	case TupleV:
		return false
	}
	return a == b
}

func (x *Exec) frameEq(st *State, fn *ssa.Function, name string, a, b Val, ranges [][2]*Term) {
	if sameVal(a, b) {
		return
	}
	c := x.c
	if av, ok := a.(*ArrV); ok {
		bv := b.(*ArrV)
		if av.dark || bv.dark {
			x.fail("frame of symbolic array of %s", av.elem)
		}
		if av.arr != nil && bv.arr != nil {
			if av.arr == bv.arr {
				return
			}
			j := c.BoundVar("fr")
			cond := []*Term{c.Eq(c.Select(av.arr, j, nil), c.Select(bv.arr, j, nil))}
			for _, r := range ranges {
				cond = append(cond, c.And(c.Le(r[0], j), c.Lt(j, r[1])))
			}
			n := av.n
			if m, _, ok := isFlatArr(av); ok {
				n = c.Scale(n, bi(m))
			}
			x.oblige(st, "frame: "+name+" unchanged by "+fn.RelString(nil), fn.Pos(), c.Forall(j, c.zero, n, c.Or(cond...)))
			return
		}
		if av.sub != nil && bv.sub != nil {
			for i := range av.sub {
				x.frameEq(st, fn, name, av.sub[i], bv.sub[i], ranges)
			}
			return
		}
		if len(av.elems) == len(bv.elems) {
			for i := range av.elems {
				var cond []*Term
				for _, r := range ranges {
					cond = append(cond, c.And(c.Le(r[0], c.Int(int64(i))), c.Lt(c.Int(int64(i)), r[1])))
				}
				if len(cond) > 0 && x.mustTrue(st, c.Or(cond...)) {
					continue
				}
				x.frameEq(st, fn, fmt.Sprintf("%s[%d]", name, i), av.elems[i], bv.elems[i], nil)
			}
			return
		}
	}
	if av, ok := a.(*StructV); ok {
		bv := b.(*StructV)
		for i := range av.f {
			x.frameEq(st, fn, fmt.Sprintf("%s.%d", name, i), av.f[i], bv.f[i], nil)
		}
		return
	}
	if av, ok := a.(*BigV); ok {
		x.oblige(st, "frame: "+name+" unchanged by "+fn.RelString(nil), fn.Pos(), c.Eq(av.t, b.(*BigV).t))
		return
	}
	if av, ok := a.(*SliceV); ok {
		bv := b.(*SliceV)
		if av.obj == bv.obj {
			x.oblige(st, "frame: "+name+" unchanged by "+fn.RelString(nil), fn.Pos(), c.And(c.Eq(av.off, bv.off), c.Eq(av.len, bv.len)))
			return
		}
		x.obligeFail(st, "frame: "+name+" unchanged by "+fn.RelString(nil), fn.Pos(), "slice header changed")
		return
	}
	x.oblige(st, "frame: "+name+" unchanged by "+fn.RelString(nil), fn.Pos(), x.eq(st, a, b))
}

// havocCall: contract in use: replace the call by arbitrary results.
func (x *Exec) havocCall(st *State, in *ssa.Call, fn *ssa.Function, args []Val) []*State {
	u := st.top().use
	x.checkAlias(st, in, u)
	if st.stop != "" {
		return []*State{st}
	}
	if h := x.prog.byFn[st.top().fn]; h != nil && h.opts["shares"] != "" {
		// every slice that is modified may or may not keep its memory
		n := 0
		for _, m := range u.modifies {
			if mv, ok := m.(*PtrV); ok && mv.obj != nil {
				x.slicesOf(x.load(st, mv), func(s *SliceV) *SliceV {
					if s.obj != nil {
						n++
					}
					return s
				})
			}
		}
		var sts []*State
		for mask := 0; mask < 1<<uint(n); mask++ {
			s := st
			if mask+1 < 1<<uint(n) {
				s = st.fork()
			}
			sts = append(sts, s)
		}
		for mask, s := range sts {
			x.havocWith(s, in, fn, args, mask)
		}
		if len(sts) > 1 {
			return sts
		}
		return nil
	}
	x.havocWith(st, in, fn, args, 0)
	return nil
}

// havocWith: one way in which a call may leave the memory it modifies
func (x *Exec) havocWith(st *State, in *ssa.Call, fn *ssa.Function, args []Val, mask int) {
	u := st.top().use
	for _, m := range u.modifies {
		switch mv := m.(type) {
		case *PtrV:
			if mv.obj == nil {
				continue
			}
			old := x.load(st, mv)
			var olds []*SliceV
			x.slicesOf(old, func(s *SliceV) *SliceV {
				keep := (*SliceV)(nil)
				if s.obj != nil {
					if mask&1 == 1 {
						keep = s
					}
					mask >>= 1
				}
				olds = append(olds, keep)
				return s
			})
			nv, i := x.havocLike(st, old, x.ptrElem(mv, old), "h."+fn.Name()), 0
			nv = x.slicesOf(nv, func(s *SliceV) *SliceV {
				o := olds[i]
				i++
				if o == nil {
					return s
				}
				x.assume(st, x.c.Le(s.cap, o.cap))
				return &SliceV{obj: o.obj, path: o.path, off: o.off, len: s.len, cap: s.cap, isnil: s.isnil}
			})
			x.store(st, mv, nv)
		case *SliceV:
			if mv.obj == nil {
				continue
			}
			a := x.sliceArr(st, mv)
			if a.arr != nil && !a.flt {
				x.noteWrite(mv.obj, mv.path)
				n := *a
				n.arr = x.c.Copy(a.arr, mv.off, x.c.AVar("h."+fn.Name(), a.arr.lo, a.arr.hi), mv.off, mv.len, x.bf(st))
				lo, hi := elemBounds(a.elem)
				_ = lo
				_ = hi
				st.heap[mv.obj] = x.storePath(st, st.heap[mv.obj], mv.path, &n)
			} else {
				x.noteWrite(mv.obj, mv.path)
				h := x.havocLike(st, a, nil, "h."+fn.Name())
				if ha, ok := h.(*ArrV); ok && a.sub != nil {
					h = x.copyArr(st, a, mv.off, ha, nil, mv.off, mv.len)
				}
				st.heap[mv.obj] = x.storePath(st, st.heap[mv.obj], mv.path, h)
			}
		case *MapV:
			if mv.obj != nil {
				x.noteWrite(mv.obj, nil)
				st.heap[mv.obj] = &MapC{base: x.c.FreshName("h.map")}
			}
		}
	}
	res := fn.Signature.Results()
	var tv TupleV
	for i := 0; i < res.Len(); i++ {
		if v, ok := u.returns[i]; ok {
			tv = append(tv, v)
			continue
		}
		v := x.symD(st, res.At(i).Type(), "r."+fn.Name(), 0)
		if p, ok := v.(*PtrV); ok && p.isnil == nil {
			p.isnil = x.c.BVar("nil.r." + fn.Name())
		}
		tv = append(tv, v)
	}
	for _, a := range args {
		x.refsOf(st, a, map[*Obj]bool{}, func(o *Obj) {
			if st.gone[o] {
				x.fail("argument of %s shares memory that was given up", fn)
			}
		})
	}
	if h := x.prog.byFn[st.top().fn]; h != nil && h.opts["consumes"] != "" {
		// the result may share the argument's memory: it is not used any more
		g := map[*Obj]bool{}
		for o := range st.gone {
			g[o] = true
		}
		for i, p := range h.fn.Params {
			if s, ok := args[i].(*SliceV); ok && s.obj != nil && p.Name() == h.opts["consumes"] && s.cap != x.c.zero {
				g[s.obj] = true
			}
		}
		st.gone = g
	}
	if h := x.prog.byFn[st.top().fn]; h != nil && h.opts["view"] != "" {
		// what the result may share is not written any more
		seen := map[*Obj]bool{}
		for _, a := range args {
			x.refsOf(st, a, seen, func(o *Obj) { o.imm = true })
		}
		x.refsOf(st, tv, seen, func(o *Obj) { o.imm = true })
	}
	var rv Val
	switch len(tv) {
	case 0:
	case 1:
		rv = tv[0]
	default:
		rv = tv
	}
	u.res = rv
	x.setRes(st, in, rv)
}

func (x *Exec) ptrElem(p *PtrV, old Val) types.Type {
	if len(p.path) == 0 && p.obj.typ != nil {
		return p.obj.typ
	}
	if _, ok := old.(*Term); ok && p.obj.typ != nil {
		t := p.obj.typ
		for _, e := range p.path {
			switch u := under(t).(type) {
			case *types.Struct:
				if e.idx != nil {
					return nil
				}
				t = u.Field(e.f).Type()
			case *types.Array:
				t = u.Elem()
			default:
				return nil
			}
		}
		return t
	}
	return nil
}

// havocLike produces an arbitrary value of the same shape.
func (x *Exec) havocLike(st *State, v Val, t types.Type, name string) Val {
	c := x.c
	if t != nil {
		if _, ok := v.(*ArrV); !ok {
			return x.symD(st, t, name, 1)
		}
	}
	switch o := v.(type) {
	case *Term:
		if o.sort == SBool {
			return c.BVar(name)
		}
		x.fail("havocLike int without type")
	case *BigV:
		return &BigV{c.Var(name, nil, nil)}
	case *StructV:
		if t != nil {
			return x.symD(st, t, name, 1)
		}
		n := &StructV{}
		for _, f := range o.f {
			n.f = append(n.f, x.havocLike(st, f, nil, name))
		}
		return n
	case *ArrV:
		n := *o
		if o.dark {
			return &n
		}
		if o.arr != nil {
			if o.flt {
				n.arr = c.AVar(name, o.arr.lo, o.arr.hi)
				return &n
			}
			et := o.elem
			if _, e, ok := isFlatArr(o); ok {
				et = e
			}
			lo, hi := elemBounds(et)
			av := c.AVar(name, lo, hi)
			n.arr = av
			if o.n.op == OConst && o.n.v.Cmp(bi(64)) <= 0 && o.arr.op == OALit {
				xs := make([]*Term, len(o.arr.a))
				for i := range xs {
					xs[i] = c.Select(av, c.Int(int64(i)), nil)
				}
				n.arr = c.ALit(xs)
			}
			return &n
		}
		if o.keys != nil {
			n.sub = nil
			for _, s := range o.sub {
				n.sub = append(n.sub, x.havocLike(st, s, nil, name).(*ArrV))
			}
			return &n
		}
		if o.sub != nil {
			n.sub = nil
			for _, s := range o.sub {
				n.sub = append(n.sub, x.havocLike(st, s, nil, name).(*ArrV))
			}
			return &n
		}
		n.elems = nil
		for i := range o.elems {
			n.elems = append(n.elems, x.symD(st, o.elem, fmt.Sprintf("%s[%d]", name, i), 1))
		}
		return &n
	case *SliceV:
		if o.obj == nil {
			x.fail("havoc of nil slice")
		}
		a := x.sliceArr(st, o)
		l := c.Var("len."+name, bi(0), maxLen)
		cp := c.Var("cap."+name, bi(0), maxLen)
		x.assume(st, c.Le(l, cp))
		no := x.alloc(st, name, nil, x.symArr(st, a.elem, cp, name, 1))
		return &SliceV{obj: no, off: c.zero, len: l, cap: cp, isnil: c.BVar("nil." + name)}
	}
	x.fail("havocLike %T", v)
	return nil
}

// ---- pure evaluation

// evalPure evaluates a function value on args in st without changing st,
// merging all paths.
func (x *Exec) evalPure(st *State, fv Val, args []Val) Val {
	f, ok := fv.(*FuncV)
	if !ok || f.fn == nil {
		x.fail("evalPure of %T", fv)
	}
	s := st.fork()
	s.stop, s.ret = "", nil
	x.pure++
	defer func() { x.pure-- }()
	n0 := len(s.pc)
	base := len(s.frames)
	x.pushFrame(s, f.fn, args, f.binds, nil)
	s.top().ret = nil
	outs := x.explore(s, base, nil)
	if len(outs) == 0 {
		// contradictory state
		return x.symD(st, f.fn.Signature.Results().At(0).Type(), "dead", 0)
	}
	for _, o := range outs {
		if o.ret == nil {
			// the specification panics there: unknown value
			o.ret = x.symD(o, f.fn.Signature.Results().At(0).Type(), "undefined", 0)
		}
	}
	// a conjunction: one path says yes, the others say no
	if x.fieldAbs {
		yes, no := -1, 0
		for i, o := range outs {
			if t, ok := o.ret.(*Term); ok && t == x.c.tru && yes < 0 {
				yes = i
			} else if ok && t == x.c.fls {
				no++
			} else if ok && t.sort == SBool && yes < 0 {
				yes = i
			}
		}
		if yes >= 0 && no == len(outs)-1 {
			return x.c.And(append(append([]*Term(nil), outs[yes].pc[n0:]...), outs[yes].ret.(*Term))...)
		}
	}
	// merge
	res := outs[len(outs)-1].ret
	host := outs[len(outs)-1]
	for i := len(outs) - 2; i >= 0; i-- {
		cond := x.c.And(outs[i].pc[n0:]...)
		// bring objects of both into st for merging
		for o, v := range outs[i].heap {
			if _, ok := host.heap[o]; !ok {
				host.heap[o] = v
			}
		}
		res = x.merge(host, cond, outs[i].ret, res)
	}
	// import fresh objects so that returned pointers are valid
	for o, v := range host.heap {
		if _, ok := st.heap[o]; !ok {
			st.heap[o] = v
		}
	}
	return res
}

func (x *Exec) seqOf(st *State, v Val) (arr, off, n *Term) {
	switch v := v.(type) {
	case *StrV:
		return v.arr, x.conc(st, v.off), x.conc(st, v.len)
	case *SliceV:
		if v.obj == nil {
			return x.c.ALit(nil), x.c.zero, x.c.zero
		}
		if a := x.sliceArr(st, v); a.arr != nil && !a.flt {
			return a.arr, x.conc(st, v.off), x.conc(st, v.len)
		}
	}
	return nil, nil, nil
}

// flatten lists everything v consists of, through pointers; shape describes
// the structure, so that equal shape and terms mean equal values.
func (x *Exec) flatten(st *State, v Val, ts *[]*Term, shape *string, d int) {
	c := x.c
	if d > 12 {
		x.fail("recursive argument of a specification function")
	}
	boolT := func(b *Term) {
		*ts = append(*ts, c.Ite(b, c.one, c.zero))
	}
	switch a := v.(type) {
	case *Term:
		if a.sort == SBool {
			boolT(a)
		} else {
			*ts = append(*ts, x.conc(st, a))
		}
		*shape += "t"
	case *BigV:
		*ts = append(*ts, a.t)
		*shape += "b"
	case *StrV:
		*ts = append(*ts, a.arr, x.conc(st, a.off), x.conc(st, a.len))
		*shape += "s"
	case *SliceV:
		arr, off, n := x.seqOf(st, a)
		if arr == nil {
			x.fail("slice argument of an abstract specification function")
		}
		*ts = append(*ts, arr, off, n)
		*shape += "l"
	case *ArrV:
		if a.arr == nil || a.flt || a.dark {
			x.fail("array argument of an abstract specification function")
		}
		*ts = append(*ts, a.arr, a.n)
		*shape += "a"
	case *StructV:
		*shape += "{"
		for _, f := range a.f {
			x.flatten(st, f, ts, shape, d+1)
		}
		*shape += "}"
	case *PtrV:
		if a.obj == nil {
			*shape += "0"
			return
		}
		boolT(x.ptrNil(a))
		*shape += "p"
		x.flatten(st, x.load(st, a), ts, shape, d+1)
	default:
		x.fail("%T argument of an abstract specification function", v)
	}
}

// opaqueSpec keeps a call of a specification function (//vc:opaque) as an
// application; its definition is unfolded at ground occurrences by the
// query builder.
func (x *Exec) opaqueSpec(st *State, fn *ssa.Function, args []Val) Val {
	c := x.c
	if x.prog.abstract[fn] {
		var ts []*Term
		shape := ""
		for _, a := range args {
			x.flatten(st, a, &ts, &shape, 0)
		}
		if b, ok := scalarBasic(fn.Signature.Results().At(0).Type()); ok {
			if w, sg, isInt := intRange(b); isInt {
				lo, hi := typeBounds(w, sg)
				return c.App("spec:"+fn.Name()+":"+shape, lo, hi, ts...)
			}
		}
		return c.BApp("spec:"+fn.Name()+":"+shape, ts...)
	}
	var ts []*Term
	allConst := true
	for _, a := range args {
		switch a := a.(type) {
		case *Term:
			if a.sort != SInt {
				return nil
			}
			a = x.conc(st, a)
			allConst = allConst && a.op == OConst
			ts = append(ts, a)
		case *SliceV, *StrV:
			arr, off, n := x.seqOf(st, a.(Val))
			if arr == nil {
				return nil
			}
			allConst = false
			ts = append(ts, arr, off, n)
		default:
			return nil
		}
	}
	if allConst {
		return nil
	}
	name := "spec:" + fn.Name()
	d := c.defs[name]
	if d == nil {
		s := &State{heap: map[*Obj]Val{}, bnd: map[*Term]ival{}, ghost: map[string]Val{}, frames: []*Frame{{fn: fn, regs: map[ssa.Value]Val{}, block: fn.Blocks[0], iters: map[*ssa.BasicBlock]int{}, cut: map[*ssa.BasicBlock]int{}}}}
		var ps []Val
		d = &opaqueDef{}
		for _, p := range fn.Params {
			v := x.sym(s, p.Type(), "p."+p.Name())
			switch v := v.(type) {
			case *Term:
				d.params = append(d.params, v)
			case *SliceV:
				arr, off, n := x.seqOf(s, v)
				if off.op == OConst {
					off = c.Var("p.off", bi(0), pow2(48))
					v.off = off
				}
				d.params = append(d.params, arr, off, n)
			case *StrV:
				arr, off, n := x.seqOf(s, v)
				if off.op == OConst {
					off = c.Var("p.off", bi(0), pow2(48))
					v.off = off
				}
				d.params = append(d.params, arr, off, n)
			default:
				return nil
			}
			ps = append(ps, v)
		}
		c.defs[name] = d // recursive uses stay applications
		b, ok := x.evalPure(s, &FuncV{fn: fn}, ps).(*Term)
		if !ok {
			x.fail("opaque specification function %s", fn)
		}
		d.body = b
	}
	bb, ok := scalarBasic(fn.Signature.Results().At(0).Type())
	if !ok {
		x.fail("opaque specification function %s returns no scalar", fn)
	}
	if w, sg, isInt := intRange(bb); isInt {
		lo, hi := typeBounds(w, sg)
		return c.App(name, lo, hi, ts...)
	}
	return c.BApp(name, ts...)
}

func (x *Exec) evalBool(st *State, fv Val, args ...Val) *Term {
	return x.evalPure(st, fv, args).(*Term)
}

// ---- builtins

func (x *Exec) builtin(st *State, ci ssa.CallInstruction, name string, args []Val) (Val, []*State) {
	c := x.c
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case *SliceV:
			if name == "cap" {
				return a.cap, nil
			}
			return a.len, nil
		case *StrV:
			return a.len, nil
		case *ArrV:
			return a.n, nil
		case *PtrV:
			at := under(under(ci.Common().Args[0].Type()).(*types.Pointer).Elem()).(*types.Array)
			return c.Int(at.Len()), nil
		case *MapV:
			if a.obj == nil {
				return c.zero, nil
			}
			mc := st.heap[a.obj].(*MapC)
			if mc.base == "" {
				ok := true
				for _, e := range mc.entries {
					if e.del {
						ok = false
					}
				}
				if ok {
					return c.Int(int64(len(mc.entries))), nil
				}
			}
			return c.Var("maplen", bi(0), maxLen), nil
		}
		x.fail("len of %T", args[0])
	case "copy":
		return x.copyBuiltin(st, args), nil
	case "append":
		return x.appendBuiltin(st, ci, args)
	case "delete":
		x.mapDelete(st, args[0].(*MapV), args[1])
		return nil, nil
	case "print", "println":
		return nil, nil
	case "recover":
		return &IfaceV{}, nil
	case "close":
		return nil, nil
	case "ssa:wrapnilchk":
		return args[0], nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = c.Ite(c.Le(t, r), t, r)
			} else {
				r = c.Ite(c.Ge(t, r), t, r)
			}
		}
		return r, nil
	}
	x.fail("builtin %s", name)
	return nil, nil
}

func (x *Exec) copyBuiltin(st *State, args []Val) Val {
	c := x.c
	dst := args[0].(*SliceV)
	var sarr, soff, sn *Term
	var sa *ArrV
	switch s := args[1].(type) {
	case *StrV:
		sarr, soff, sn = s.arr, s.off, s.len
	case *SliceV:
		sn, soff = s.len, s.off
		sa = x.sliceArr(st, s)
		if sa != nil {
			sarr = sa.arr
		}
	}
	dn := x.conc(st, dst.len)
	sn = x.conc(st, sn)
	var n *Term
	switch x.decideS(st, c.Le(sn, dn)) {
	case 1:
		n = sn
	case -1:
		n = dn
	default:
		n = c.Ite(c.Le(sn, dn), sn, dn)
	}
	if dst.obj == nil || (sarr == nil && sa == nil) || n == c.zero {
		return n
	}
	da := x.sliceArr(st, dst)
	if dst.obj.imm {
		x.fail("copy into immutable object")
	}
	x.noteWrite(dst.obj, dst.path)
	na := x.copyArr(st, da, dst.off, sa, sarr, soff, n)
	st.heap[dst.obj] = x.storePath(st, st.heap[dst.obj], dst.path, na)
	return n
}

func (x *Exec) copyArr(st *State, da *ArrV, doff *Term, sa *ArrV, sarr, soff, n *Term) *ArrV {
	c := x.c
	na := *da
	if da.dark || sa != nil && sa.dark {
		na.dark, na.arr, na.sub, na.elems = true, nil, nil, nil
		return &na
	}
	if da.arr != nil {
		if sarr == nil {
			x.fail("copy shapes")
		}
		if da.flt && (sa == nil || sa.keys != da.keys) {
			x.fail("copy of pointer arrays")
		}
		if m, _, ok := isFlatArr(da); ok {
			na.arr = c.Copy(da.arr, c.Scale(doff, bi(m)), sarr, c.Scale(soff, bi(m)), c.Scale(n, bi(m)), x.bf(st))
			return &na
		}
		na.arr = c.Copy(da.arr, x.conc(st, doff), sarr, x.conc(st, soff), n, x.bf(st))
		return &na
	}
	if sa != nil && da.keys != nil {
		if sa.keys != da.keys {
			x.fail("copy of slice arrays")
		}
	}
	if da.sub != nil && sa != nil && sa.sub != nil {
		na.sub = nil
		for i := range da.sub {
			na.sub = append(na.sub, x.copyArr(st, da.sub[i], doff, sa.sub[i], sa.sub[i].arr, soff, n))
		}
		return &na
	}
	n = x.conc(st, n)
	if n.op == OConst && sa != nil {
		na.elems = append([]Val(nil), da.elems...)
		vals := []Val{}
		for i := int64(0); i < n.v.Int64(); i++ {
			vals = append(vals, x.getIdx(st, sa, c.AddI(soff, i)))
		}
		res := &na
		for i, v := range vals {
			res = x.setIdx(st, res, c.AddI(doff, int64(i)), v)
		}
		return res
	}
	x.fail("copy of symbolic length on explicit array")
	return nil
}

func (x *Exec) appendBuiltin(st *State, ci ssa.CallInstruction, args []Val) (Val, []*State) {
	c := x.c
	s := args[0].(*SliceV)
	in, _ := ci.(*ssa.Call)
	et := under(ci.Common().Args[0].Type()).(*types.Slice).Elem()
	var sa *ArrV
	var sarr, soff, n *Term
	switch v := args[1].(type) {
	case *StrV:
		sarr, soff, n = v.arr, v.off, v.len
	case *SliceV:
		soff, n = v.off, v.len
		sa = x.sliceArr(st, v)
		if sa != nil {
			sarr = sa.arr
		}
	default:
		x.fail("append of %T", args[1])
	}
	n = x.conc(st, n)
	sl := x.conc(st, s.len)
	newLen := c.Add(sl, n)
	if n == c.zero {
		return s, nil
	}
	inPlace := func(s0 *State) Val {
		da := x.sliceArr(s0, s)
		if s.obj.imm {
			x.fail("append into immutable object")
		}
		x.noteWrite(s.obj, s.path)
		na := x.copyArr(s0, da, c.Add(s.off, sl), sa, sarr, soff, n)
		s0.heap[s.obj] = x.storePath(s0, s0.heap[s.obj], s.path, na)
		return &SliceV{obj: s.obj, path: s.path, off: s.off, len: newLen, cap: s.cap}
	}
	realloc := func(s0 *State) Val {
		o := x.alloc(s0, "append", nil, nil)
		// contents
		ncap := newLen
		if sl.op != OConst || n.op != OConst || !x.exactCap() {
			ncap = c.Var("cap.append", bi(0), nil)
			x.assume(s0, c.Ge(ncap, newLen))
		}
		if scalarElem(et) {
			var base *Term
			if s.obj == nil {
				base = c.AConst(c.zero)
				if n.op == OConst && n.v.Cmp(bi(256)) <= 0 {
					xs := x.sel(s0, sarr, soff, int(n.v.Int64()))
					s0.heap[o] = &ArrV{elem: et, n: ncap, arr: c.ALit(xs)}
					return &SliceV{obj: o, off: c.zero, len: newLen, cap: ncap}
				}
				s0.heap[o] = &ArrV{elem: et, n: ncap, arr: x.shiftArr(sarr, soff)}
				return &SliceV{obj: o, off: c.zero, len: newLen, cap: ncap}
			}
			da := x.sliceArr(s0, s)
			base = da.arr
			arr, _ := x.concat(s0, base, s.off, sl, sarr, soff, n)
			s0.heap[o] = &ArrV{elem: et, n: ncap, arr: arr}
			return &SliceV{obj: o, off: c.zero, len: newLen, cap: ncap}
		}
		// explicit elements
		if sl.op == OConst && n.op == OConst && newLen.v.Cmp(bi(4096)) <= 0 {
			a := &ArrV{elem: et, n: newLen, elems: []Val{}}
			if s.obj != nil {
				da := x.sliceArr(s0, s)
				for i := int64(0); i < sl.v.Int64(); i++ {
					a.elems = append(a.elems, x.getIdx(s0, da, c.AddI(s.off, i)))
				}
			}
			for i := int64(0); i < n.v.Int64(); i++ {
				a.elems = append(a.elems, x.getIdx(s0, sa, c.AddI(soff, i)))
			}
			s0.heap[o] = a
			return &SliceV{obj: o, off: c.zero, len: newLen, cap: newLen}
		}
		da := x.sliceArr(s0, s)
		if da == nil {
			x.fail("append of symbolic-length composite")
		}
		na := x.copyArr(s0, x.shiftComposite(s0, da, s.off), sl, sa, sarr, soff, n)
		na.n = ncap
		s0.heap[o] = na
		return &SliceV{obj: o, off: c.zero, len: newLen, cap: ncap}
	}
	if s.obj == nil {
		return realloc(st), nil
	}
	if x.pure > 0 {
		return realloc(st), nil
	}
	fits := c.Le(newLen, s.cap)
	t, f := x.branch(st, fits)
	if t != nil && f == nil {
		return inPlace(t), nil
	}
	if f != nil && t == nil {
		return realloc(f), nil
	}
	x.setRes(t, in, inPlace(t))
	x.setRes(f, in, realloc(f))
	return nil, []*State{t, f}
}

func (x *Exec) exactCap() bool { return false }

func (x *Exec) shiftComposite(st *State, a *ArrV, off *Term) *ArrV {
	if off == x.c.zero {
		return a
	}
	n := *a
	if a.arr != nil {
		if m, _, ok := isFlatArr(a); ok {
			n.arr = x.shiftArr(a.arr, x.c.Scale(off, bi(m)))
			return &n
		}
		n.arr = x.shiftArr(a.arr, off)
		return &n
	}
	if a.sub != nil {
		n.sub = nil
		for _, s := range a.sub {
			n.sub = append(n.sub, x.shiftComposite(st, s, off))
		}
		return &n
	}
	x.fail("shiftComposite")
	return nil
}

func boolResult(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	b, ok := under(r.At(0).Type()).(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// osExit ends the process: control is back at the vc.Exits that observes it.
func (x *Exec) osExit(st *State) []*State {
	for i := len(st.frames) - 1; i >= 0; i-- {
		fr := st.frames[i]
		if fr.exits {
			st.frames = st.frames[:i]
			if in, ok := fr.ret.(*ssa.Call); ok {
				x.setRes(st, in, x.c.tru)
			}
			st.stop = "unwound" // explore goes on where it covers the frame
			return []*State{st}
		}
	}
	st.stop = "dead"
	return []*State{st}
}
