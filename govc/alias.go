package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// checkAlias: a contract is proved for arguments that do not share what the
// callee writes (except as //vc:alias says), so a call may not either.
func (x *Exec) checkAlias(st *State, in *ssa.Call, u *useCtx) {
	fr := st.top()
	h := x.prog.byFn[fr.fn]
	if h == nil {
		return
	}
	ps := fr.fn.Params
	type ref struct {
		o    *Obj
		path []Path
		s    *SliceV // direct slice argument
		p    *PtrV   // direct pointer argument
	}
	refs := make([][]ref, len(ps))
	for i, p := range ps {
		v := fr.regs[p]
		seen := map[*Obj]bool{}
		var walk func(v Val, top bool)
		add := func(o *Obj, path []Path, top bool, s *SliceV, p *PtrV) {
			if o == nil || o.imm || top == false && seen[o] {
				return
			}
			r := ref{o: o, path: path}
			if top {
				r.s, r.p = s, p
			}
			refs[i] = append(refs[i], r)
			seen[o] = true
			hv, ok := st.heap[o]
			if !ok {
				return
			}
			if len(path) > 0 && p != nil {
				if path[len(path)-1].idx == nil {
					hv = x.loadPath(st, hv, path)
				}
			}
			walk(hv, false)
		}
		walk = func(v Val, top bool) {
			switch o := v.(type) {
			case *PtrV:
				add(o.obj, o.path, top, nil, o)
			case *SliceV:
				add(o.obj, o.path, top, o, nil)
			case *MapV:
				add(o.obj, nil, top, nil, nil)
			case *MapC:
				for _, e := range o.entries {
					walk(e.k, false)
					walk(e.v, false)
				}
			case *StructV:
				for _, f := range o.f {
					walk(f, false)
				}
			case *ArrV:
				if o.keys != nil {
					add(o.keys, nil, false, nil, nil)
				}
				for _, f := range o.elems {
					walk(f, false)
				}
			case *IfaceV:
				walk(o.val, false)
			case *FuncV:
				for _, b := range o.binds {
					walk(b, false)
				}
			}
		}
		walk(v, true)
	}
	overlap := func(a, b []Path) bool {
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k].idx == nil && b[k].idx == nil {
				if a[k].f != b[k].f {
					return false
				}
				continue
			}
			if a[k].idx != nil && b[k].idx != nil && x.mustTrue(st, x.c.Not(x.c.Eq(a[k].idx, b[k].idx))) {
				return false
			}
		}
		return true
	}
	same := func(a, b []Path) bool {
		if len(a) != len(b) {
			return false
		}
		for k := range a {
			if a[k].f != b[k].f || (a[k].idx == nil) != (b[k].idx == nil) || a[k].idx != nil && a[k].idx != b[k].idx {
				return false
			}
		}
		return true
	}
	pos := fr.fn.Pos()
	if in != nil {
		pos = in.Pos()
	}
	part := make([]int, len(ps))
	for i := range part {
		part[i] = i
	}
	bad := ""
	merged := false
	for _, m := range u.modifies {
		var mo *Obj
		var mp []Path
		var ms *SliceV
		switch mv := m.(type) {
		case *PtrV:
			mo, mp = mv.obj, mv.path
		case *SliceV:
			mo, mp, ms = mv.obj, mv.path, mv
		case *MapV:
			mo = mv.obj
		}
		if mo == nil {
			continue
		}
		for j := range ps {
			for i := 0; i < j; i++ {
				for _, a := range refs[i] {
					if a.o != mo || !overlap(a.path, mp) {
						continue
					}
					for _, b := range refs[j] {
						if b.o != mo || !overlap(b.path, mp) || !overlap(a.path, b.path) {
							continue
						}
						if a.p != nil && b.p != nil && same(a.path, b.path) {
							for part[j] != part[part[j]] {
								part[j] = part[part[j]]
							}
							r := part[i]
							for r != part[r] {
								r = part[r]
							}
							part[j] = r
							merged = true
							continue
						}
						if a.s != nil && b.s != nil && ms != nil && same(a.path, b.path) {
							// the written range must miss one of them
							miss := func(s *SliceV) *Term {
								c := x.c
								return c.Or(c.Le(c.Add(s.off, s.cap), ms.off), c.Le(c.Add(ms.off, ms.cap), s.off))
							}
							x.oblige(st, fmt.Sprintf("arguments %s and %s of %s do not overlap", ps[i].Name(), ps[j].Name(), u.fn.RelString(nil)), pos, x.c.Or(miss(a.s), miss(b.s)))
							continue
						}
						bad = ps[i].Name() + ", " + ps[j].Name()
					}
				}
			}
		}
	}
	if bad == "" && merged {
		ok := false
		for _, v := range h.variants() {
			eq := true
			for i := range v {
				if v[i] != part[i] {
					eq = false
				}
			}
			ok = ok || eq
		}
		if !ok {
			bad = fmt.Sprint(part)
		}
	}
	if bad != "" {
		x.obligeFail(st, fmt.Sprintf("arguments of %s do not share what it writes", u.fn.RelString(nil)), pos, "aliasing not covered by the contract: "+bad)
	}
}

// refsOf calls f with every object that v refers to, directly or not.
func (x *Exec) refsOf(st *State, v Val, seen map[*Obj]bool, f func(o *Obj)) {
	var walk func(v Val)
	add := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		f(o)
		if hv, ok := st.heap[o]; ok {
			walk(hv)
		}
	}
	walk = func(v Val) {
		switch o := v.(type) {
		case TupleV:
			for _, e := range o {
				walk(e)
			}
		case *PtrV:
			add(o.obj)
		case *SliceV:
			if o.obj != nil && !(o.len.op == OConst && o.len.v.Sign() == 0 && o.cap.op == OConst && o.cap.v.Sign() == 0) {
				add(o.obj)
			}
		case *MapV:
			add(o.obj)
		case *MapC:
			for _, e := range o.entries {
				walk(e.k)
				walk(e.v)
			}
		case *StructV:
			for _, e := range o.f {
				walk(e)
			}
		case *ArrV:
			if o.keys != nil {
				add(o.keys)
			}
			for _, e := range o.elems {
				walk(e)
			}
			for _, e := range o.sub {
				walk(e)
			}
		case *IfaceV:
			walk(o.val)
		case *FuncV:
			for _, b := range o.binds {
				walk(b)
			}
		}
	}
	walk(v)
}

// checkOwn: the results of a function under contract are taken to be new
// memory at its calls, unless vc.Returns says what they are or the contract is
// marked //vc:view (nobody may then write to what they share).
func (x *Exec) checkOwn(st *State, u *useCtx, fn *ssa.Function, rv Val) {
	if x.opts["view"] != "" {
		return
	}
	given := map[*Obj]bool{}
	if p := x.opts["consumes"]; p != "" {
		if v, ok := st.ghost[p].(*SliceV); ok && v.obj != nil {
			given[v.obj] = true
		}
	}
	globals := map[*Obj]bool{}
	for _, o := range x.globals {
		globals[o] = true
	}
	// what is stored in modified memory is new memory too, or (//vc:shares) a
	// slice of what was there, from the same start
	for _, m := range u.modifies {
		mv, ok := m.(*PtrV)
		if !ok || mv.obj == nil {
			continue
		}
		ov, had := u.old[mv.obj]
		if !had {
			continue
		}
		var olds []*SliceV
		if x.opts["shares"] != "" {
			x.slicesOf(x.loadPath(st, ov, mv.path), func(s *SliceV) *SliceV { olds = append(olds, s); return s })
		}
		k := 0
		nv := x.slicesOf(x.load(st, mv), func(s *SliceV) *SliceV {
			var o *SliceV
			if k < len(olds) {
				o = olds[k]
			}
			k++
			if o == nil || o.obj == nil || s.obj != o.obj || !samePath(s.path, o.path) {
				return s
			}
			x.oblige(st, "what "+fn.RelString(nil)+" keeps of "+o.obj.name, fn.Pos(), x.c.And(x.c.Eq(s.off, o.off), x.c.Le(s.cap, o.cap)))
			return &SliceV{off: x.c.zero, len: x.c.zero, cap: x.c.zero}
		})
		x.refsOf(st, nv, map[*Obj]bool{}, func(o *Obj) {
			if _, old := u.old[o]; (old || globals[o]) && !o.imm && !given[o] {
				x.obligeFail(st, "what "+fn.RelString(nil)+" stores is its own memory", fn.Pos(), "shares "+o.name)
			}
		})
	}
	n := fn.Signature.Results().Len()
	for i := 0; i < n; i++ {
		if _, ok := u.returns[i]; ok || fn.Signature.Results().At(i).Type().String() == "error" {
			continue
		}
		v := rv
		if tv, ok := rv.(TupleV); ok {
			v = tv[i]
		}
		x.refsOf(st, v, map[*Obj]bool{}, func(o *Obj) {
			if _, old := u.old[o]; (old || globals[o]) && !o.imm && !given[o] {
				x.obligeFail(st, "result "+itoa(i)+" of "+fn.RelString(nil)+" is its own memory", fn.Pos(), "shares "+o.name)
			}
		})
	}
}

// slicesOf maps the slices that are part of v
func (x *Exec) slicesOf(v Val, f func(*SliceV) *SliceV) Val {
	switch o := v.(type) {
	case *SliceV:
		return f(o)
	case *StructV:
		n := &StructV{}
		for _, e := range o.f {
			n.f = append(n.f, x.slicesOf(e, f))
		}
		return n
	}
	return v
}

// notGone: the function under analysis does not use memory it gave up
func (x *Exec) notGone(st *State, o *Obj) {
	if st.gone[o] && x.pure == 0 && !x.prog.isSpec(st.top().fn) {
		x.fail("use of %s, whose memory was given up", o.name)
	}
}
