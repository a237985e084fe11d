package main

import (
	"math/big"
	"os"
	"strings"
)

// Field arithmetic at the level of values (//vc:fieldabs): vcVal(f) is kept
// as an uninterpreted function of the ten words, and congruences modulo the
// prime are decided by reducing polynomials in these values.

// fieldVal is vcVal of the pointed-to words.
func (x *Exec) fieldVal(st *State, p Val) Val {
	c := x.c
	s := x.load(st, p.(*PtrV)).(*StructV)
	a := s.f[0].(*ArrV)
	var ws []*Term
	konst := true
	v := new(big.Int)
	for i := 0; i < 10; i++ {
		var w *Term
		if a.arr != nil {
			w = c.Select(a.arr, c.Int(int64(i)), x.bf(st))
		} else {
			w = a.elems[i].(*Term)
		}
		w = x.conc(st, w)
		if w.op == OConst {
			v.Add(v, new(big.Int).Lsh(w.v, uint(26*i)))
		} else {
			konst = false
		}
		ws = append(ws, w)
	}
	if konst {
		return x.newBig(st, c.Big(v))
	}
	return x.newBig(st, c.App("fval", bi(0), pow2(270), ws...))
}

func (c *Ctx) isNonlin(t *Term) bool {
	if t.sort == SArr || t.op == OConst || t.op == OVar {
		return false
	}
	if r, ok := c.nonlin[t]; ok {
		return r
	}
	if c.nonlin == nil {
		c.nonlin = map[*Term]bool{}
	}
	r := false
	for _, m := range t.mono {
		if len(m.f) > 1 {
			r = true
		}
		for _, f := range m.f {
			r = r || c.isNonlin(f)
		}
	}
	for _, a := range t.a {
		r = r || c.isNonlin(a)
	}
	c.nonlin[t] = r
	return r
}

type fieldRed struct {
	c    *Ctx
	defs map[*Term]*FPoly // value -> polynomial in values without definition
	memo map[*Term]*FPoly
	used map[*Term]bool
}

// hasField: t speaks about field values
func (c *Ctx) hasField(t *Term) bool {
	if isFval(t) || isModP(t) {
		return true
	}
	if t.sort == SArr || t.op == OConst || t.op == OVar {
		return false
	}
	if r, ok := c.fieldy[t]; ok {
		return r
	}
	if c.fieldy == nil {
		c.fieldy = map[*Term]bool{}
	}
	r := false
	for _, m := range t.mono {
		for _, f := range m.f {
			r = r || c.hasField(f)
		}
	}
	for _, a := range t.a {
		r = r || c.hasField(a)
	}
	c.fieldy[t] = r
	return r
}

// fieldPrep is fieldReduce, or only the removal of field facts from the
// hypotheses when the goal has none.
func (c *Ctx) fieldPrep(hyps []*Term, goal *Term) (h []*Term, g *Term) {
	hyps = c.units(hyps)
	if !c.hasField(goal) && goal.op != OFalse {
		for _, t := range hyps {
			h = append(h, c.fieldless(t)...)
		}
		return h, goal
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); !ok {
				panic(e)
			}
			h, g = hyps, goal
		}
	}()
	return c.fieldReduce(hyps, goal)
}

// units propagates the facts of hyps through its disjunctions.
func (c *Ctx) units(hyps []*Term) []*Term {
	known := map[*Term]bool{}
	var fl func(t *Term, r *[]*Term)
	fl = func(t *Term, r *[]*Term) {
		if t.op == OAnd {
			for _, a := range t.a {
				fl(a, r)
			}
			return
		}
		if t.op != OOr || !known[t] {
			*r = append(*r, t)
		}
		known[t] = true
	}
	var cur []*Term
	for _, h := range hyps {
		fl(h, &cur)
	}
	for n := -1; len(known) > n; {
		n = len(known)
		var next []*Term
		for _, h := range cur {
			if h.op != OOr {
				next = append(next, h)
				continue
			}
			var rest []*Term
			sat := false
			for _, a := range h.a {
				if known[a] {
					sat = true
					break
				}
				if !known[c.Not(a)] {
					rest = append(rest, a)
				}
			}
			if sat {
				continue
			}
			if len(rest) == len(h.a) {
				next = append(next, h)
				continue
			}
			fl(c.Or(rest...), &next)
		}
		cur = next
	}
	return cur
}

// fieldless are the conjuncts of t without field values
func (c *Ctx) fieldless(t *Term) (r []*Term) {
	if t.op == OAnd {
		for _, a := range t.a {
			r = append(r, c.fieldless(a)...)
		}
		return r
	}
	if !c.hasField(t) {
		r = append(r, t)
	}
	return r
}

func isBVar(t *Term) bool { return t.op == OVar && t.sort == SBool }

func isFval(t *Term) bool { return t.op == OApp && t.name == "fval" }

func isModP(t *Term) bool {
	return t.op == OMod && t.a[1].op == OConst && t.a[1].v.Cmp(secpP) == 0
}

func (r *fieldRed) factor(t *Term) *FPoly {
	if d, ok := r.defs[t]; ok {
		return d
	}
	if isModP(t) {
		return r.poly(t.a[0])
	}
	if t.op == OApp && t.name == "powmod" && t.a[1].op == OConst {
		return fpPow(r.poly(t.a[0]), t.a[1].v)
	}
	r.used[t] = true
	return fpVar(t)
}

func (r *fieldRed) poly(t *Term) *FPoly {
	if p, ok := r.memo[t]; ok {
		return p
	}
	if t.op == OConst {
		return fpConst(t.v)
	}
	var ms []fmono
	for _, mo := range r.c.monos(t) {
		p := fpConst(mo.c)
		for _, f := range mo.f {
			p = fpMul(p, r.factor(f))
			if len(p.m) > 40000 {
				panic(unsupported{"field polynomial too large"})
			}
		}
		ms = append(ms, p.m...)
	}
	p := fpNorm(ms)
	r.memo[t] = p
	return p
}

// congruence returns q when t says q = 0 mod p.
func congruence(c *Ctx, t *Term) *Term {
	if t.op == OEq {
		ms := c.monos(t.a[0])
		if len(ms) == 1 && len(ms[0].f) == 1 && isModP(ms[0].f[0]) {
			return ms[0].f[0].a[0]
		}
		for _, m := range ms {
			for _, f := range m.f {
				if !isFval(f) {
					return nil
				}
			}
		}
		return t.a[0]
	}
	if t.op == OLe {
		ms := c.monos(t.a[0])
		if len(ms) == 1 && len(ms[0].f) == 1 && ms[0].c.Sign() > 0 && isModP(ms[0].f[0]) {
			return ms[0].f[0].a[0]
		}
		// a sum of values that is not positive is zero
		for _, m := range ms {
			if m.c.Sign() < 0 || len(m.f) == 0 {
				return nil
			}
			for _, f := range m.f {
				if !isFval(f) {
					return nil
				}
			}
		}
		return t.a[0]
	}
	return nil
}

// define tries to use q = 0 as the definition of its newest value.
func (r *fieldRed) define(q *Term) bool {
	var piv *Term
	var pc *big.Int
	ms := r.c.monos(q)
	for _, m := range ms {
		if len(m.f) == 1 && isFval(m.f[0]) && (piv == nil || m.f[0].id > piv.id) {
			piv, pc = m.f[0], m.c
		}
	}
	if piv == nil || r.defs[piv] != nil || r.used[piv] {
		return false
	}
	inv := new(big.Int).ModInverse(pc, secpP)
	if inv == nil {
		return false
	}
	rest := r.c.Sub(q, r.c.Scale(piv, pc))
	p := r.poly(rest)
	if r.used[piv] {
		return false
	}
	r.defs[piv] = fpScale(p, new(big.Int).Neg(inv))
	return true
}

// fieldReduce rewrites hypotheses and goal: values are expressed by the
// values they are congruent to, congruences become propositions about the
// reduced polynomials.
func (c *Ctx) fieldReduce(hyps []*Term, goal *Term) ([]*Term, *Term) {
	r := &fieldRed{c: c, defs: map[*Term]*FPoly{}, memo: map[*Term]*FPoly{}, used: map[*Term]bool{}}
	var flat []*Term
	var fl func(t *Term)
	fl = func(t *Term) {
		if t.op == OAnd {
			for _, a := range t.a {
				fl(a)
			}
			return
		}
		flat = append(flat, t)
	}
	for _, h := range hyps {
		fl(h)
	}
	// unit propagation of the results of comparisons
	units := map[*Term]*Term{}
	for n := -1; len(units) > n; {
		n = len(units)
		for _, h := range flat {
			if isBVar(h) {
				units[h] = c.tru
			} else if h.op == ONot && isBVar(h.a[0]) {
				units[h.a[0]] = c.fls
			}
		}
		if len(units) == 0 {
			break
		}
		old := flat
		flat = nil
		memo := map[*Term]*Term{}
		for _, h := range old {
			if isBVar(h) || h.op == ONot && isBVar(h.a[0]) {
				flat = append(flat, h)
				continue
			}
			fl(c.subst(h, units, memo, false))
		}
	}
	// a <= b and b <= a
	les := map[*Term]bool{}
	for i, h := range flat {
		if h.op != OLe || !c.hasField(h) || h.bound {
			continue
		}
		q := h.a[0]
		if les[c.Neg(q)] {
			if e := c.Eq(q, c.zero); congruence(c, e) != nil {
				flat[i] = c.And(h, e)
			}
		}
		les[q] = true
	}
	var rels []*Term
	add := func(h *Term) {
		if q := congruence(c, h); q != nil && !q.bound {
			if !r.define(q) {
				rels = append(rels, q)
			}
		}
	}
	for _, h := range flat {
		if h.op == OAnd {
			for _, a := range h.a {
				add(a)
			}
			continue
		}
		add(h)
	}
	// relations that fix a value: z = 1, z1 = z2
	for changed := true; changed; {
		changed = false
		for _, q := range rels {
			p := r.poly(q)
			var piv *Term
			var pc *big.Int
			var rest []fmono
			for _, m := range p.m {
				if len(m.v) == 1 && m.v[0].e.Cmp(bi(1)) == 0 && (piv == nil || m.v[0].t.id > piv.id) && isFval(m.v[0].t) {
					piv, pc = m.v[0].t, m.c
				}
			}
			ok := piv != nil
			for _, m := range p.m {
				if len(m.v) == 1 && m.v[0].t == piv && m.v[0].e.Cmp(bi(1)) == 0 {
					continue
				}
				for _, v := range m.v {
					ok = ok && v.t != piv
				}
				rest = append(rest, m)
			}
			if !ok {
				continue
			}
			inv := new(big.Int).ModInverse(pc, secpP)
			d := fpScale(&FPoly{rest}, new(big.Int).Neg(inv))
			nd := map[*Term]*FPoly{}
			for k, v := range r.defs {
				nd[k] = fpSubst(v, piv, d)
			}
			nd[piv] = d
			r.defs, r.memo = nd, map[*Term]*FPoly{}
			changed = true
		}
	}
	// rewrite
	zv := map[string]*Term{}
	isZero := func(p *FPoly) *Term { // p = 0 mod prime
		if k, ok := p.isConst(); ok {
			return c.Bool(k.Sign() == 0)
		}
		inv := new(big.Int).ModInverse(p.m[0].c, secpP)
		p = fpScale(p, inv)
		var b strings.Builder
		for _, m := range p.m {
			b.WriteString(m.c.Text(16) + ":" + fmkey(m.v) + ";")
		}
		k := b.String()
		if zv[k] == nil {
			zv[k] = c.BVar("fz")
		}
		return zv[k]
	}
	var extra []*Term
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.bound || t.sort == SArr {
			return
		}
		seen[t] = true
		if q := congruence(c, t); q != nil {
			p := r.poly(q)
			z := isZero(p)
			ms := c.monos(t.a[0])
			if len(ms) == 1 && len(ms[0].f) == 1 && isModP(ms[0].f[0]) {
				m[t] = z
				return
			}
			// exact equation between values
			extra = append(extra, c.Or(c.Not(t), z))
			if !c.isNonlin(q) {
				k := c.Var("fq", nil, nil)
				extra = append(extra, c.Or(c.Not(z), c.Eq(q, c.Scale(k, secpP))))
			}
			return
		}
		if isModP(t) {
			p := r.poly(t.a[0])
			if k, ok := p.isConst(); ok {
				m[t] = c.Big(k)
				return
			}
			v := c.Var("fm", bi(0), new(big.Int).Sub(secpP, bi(1)))
			m[t] = v
			extra = append(extra, c.Eq(c.Bool(true), c.Eq(c.Eq(v, c.zero), isZero(p))))
			return
		}
		if t.op == OLe {
			// v != w is v < w or w < v
			if q, k := c.splitConst(t.a[0]); k.Cmp(bi(1)) == 0 && q != c.zero {
				if e := c.Eq(q, c.zero); congruence(c, e) != nil && !c.isNonlin(q) {
					walk(e)
				}
			}
		}
		for _, a := range t.a {
			walk(a)
		}
		for _, mo := range t.mono {
			for _, f := range mo.f {
				walk(f)
			}
		}
	}
	for _, h := range flat {
		walk(h)
	}
	walk(goal)
	var out []*Term
	memo := map[*Term]*Term{}
	for _, h := range flat {
		out = append(out, c.subst(h, m, memo, false))
	}
	out = append(out, extra...)
	g := c.Subst(goal, m)
	if dbgFlag && g.op != OTrue {
		println("field goal", r0(g))
		if os.Getenv("GOVC_DEBUG") == "3" {
			for _, h := range flat {
				if c.hasField(h) {
					println("    hyp", r0(h))
				}
			}
		}
		for _, q := range rels {
			println("  relation", fpKey(r.poly(q)))
		}
		for k, v := range zv {
			if os.Getenv("GOVC_DEBUG") == "2" || strings.Contains(r0(g), v.name) {
				println("  ", v.name, "=", k)
			}
		}
	}
	var keep []*Term
	for _, h := range out {
		if h.op != OTrue && !c.isNonlin(h) {
			keep = append(keep, h)
		}
	}
	return keep, g
}

func fpSubst(p *FPoly, t *Term, d *FPoly) *FPoly {
	var ms []fmono
	for _, m := range p.m {
		var rest []fvar
		e := bi(0)
		for _, v := range m.v {
			if v.t == t {
				e = v.e
			} else {
				rest = append(rest, v)
			}
		}
		q := &FPoly{[]fmono{{m.c, rest}}}
		if e.Sign() > 0 {
			q = fpMul(q, fpPow(d, e))
		}
		ms = append(ms, q.m...)
	}
	return fpNorm(ms)
}

func fpPow(p *FPoly, e *big.Int) *FPoly {
	if k, ok := p.isConst(); ok {
		return fpConst(new(big.Int).Exp(k, e, secpP))
	}
	if len(p.m) == 0 {
		return p
	}
	if len(p.m) == 1 {
		m := fmono{new(big.Int).Exp(p.m[0].c, e, secpP), nil}
		for _, v := range p.m[0].v {
			m.v = append(m.v, fvar{v.t, new(big.Int).Mul(v.e, e)})
		}
		return fpNorm([]fmono{m})
	}
	if e.BitLen() > 8 {
		panic(unsupported{"field power too large"})
	}
	r := fpConst(bi(1))
	for i := e.Int64(); i > 0; i-- {
		r = fpMul(r, p)
	}
	return r
}

func fpKey(p *FPoly) string {
	var b strings.Builder
	for _, m := range p.m {
		b.WriteString(m.c.Text(16) + ":" + fmkey(m.v) + ";")
	}
	return b.String()
}
