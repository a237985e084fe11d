package main

import "math/big"

// congNormalize rewrites t modulo m: top-level remainders x mod k become
// x - k*(x div k), coefficients are reduced modulo m.
func (c *Ctx) congNormalize(t *Term, m *big.Int) *Term {
	if m == nil {
		m = new(big.Int)
	}
	half := new(big.Int).Rsh(m, 1)
	reduce := func(t *Term) *Term {
		if m.Sign() == 0 {
			return t
		}
		var out []Mono
		for _, mo := range c.monos(t) {
			k := new(big.Int).Mod(mo.c, m)
			if k.Cmp(half) > 0 {
				k.Sub(k, m)
			}
			if k.Sign() != 0 {
				out = append(out, Mono{k, mo.f})
			}
		}
		return c.mkPoly(out)
	}
	t = reduce(t)
	for round := 0; round < 200; round++ {
		var pick *Term
		for _, mo := range c.monos(t) {
			for _, f := range mo.f {
				if f.op == OMod && f.a[1].op == OConst && (pick == nil || f.id > pick.id) {
					pick = f
				}
			}
		}
		if pick == nil {
			return t
		}
		k := pick.a[1].v
		rep := pick.a[0]
		if k.Cmp(m) != 0 {
			rep = c.Sub(pick.a[0], c.Scale(c.rawDiv(pick.a[0], k), k))
		}
		n := c.zero
		var keep []Mono
		for _, mo := range c.monos(t) {
			has := false
			for _, f := range mo.f {
				if f == pick {
					has = true
				}
			}
			if !has {
				keep = append(keep, mo)
				continue
			}
			p := c.Big(mo.c)
			for _, f := range mo.f {
				if f == pick {
					p = c.Mul(p, rep)
				} else {
					p = c.Mul(p, f)
				}
			}
			n = c.Add(n, p)
			if len(n.mono) > 6000 {
				return nil
			}
		}
		t = reduce(c.Add(n, c.mkPoly(keep)))
		if len(t.mono) > 6000 {
			return nil
		}
	}
	return t
}

// rawDiv is the quotient as the simplifier writes it.
func (c *Ctx) rawDiv(a *Term, k *big.Int) *Term { return c.Div(a, c.Big(k), nil) }

// congGoal strengthens congruence atoms in positive position of a goal.
func (c *Ctx) congGoal(g *Term) *Term {
	switch g.op {
	case OAnd, OOr:
		var xs []*Term
		for _, a := range g.a {
			xs = append(xs, c.congGoal(a))
		}
		if g.op == OAnd {
			return c.And(xs...)
		}
		return c.Or(xs...)
	case OEq, OLe:
		p := g.a[0]
		ms := c.monos(p)
		if len(ms) == 1 && len(ms[0].f) == 1 && ms[0].f[0].op == OMod && ms[0].f[0].a[1].op == OConst && (g.op == OEq || ms[0].c.Sign() > 0) {
			md := ms[0].f[0]
			m := md.a[1].v
			if m.BitLen() < 8 {
				return g
			}
			t := c.congNormalize(md.a[0], m)
			if t == nil {
				return g
			}
			ms := c.monos(t)
			if len(ms) == 0 {
				return c.tru
			}
			if dbgFlag {
				println("cong residual", len(ms), r0(t))
			}
			gcd := new(big.Int)
			for _, mo := range ms {
				gcd.GCD(nil, nil, gcd, new(big.Int).Abs(mo.c))
			}
			r := c.scaleDown(t, gcd)
			if len(ms) < 60 {
				return c.Or(c.Eq(r, c.zero), g)
			}
		}
		if len(ms) > 2 {
			if t := c.congNormalize(p, nil); t != nil && t != p {
				if dbgFlag {
					println("expanded", len(t.mono), r0(t))
				}
				if len(t.mono) == 0 && t.op == OPoly || t == c.zero {
					return c.tru
				}
				if g.op == OLe && t.op == OConst && t.v.Sign() <= 0 {
					return c.tru
				}
				if g.op == OLe {
					return c.Or(c.Le(t, c.zero), g)
				}
				if len(t.mono) < 60 {
					return c.Or(c.Eq(t, c.zero), g)
				}
			}
		}
	}
	return g
}

func r0(t *Term) string {
	s := t.String()
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}
