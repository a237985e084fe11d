package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- expansion of quantified and sequence atoms

type query struct {
	c      *Ctx
	hyps   []*Term
	goal   *Term           // to be proved; negated in query
	forall map[*Term]*Term // Forall node -> bool var
	extra  []*Term
}

type encoder struct {
	c       *Ctx
	out     *strings.Builder
	decl    *strings.Builder
	done    map[*Term]string
	ufs     map[string]bool
	atoms   []*Term // int atoms that carry bounds
	fa      map[*Term]*Term
	selects map[*Term]map[*Term]bool // base arr -> index terms
	apps    map[string][]*Term
	foralls []*Term
	pol     map[*Term]uint8 // polarities seen: 1 positive, 2 negative
	newFA   []*Term
	side    []*Term // bound constraints to emit
	pow     []*Term
	divs    []*Term
}

func newEncoder(c *Ctx) *encoder {
	return &encoder{c: c, pol: map[*Term]uint8{}, out: &strings.Builder{}, decl: &strings.Builder{}, done: map[*Term]string{}, ufs: map[string]bool{}, fa: map[*Term]*Term{},
		selects: map[*Term]map[*Term]bool{}, apps: map[string][]*Term{}}
}

func sym(s string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
}

func num(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (e *encoder) bounds(t *Term, s string) {
	if t.lo != nil {
		fmt.Fprintf(e.out, "(assert (>= %s %s))\n", s, num(t.lo))
	}
	if t.hi != nil {
		fmt.Fprintf(e.out, "(assert (<= %s %s))\n", s, num(t.hi))
	}
}

// enc returns an SMT expression name for t.
func (e *encoder) enc(t *Term) string {
	if s, ok := e.done[t]; ok {
		return s
	}
	if t.bound {
		panic("enc: bound variable escapes: " + t.String())
	}
	var s string
	def := func(x string) {
		srt := "Int"
		if t.sort == SBool {
			srt = "Bool"
		}
		s = fmt.Sprintf("n%d", t.id)
		fmt.Fprintf(e.out, "(define-fun %s () %s %s)\n", s, srt, x)
	}
	switch t.op {
	case OConst:
		s = num(t.v)
	case OTrue:
		s = "true"
	case OFalse:
		s = "false"
	case OVar:
		s = sym(t.name)
		srt := "Int"
		if t.sort == SBool {
			srt = "Bool"
		}
		fmt.Fprintf(e.out, "(declare-const %s %s)\n", s, srt)
		e.bounds(t, s)
	case OPoly:
		var parts []string
		for _, m := range t.mono {
			if len(m.f) == 0 {
				parts = append(parts, num(m.c))
				continue
			}
			var fs []string
			if m.c.Cmp(bi(1)) != 0 {
				fs = append(fs, num(m.c))
			}
			for _, f := range m.f {
				fs = append(fs, e.enc(f))
			}
			if len(fs) == 1 {
				parts = append(parts, fs[0])
			} else {
				parts = append(parts, "(* "+strings.Join(fs, " ")+")")
			}
		}
		if len(parts) == 1 {
			def(parts[0])
		} else {
			def("(+ " + strings.Join(parts, " ") + ")")
		}
	case ODiv:
		def("(div " + e.enc(t.a[0]) + " " + e.enc(t.a[1]) + ")")
		e.divs = append(e.divs, t)
	case OMod:
		def("(mod " + e.enc(t.a[0]) + " " + e.enc(t.a[1]) + ")")
		e.divs = append(e.divs, t)
	case OIte:
		def("(ite " + e.enc(t.a[0]) + " " + e.enc(t.a[1]) + " " + e.enc(t.a[2]) + ")")
	case OSelect:
		base := t.a[0]
		if base.op != OAVar {
			panic("select on non-base array: " + base.String())
		}
		f := sym("a:" + base.name)
		if !e.ufs[f] {
			e.ufs[f] = true
			fmt.Fprintf(e.out, "(declare-fun %s (Int) Int)\n", f)
		}
		def("(" + f + " " + e.enc(t.a[1]) + ")")
		e.bounds(t, s)
		if e.selects[base] == nil {
			e.selects[base] = map[*Term]bool{}
		}
		e.selects[base][t.a[1]] = true
	case OApp:
		hasArr := false
		for _, x := range t.a {
			if x.sort == SArr {
				hasArr = true
			}
		}
		srt := "Int"
		if t.sort == SBool {
			srt = "Bool"
		}
		if hasArr || len(t.a) == 0 {
			s = fmt.Sprintf("|app:%s:%d|", t.name, t.id)
			fmt.Fprintf(e.out, "(declare-const %s %s)\n", s, srt)
			for _, x := range t.a {
				if x.sort != SArr {
					e.enc(x)
				}
			}
		} else {
			f := sym("f:" + t.name)
			if !e.ufs[f] {
				e.ufs[f] = true
				var as []string
				for _, x := range t.a {
					if x.sort == SBool {
						as = append(as, "Bool")
					} else {
						as = append(as, "Int")
					}
				}
				fmt.Fprintf(e.out, "(declare-fun %s (%s) %s)\n", f, strings.Join(as, " "), srt)
			}
			var as []string
			for _, x := range t.a {
				as = append(as, e.enc(x))
			}
			def("(" + f + " " + strings.Join(as, " ") + ")")
		}
		if t.sort == SInt {
			e.bounds(t, s)
		}
		e.apps[t.name] = append(e.apps[t.name], t)
	case OAnd, OOr:
		var as []string
		for _, x := range t.a {
			as = append(as, e.enc(x))
		}
		n := "and"
		if t.op == OOr {
			n = "or"
		}
		def("(" + n + " " + strings.Join(as, " ") + ")")
	case ONot:
		s = "(not " + e.enc(t.a[0]) + ")"
	case OLe:
		// move negative terms to the other side for readability/perf
		def("(<= " + e.enc(t.a[0]) + " 0)")
	case OEq:
		def("(= " + e.enc(t.a[0]) + " 0)")
	case OForall:
		s = fmt.Sprintf("|fa:%d|", t.id)
		fmt.Fprintf(e.out, "(declare-const %s Bool)\n", s)
		e.foralls = append(e.foralls, t)
		e.newFA = append(e.newFA, t)
	default:
		panic("enc: " + t.String())
	}
	e.done[t] = s
	return s
}

// notePol records under which polarity quantifiers occur in t.
func (e *encoder) notePol(t *Term, p uint8) {
	if e.pol[t]&p == p || t.bound && t.op != OForall {
		return
	}
	e.pol[t] |= p
	switch t.op {
	case OAnd, OOr:
		for _, a := range t.a {
			e.notePol(a, p)
		}
	case ONot:
		e.notePol(t.a[0], (p&1)<<1|p>>1)
	case OForall:
	default:
		for _, a := range t.a {
			e.notePol(a, 3)
		}
		for _, m := range t.mono {
			for _, f := range m.f {
				e.notePol(f, 3)
			}
		}
	}
}

func (e *encoder) assert(t *Term) {
	e.notePol(t, 1)
	s := e.enc(t)
	fmt.Fprintf(e.out, "(assert %s)\n", s)
}

// patterns: selects in body that mention bound var v linearly
type pat struct {
	base *Term
	app  string
	argi int
	k    *big.Int
	rest *Term
}

func (c *Ctx) patterns(body, v *Term) []pat {
	var out []pat
	seen := map[*Term]bool{}
	linear := func(idx *Term) (k *big.Int, rest *Term) {
		if !idx.bound {
			return nil, nil
		}
		var keep []Mono
		for _, m := range c.monos(idx) {
			n := 0
			for _, f := range m.f {
				if f == v {
					n++
				} else if f.bound {
					// nonlinear or other bound var
					return nil, nil
				}
			}
			if n == 0 {
				keep = append(keep, m)
				continue
			}
			if n != 1 || len(m.f) != 1 || k != nil {
				return nil, nil
			}
			k = m.c
		}
		if k == nil {
			return nil, nil
		}
		return k, c.mkPoly(keep)
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OSelect && t.a[0].op == OAVar {
			if k, r := linear(t.a[1]); k != nil {
				out = append(out, pat{t.a[0], "", 0, k, r})
			}
		}
		if t.op == OApp {
			for i, x := range t.a {
				if x.sort == SInt {
					if k, r := linear(x); k != nil {
						out = append(out, pat{nil, t.name, i, k, r})
					}
				}
			}
		}
		for _, x := range t.a {
			walk(x)
		}
		for _, m := range t.mono {
			for _, f := range m.f {
				walk(f)
			}
		}
	}
	walk(body)
	return out
}

// divide exact t/k as polynomial; nil if not divisible
func (c *Ctx) divExact(t *Term, k *big.Int) *Term {
	var ms []Mono
	for _, m := range c.monos(t) {
		q, r := new(big.Int).QuoRem(m.c, k, new(big.Int))
		if r.Sign() != 0 {
			return nil
		}
		ms = append(ms, Mono{q, m.f})
	}
	return c.mkPoly(ms)
}

const maxInst = 4000

// buildQuery encodes hyps and not goal with instantiated quantifiers.
func buildQuery(c *Ctx, hyps []*Term, goal *Term, rounds int) (*encoder, error) {
	e := newEncoder(c)
	for _, h := range hyps {
		e.assert(h)
	}
	if goal != nil {
		e.assert(c.Not(goal))
	}
	inst := map[string]bool{}
	count := 0
	doneSk := map[*Term]bool{}
	donePair := map[[2]int]bool{}
	doneApp := map[*Term]bool{}
	for r := 0; r < rounds; r++ {
		progress := false
		if os.Getenv("GOVC_INST") != "" {
			fmt.Println("round", r, "foralls", len(e.foralls), "inst", count)
		}
		// skolems
		for i := 0; i < len(e.foralls); i++ {
			f := e.foralls[i]
			if doneSk[f] || e.pol[f]&2 == 0 {
				continue
			}
			doneSk[f] = true
			progress = true
			sk := c.Var(fmt.Sprintf("sk%d", f.id), nil, nil)
			body := c.Subst(f.a[3], map[*Term]*Term{f.a[0]: sk})
			e.rawOr("(or "+e.enc(f)+" ", c.And(c.Le(f.a[1], sk), c.Lt(sk, f.a[2]), c.Not(body)))
		}
		// instances
		n0 := len(e.foralls)
		for i := 0; i < n0; i++ {
			f := e.foralls[i]
			if e.pol[f]&1 == 0 {
				continue
			}
			ps := c.patterns(f.a[3], f.a[0])
			try := func(t *Term) {
				k := fmt.Sprintf("%d:%d", f.id, t.id)
				if inst[k] || count > maxInst {
					return
				}
				// skip trivially out of range
				if c.Le(f.a[1], t) == c.fls || c.Lt(t, f.a[2]) == c.fls {
					return
				}
				inst[k] = true
				count++
				progress = true
				body := c.Subst(f.a[3], map[*Term]*Term{f.a[0]: t})
				e.rawOr("(or (not "+e.enc(f)+") ", c.Implies(c.And(c.Le(f.a[1], t), c.Lt(t, f.a[2])), body))
			}
			unit := false
			for _, p := range ps {
				if p.k.CmpAbs(bi(1)) == 0 {
					unit = true
				}
			}
			exact := map[*Term]bool{}
			for _, p := range ps {
				if p.base == nil || p.k.CmpAbs(bi(1)) == 0 {
					continue
				}
				for t := range e.selects[p.base] {
					if c.divExact(c.Sub(t, p.rest), p.k) != nil {
						exact[t] = true
					}
				}
			}
			nbase := map[*Term]int{}
			for _, p := range ps {
				if p.base != nil {
					nbase[p.base]++
				}
			}
			for _, p := range ps {
				if unit && r > 0 && p.k.CmpAbs(bi(1)) != 0 {
					continue // avoid matching loops
				}
				if p.base != nil {
					var idx []*Term
					for t := range e.selects[p.base] {
						idx = append(idx, t)
					}
					sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
					for _, t := range idx {
						if q := c.divExact(c.Sub(t, p.rest), p.k); q != nil {
							try(q)
						} else if p.k.Cmp(bi(1)) != 0 && !exact[t] && (t.size < 30 || len(idx) < 40) && nbase[p.base] <= 4 {
							// use floor
							kk := new(big.Int).Abs(p.k)
							d := c.Sub(t, p.rest)
							if p.k.Sign() < 0 {
								d = c.Neg(d)
							}
							try(c.Div(d, c.Big(kk), nil))
						}
					}
				} else {
					as := append([]*Term(nil), e.apps[p.app]...)
					for _, a := range as {
						if q := c.divExact(c.Sub(a.a[p.argi], p.rest), p.k); q != nil {
							try(q)
						}
					}
				}
			}
			// boundary instances
			if r == 0 {
				if f.a[1].size < 50 {
					try(f.a[1])
				}
				if f.a[2].size < 50 {
					try(c.AddI(f.a[2], -1))
				}
			}
		}
		// app axioms
		var names []string
		for n := range e.apps {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			as := e.apps[n]
			for i := 0; i < len(as); i++ {
				if !doneApp[as[i]] {
					doneApp[as[i]] = true
					for _, ax := range appAxioms(c, as[i]) {
						e.assert(ax)
						progress = true
					}
				}
			}
			as = e.apps[n]
			if len(as) > 40 && n != "pow2" {
				continue
			}
			for i := 0; i < len(as); i++ {
				for j := i + 1; j < len(as) && j < i+60; j++ {
					k := [2]int{as[i].id, as[j].id}
					if donePair[k] {
						continue
					}
					donePair[k] = true
					for _, ax := range pairAxioms(c, as[i], as[j]) {
						e.assert(ax)
						progress = true
					}
				}
			}
		}
		// a byte string equal to the minimal bytes of v has value v
		if bes, bls := e.apps["BE"], e.apps["bytelen"]; len(bes)*len(bls) <= 64 {
			for _, b := range bes {
				for _, l := range bls {
					k := [2]int{b.id, l.id}
					v := l.a[0]
					if donePair[k] || l.bound || b.bound {
						continue
					}
					donePair[k] = true
					if v == b || (v.op == OApp && v.name == "BE" && v.a[0] == b.a[0]) {
						continue
					}
					bv := c.canonBound()
					dig := c.ALam(bv, c.App("dig", bi(0), bi(255), v, c.Sub(c.AddI(l, -1), bv)))
					e.assert(c.Implies(c.And(c.Ge(v, c.zero), c.SeqEq(b.a[0], b.a[1], b.a[2], dig, c.zero, l, nil)), c.Eq(b, v)))
					progress = true
				}
			}
		}
		// digits at fixed positions make up the value
		for _, l := range e.apps["bytelen"] {
			v := l.a[0]
			k := [2]int{l.id, -7}
			if l.bound || donePair[k] {
				continue
			}
			fixed := false
			for _, d := range e.apps["dig"] {
				fixed = fixed || d.a[0] == v && d.a[1].op == OConst && d.a[1].v.Cmp(bi(32)) < 0
			}
			if !fixed {
				continue
			}
			donePair[k] = true
			progress = true
			sum := c.zero
			for i := int64(0); i < 32; i++ {
				d := c.App("dig", bi(0), bi(255), v, c.Int(i))
				e.assert(c.Implies(c.Le(l, c.Int(i)), c.Eq(d, c.zero)))
				sum = c.Add(sum, c.Mul(c.Big(pow2(uint(8*i))), d))
			}
			e.assert(c.Implies(c.And(c.Ge(v, c.zero), c.Le(l, c.Int(32))), c.Eq(v, sum)))
		}
		// division by symbolic terms: handled by solvers natively
		if !progress {
			break
		}
	}
	if os.Getenv("GOVC_INST") != "" {
		per := map[string]int{}
		for k := range inst {
			per[strings.SplitN(k, ":", 2)[0]]++
		}
		for _, f := range e.foralls {
			if n := per[fmt.Sprint(f.id)]; n > 100 {
				fmt.Printf("  inst %d of %s\n", n, f.String())
			}
		}
	}
	return e, nil
}

func (e *encoder) rawOr(prefix string, t *Term) {
	e.notePol(t, 1)
	s := e.enc(t)
	fmt.Fprintf(e.out, "(assert %s%s))\n", prefix, s)
}

// SeqEq builds equality of two sequences as a term.
func (c *Ctx) SeqEq(a1, o1, n1, a2, o2, n2 *Term, bf BF) *Term {
	lenEq := c.Eq(n1, n2)
	if lenEq == c.fls {
		return c.fls
	}
	if a1 == a2 && o1 == o2 {
		return lenEq
	}
	if bf == nil {
		bf = static
	}
	n := n1
	if n2.op == OConst {
		n = n2
	}
	for _, x := range []*Term{n1, n2} {
		l, h := bf(x)
		if l != nil && h != nil && l.Cmp(h) == 0 {
			n = c.Big(l)
		}
	}
	if n.op == OConst && n.v.Cmp(bi(100)) <= 0 {
		xs := []*Term{lenEq}
		for i := int64(0); i < n.v.Int64(); i++ {
			xs = append(xs, c.Eq(c.Select(a1, c.AddI(o1, i), bf), c.Select(a2, c.AddI(o2, i), bf)))
		}
		return c.And(xs...)
	}
	j := c.canonBound()
	return c.And(lenEq, c.Forall(j, c.zero, n, c.Eq(c.Select(a1, c.Add(o1, j), nil), c.Select(a2, c.Add(o2, j), nil))))
}

// canonBound returns a shared bound variable (safe: bodies never nest it
// because array terms are closed).
func (c *Ctx) canonBound() *Term {
	if t, ok := c.tab["v$j"]; ok {
		return t
	}
	return c.mk(&Term{op: OBound, sort: SInt, name: "$j"}, "v$j")
}

// appAxioms gives axioms for a single application.
func appAxioms(c *Ctx, t *Term) []*Term {
	if d := c.defs[t.name]; d != nil {
		m := map[*Term]*Term{}
		for i, p := range d.params {
			m[p] = t.a[i]
		}
		return []*Term{c.Eq(t, c.Subst(d.body, m))}
	}
	switch t.name {
	case "pow2":
		e := t.a[0]
		return []*Term{
			c.Implies(c.Ge(e, c.zero), c.Ge(t, c.one)),
			c.Implies(c.Ge(e, c.zero), c.Gt(t, e)),
			c.Implies(c.Eq(e, c.zero), c.Eq(t, c.one)),
			c.Implies(c.Ge(e, c.one), c.Ge(t, c.Int(2))),
			c.Implies(c.Ge(e, c.Int(8)), c.Ge(t, c.Int(256))),
			c.Implies(c.Ge(e, c.Int(256)), c.Ge(t, c.Big(pow2(256)))),
			c.Implies(c.And(c.Ge(e, c.zero), c.Le(e, c.Int(256))), c.Le(t, c.Big(pow2(256)))),
		}
	case "BE":
		// BE(arr,off,len): 0 <= BE < 256^len
		n := t.a[2]
		ax := []*Term{c.Ge(t, c.zero), c.Lt(t, c.Pow256(n)), c.Implies(c.Le(n, c.zero), c.Eq(t, c.zero))}
		// leading byte
		lead := c.Select(t.a[0], t.a[1], nil)
		ax = append(ax, c.Implies(c.And(c.Ge(n, c.one), c.Ge(lead, c.one)), c.Ge(t, c.Pow256(c.AddI(n, -1)))))
		ax = append(ax, c.Implies(c.And(c.Ge(n, c.one), c.Eq(lead, c.zero)), c.Lt(t, c.Pow256(c.AddI(n, -1)))))
		next := c.Select(t.a[0], c.AddI(t.a[1], 1), nil)
		ax = append(ax, c.Implies(c.Eq(n, c.one), c.Eq(t, lead)), c.Implies(c.Eq(n, c.Int(2)), c.Eq(t, c.Add(c.Mul(c.Int(256), lead), next))))
		return ax
	case "bytelen":
		v := t.a[0]
		return []*Term{c.Ge(t, c.zero), c.Implies(c.Le(v, c.zero), c.Eq(t, c.zero)),
			c.Implies(c.Ge(v, c.one), c.And(c.Ge(t, c.one), c.Le(c.Pow256(c.AddI(t, -1)), v), c.Lt(v, c.Pow256(t))))}
	case "bitlen":
		v := t.a[0]
		return []*Term{c.Ge(t, c.zero), c.Implies(c.Le(v, c.zero), c.Eq(t, c.zero)),
			c.Implies(c.Ge(v, c.one), c.And(c.Ge(t, c.one), c.Le(c.Pow2(c.AddI(t, -1)), v), c.Lt(v, c.Pow2(t))))}
	}
	if t.name == "and8" {
		a, b := t.a[0], t.a[1]
		ax := []*Term{c.Le(t, a), c.Le(t, b), c.Implies(c.Eq(a, b), c.Eq(t, a))}
		for s := uint(1); s < 8; s++ {
			p := c.Big(pow2(s))
			ax = append(ax, c.Implies(c.And(c.Lt(a, p), c.Eq(c.Mod(b, p, nil), c.zero)), c.Eq(t, c.zero)),
				c.Implies(c.And(c.Lt(b, p), c.Eq(c.Mod(a, p, nil), c.zero)), c.Eq(t, c.zero)))
		}
		return ax
	}
	if strings.HasPrefix(t.name, "and") && len(t.a) == 2 {
		return []*Term{c.Implies(c.And(c.Eq(t.a[0], t.a[1]), c.Ge(t.a[0], c.zero)), c.Eq(t, t.a[0]))}
	}
	if f, ok := extraAxioms[t.name]; ok {
		return f(c, t)
	}
	return nil
}

var extraAxioms = map[string]func(c *Ctx, t *Term) []*Term{}
var extraPair = map[string]func(c *Ctx, a, b *Term) []*Term{}

func pairAxioms(c *Ctx, a, b *Term) []*Term {
	switch a.name {
	case "pow2":
		d := c.Sub(a.a[0], b.a[0])
		if d.op == OConst && d.v.IsInt64() {
			k := d.v.Int64()
			if k > 0 && k < 5000 {
				return []*Term{c.Implies(c.Ge(b.a[0], c.zero), c.Eq(a, c.Scale(b, pow2(uint(k)))))}
			} else if k < 0 && k > -5000 {
				return []*Term{c.Implies(c.Ge(a.a[0], c.zero), c.Eq(b, c.Scale(a, pow2(uint(-k)))))}
			}
		}
		return []*Term{
			c.Implies(c.And(c.Ge(a.a[0], c.zero), c.Lt(a.a[0], b.a[0])), c.Le(c.Scale(a, bi(2)), b)),
			c.Implies(c.And(c.Ge(b.a[0], c.zero), c.Lt(b.a[0], a.a[0])), c.Le(c.Scale(b, bi(2)), a)),
			c.Implies(c.Eq(a.a[0], b.a[0]), c.Eq(a, b)),
		}
	case "BE":
		eq := c.SeqEq(a.a[0], a.a[1], a.a[2], b.a[0], b.a[1], b.a[2], nil)
		return []*Term{c.Implies(eq, c.Eq(a, b)), c.Implies(c.And(c.Eq(a, b), c.Eq(a.a[2], b.a[2])), eq)}
	}
	if f, ok := extraPair[a.name]; ok {
		return f(c, a, b)
	}
	// generic extensionality for apps with (arr,off,len)* arguments
	var conds []*Term
	has := false
	for i := 0; i < len(a.a); {
		if a.a[i].sort == SArr {
			has = true
			if i+2 >= len(a.a) || len(a.a) != len(b.a) {
				return nil
			}
			conds = append(conds, c.SeqEq(a.a[i], a.a[i+1], a.a[i+2], b.a[i], b.a[i+1], b.a[i+2], nil))
			i += 3
			continue
		}
		conds = append(conds, c.Eq(a.a[i], b.a[i]))
		i++
	}
	if !has {
		return nil
	}
	ax := []*Term{c.Implies(c.And(conds...), c.Eq(a, b))}
	if strings.HasPrefix(a.name, "inj:") {
		ax = append(ax, c.Implies(c.Eq(a, b), c.And(conds...)))
	}
	return ax
}

// ---- solvers

type solverRes struct {
	status string // unsat sat unknown
	solver string
	secs   float64
	model  map[string]string
	raw    string
}

var solverSem = make(chan struct{}, 8)
var totalSolver int64 // microseconds

// runSolver runs a solver with a limit on its processor time, so that the
// outcome does not depend on what else the machine does; the limit on the
// elapsed time, which is that of a machine five times as slow, starts when it
// is its turn.
func runSolver(ctx context.Context, cpu time.Duration, name string, args []string, q string) (string, float64) {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "unknown", 0
	}
	defer func() { <-solverSem }()
	ctx, cancel := context.WithTimeout(ctx, 5*cpu)
	defer cancel()
	t0 := time.Now()
	n := int((cpu + time.Second - 1) / time.Second)
	cmd := exec.CommandContext(ctx, "sh", append([]string{"-c", fmt.Sprintf("ulimit -t %d; exec \"$@\"", n), "sh", name}, args...)...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = io.Discard
	cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&totalSolver, d.Microseconds())
	return out.String(), d.Seconds()
}

func firstWord(s string) string {
	s = strings.TrimSpace(s)
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

// solve runs the portfolio.
func solve(q string, timeout time.Duration) solverRes {
	full := "(set-logic ALL)\n" + q + "(check-sat)\n"
	// stage 1: z3-new quickly
	o, d := runSolver(context.Background(), 4*time.Second, "z3-new", []string{"-in"}, full)
	if w := firstWord(o); w != "unknown" {
		return solverRes{status: w, solver: "z3-new", secs: d}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct {
		w, s string
		d    float64
	}
	ch := make(chan r, 4)
	run := func(name, label string, args []string, q string) {
		o, d := runSolver(ctx, timeout, name, args, q)
		ch <- r{firstWord(o), label, d}
	}
	go run("z3-new", "z3-new", []string{"-in"}, full)
	go run("z3", "z3", []string{"-in"}, full)
	go run("cvc5", "cvc5", []string{"--lang=smt2"}, full)
	var last r
	for i := 0; i < 3; i++ {
		x := <-ch
		if x.w != "unknown" {
			return solverRes{status: x.w, solver: x.s, secs: x.d}
		}
		last = x
	}
	return solverRes{status: "unknown", solver: "portfolio", secs: last.d}
}

// ---- incremental solver for feasibility

type incSolver struct {
	c     *Ctx
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stack []*Term
	decl  map[string]bool
	n     int
	calls int
}

var incMu sync.Mutex

func newInc(c *Ctx) *incSolver {
	s := &incSolver{c: c}
	s.start()
	return s
}

func (s *incSolver) start() {
	s.cmd = exec.Command("z3-new", "-in")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "z3:", err)
		os.Exit(3)
	}
	s.stack = nil
	s.decl = map[string]bool{}
	io.WriteString(s.in, "(set-option :global-declarations true)\n(set-option :timeout 400)\n")
}

func (s *incSolver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// incEnc encodes with global declarations: bounds asserted at the push level
// where the atom is first seen are lost on pop, so bounds are re-asserted per
// query term: we keep it simple and wrap each assertion with its atoms' bounds.
func (s *incSolver) encTerm(t *Term) string {
	e := newEncoder(s.c)
	x := e.enc(t)
	var b strings.Builder
	for _, l := range strings.Split(e.out.String(), "\n") {
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(assert") {
			b.WriteString(l)
			b.WriteByte('\n')
			continue
		}
		// declarations and definitions: once
		if s.decl[l] {
			continue
		}
		s.decl[l] = true
		b.WriteString(l)
		b.WriteByte('\n')
	}
	fmt.Fprintf(&b, "(assert %s)\n", x)
	return b.String()
}

// feasible checks pc /\ extra satisfiable; unknown counts as feasible.
func (s *incSolver) feasible(pc []*Term, extra *Term) bool {
	s.calls++
	clean := true
	for _, p := range pc {
		if p.bound {
			clean = false
			break
		}
	}
	if !clean {
		var q []*Term
		for _, p := range pc {
			if !p.bound {
				q = append(q, p)
			}
		}
		pc = q
	}
	if extra != nil && extra.bound {
		return true
	}
	if s.c.fieldAbs {
		var q []*Term
		for _, p := range pc {
			if !s.c.isNonlin(p) {
				q = append(q, p)
			}
		}
		pc = q
		if extra != nil && s.c.isNonlin(extra) {
			return true
		}
	}
	// sync prefix
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	var b strings.Builder
	if k < len(s.stack) {
		fmt.Fprintf(&b, "(pop %d)\n", len(s.stack)-k)
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		b.WriteString("(push)\n")
		b.WriteString(s.encTerm(pc[k]))
		s.stack = append(s.stack, pc[k])
	}
	b.WriteString("(push)\n")
	if extra != nil {
		b.WriteString(s.encTerm(extra))
	}
	s.n++
	fmt.Fprintf(&b, "(check-sat)\n(pop)\n(echo \"done%d\")\n", s.n)
	if os.Getenv("GOVC_INC") != "" {
		fmt.Fprint(os.Stderr, b.String())
	}
	if _, err := io.WriteString(s.in, b.String()); err != nil {
		s.close()
		s.start()
		return true
	}
	if dbgFlag {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 150*time.Millisecond {
				fmt.Fprintf(os.Stderr, "slow feasibility %.2fs pc=%d extra=%v\n", d.Seconds(), len(pc), extra)
			}
		}()
	}
	res := "unknown"
	want := fmt.Sprintf("done%d", s.n)
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.close()
			s.start()
			return true
		}
		l = strings.TrimSpace(l)
		if l == want || l == "\""+want+"\"" {
			break
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
		} else if strings.HasPrefix(l, "(error") && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "z3 inc:", l)
		}
	}
	return res != "unsat"
}

func solveQ(q string, to time.Duration) string {
	full := "(set-logic ALL)\n" + q + "(check-sat)\n"
	o, _ := runSolver(context.Background(), to, "z3-new", []string{"-in"}, full)
	return firstWord(o)
}
