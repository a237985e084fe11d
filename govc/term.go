package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Hash-consed terms. Int terms are canonical polynomials over atoms.

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SArr
)

type Op uint8

const (
	OConst  Op = iota
	OVar       // int or bool variable
	OBound     // bound variable
	OPoly      // canonical polynomial
	ODiv       // floor division by positive constant or term: a[0] div a[1]
	OMod       // a[0] mod a[1]
	OIte       // any sort
	OSelect    // a[0] base array (AVar), a[1] index
	OApp       // uninterpreted function; args may be Int or Arr
	OAnd       // n-ary
	OOr        // n-ary
	ONot       //
	OLe        // a[0] <= 0
	OEq        // a[0] == 0 (int poly)
	OForall    // a[0] bound var, a[1] lo, a[2] hi, a[3] body : lo<=v<hi => body
	OTrue
	OFalse
	OAVar   // array var
	OAConst // const array a[0]
	OALit   // explicit list a
	OAStore // a[0] arr a[1] idx a[2] val
	OACopy  // a[0] dst a[1] doff a[2] src a[3] soff a[4] n
	OALam   // a[0] bound var, a[1] body
)

type Mono struct {
	c *big.Int
	f []*Term
}

type Term struct {
	id     int
	op     Op
	sort   Sort
	a      []*Term
	v      *big.Int
	name   string
	mono   []Mono
	lo, hi *big.Int // static bounds (Int) or element bounds (Arr)
	bound  bool     // contains bound variables
	size   int      // rough size
}

type Ctx struct {
	nots  map[*Term]*Term
	tab   map[string]*Term
	n     int
	fresh map[string]int
	tru   *Term
	fls   *Term
	zero  *Term
	one   *Term
	defs  map[string]*opaqueDef

	fieldAbs bool
	fieldy   map[*Term]bool
	nonlin   map[*Term]bool
}

// opaqueDef is the definition of a specification function that is kept
// as an application and unfolded once per ground occurrence.
type opaqueDef struct {
	params []*Term
	body   *Term
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, defs: map[string]*opaqueDef{}}
	c.tru = c.mk(&Term{op: OTrue, sort: SBool}, "T")
	c.fls = c.mk(&Term{op: OFalse, sort: SBool}, "F")
	c.zero = c.Int(0)
	c.one = c.Int(1)
	return c
}

func (c *Ctx) mk(t *Term, key string) *Term {
	if o, ok := c.tab[key]; ok {
		return o
	}
	c.n++
	t.id = c.n
	t.size = 1
	for _, x := range t.a {
		if x.bound {
			t.bound = true
		}
		t.size += x.size
	}
	for _, m := range t.mono {
		for _, x := range m.f {
			if x.bound {
				t.bound = true
			}
			t.size += x.size
		}
	}
	if t.op == OBound {
		t.bound = true
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	c.tab[key] = t
	return t
}

func key(op Op, a []*Term, extra string) string {
	b := make([]byte, 0, 16+8*len(a)+len(extra))
	b = strconv.AppendInt(b, int64(op), 10)
	for _, x := range a {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(x.id), 10)
	}
	b = append(b, '|')
	b = append(b, extra...)
	return string(b)
}

var bigCache = func() (r [1025]*big.Int) {
	for i := range r {
		r[i] = big.NewInt(int64(i))
	}
	return
}()

func bi(n int64) *big.Int {
	if n >= 0 && n <= 1024 {
		return bigCache[n]
	}
	return big.NewInt(n)
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bi(1), n) }

func (c *Ctx) Int(n int64) *Term { return c.Big(bi(n)) }
func (c *Ctx) Big(v *big.Int) *Term {
	return c.mk(&Term{op: OConst, sort: SInt, v: v, lo: v, hi: v}, "c"+v.String())
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

func (c *Ctx) FreshName(base string) string {
	c.fresh[base]++
	if n := c.fresh[base]; n > 1 {
		return fmt.Sprintf("%s!%d", base, n)
	}
	return base
}

// Var makes a fresh int variable with bounds.
func (c *Ctx) Var(base string, lo, hi *big.Int) *Term {
	n := c.FreshName(base)
	return c.mk(&Term{op: OVar, sort: SInt, name: n, lo: lo, hi: hi}, "v"+n)
}
func (c *Ctx) BVar(base string) *Term {
	n := c.FreshName(base)
	return c.mk(&Term{op: OVar, sort: SBool, name: n}, "v"+n)
}
func (c *Ctx) BoundVar(base string) *Term {
	n := c.FreshName("$" + base)
	return c.mk(&Term{op: OBound, sort: SInt, name: n}, "v"+n)
}
func (c *Ctx) AVar(base string, lo, hi *big.Int) *Term {
	n := c.FreshName(base)
	return c.mk(&Term{op: OAVar, sort: SArr, name: n, lo: lo, hi: hi}, "v"+n)
}

func (c *Ctx) monos(t *Term) []Mono {
	switch t.op {
	case OConst:
		if t.v.Sign() == 0 {
			return nil
		}
		return []Mono{{t.v, nil}}
	case OPoly:
		return t.mono
	}
	return []Mono{{bi(1), []*Term{t}}}
}

func monoKey(f []*Term) string {
	if len(f) == 0 {
		return ""
	}
	b := make([]byte, 0, 8*len(f))
	for _, x := range f {
		n := x.id
		b = append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	return string(b)
}

func monoLess(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i].id < b[i].id
		}
	}
	return false
}

// mkPoly takes already merged, nonzero monos
func (c *Ctx) mkPoly(ms []Mono) *Term {
	if len(ms) == 0 {
		return c.Int(0)
	}
	if len(ms) == 1 {
		if len(ms[0].f) == 0 {
			return c.Big(ms[0].c)
		}
		if len(ms[0].f) == 1 && ms[0].c.Cmp(bi(1)) == 0 {
			return ms[0].f[0]
		}
	}
	sort.Slice(ms, func(i, j int) bool { return monoLess(ms[i].f, ms[j].f) })
	var b strings.Builder
	b.WriteString("p")
	for _, m := range ms {
		b.WriteString(m.c.Text(36))
		for _, x := range m.f {
			fmt.Fprintf(&b, "*%d", x.id)
		}
		b.WriteByte('+')
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	t := &Term{op: OPoly, sort: SInt, mono: ms}
	t.lo, t.hi = polyBounds(ms, func(x *Term) (*big.Int, *big.Int) { return x.lo, x.hi })
	return c.mk(t, k)
}

func polyBounds(ms []Mono, bf func(*Term) (*big.Int, *big.Int)) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, m := range ms {
		l, h := bi(1), bi(1)
		for i := 0; i < len(m.f); i++ {
			xl, xh := bf(m.f[i])
			// square
			if i+1 < len(m.f) && m.f[i+1] == m.f[i] {
				xl, xh = imul(xl, xh, xl, xh)
				if xl == nil || xl.Sign() < 0 {
					xl = bi(0)
				}
				i++
			}
			l, h = imul(l, h, xl, xh)
		}
		l, h = imul(l, h, m.c, m.c)
		if lo != nil && l != nil {
			lo = new(big.Int).Add(lo, l)
		} else {
			lo = nil
		}
		if hi != nil && h != nil {
			hi = new(big.Int).Add(hi, h)
		} else {
			hi = nil
		}
		if lo == nil && hi == nil {
			return
		}
	}
	return
}

// interval multiplication with nil = infinite
func imul(al, ah, bl, bh *big.Int) (lo, hi *big.Int) {
	if al != nil && ah != nil && bl != nil && bh != nil {
		p := new(big.Int).Mul(al, bl)
		lo, hi = p, p
		for _, q := range []*big.Int{new(big.Int).Mul(al, bh), new(big.Int).Mul(ah, bl), new(big.Int).Mul(ah, bh)} {
			if q.Cmp(lo) < 0 {
				lo = q
			}
			if q.Cmp(hi) > 0 {
				hi = q
			}
		}
		return
	}
	// zero constants
	if al != nil && ah != nil && al.Sign() == 0 && ah.Sign() == 0 {
		return bi(0), bi(0)
	}
	if bl != nil && bh != nil && bl.Sign() == 0 && bh.Sign() == 0 {
		return bi(0), bi(0)
	}
	// nonneg cases
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		lo = new(big.Int).Mul(al, bl)
		if ah != nil && bh != nil {
			hi = new(big.Int).Mul(ah, bh)
		}
		return
	}
	// b constant-sign finite scalar
	if bl != nil && bh != nil && bl.Cmp(bh) == 0 {
		if bl.Sign() > 0 {
			if al != nil {
				lo = new(big.Int).Mul(al, bl)
			}
			if ah != nil {
				hi = new(big.Int).Mul(ah, bl)
			}
		} else {
			if ah != nil {
				lo = new(big.Int).Mul(ah, bl)
			}
			if al != nil {
				hi = new(big.Int).Mul(al, bl)
			}
		}
		return
	}
	if al != nil && ah != nil && al.Cmp(ah) == 0 {
		return imul(bl, bh, al, ah)
	}
	if al != nil && al.Sign() >= 0 && bh != nil && bh.Sign() <= 0 {
		hi = new(big.Int).Mul(al, bh)
	}
	if bl != nil && bl.Sign() >= 0 && ah != nil && ah.Sign() <= 0 {
		hi = new(big.Int).Mul(bl, ah)
	}
	return
}

func (c *Ctx) lin(a *Term, ka *big.Int, b *Term, kb *big.Int) *Term {
	m := map[string]int{}
	var out []Mono
	add := func(ms []Mono, k *big.Int) {
		if k.Sign() == 0 {
			return
		}
		for _, x := range ms {
			kk := monoKey(x.f)
			cc := x.c
			if k.Cmp(bi(1)) != 0 {
				cc = new(big.Int).Mul(x.c, k)
			}
			if i, ok := m[kk]; ok {
				out[i].c = new(big.Int).Add(out[i].c, cc)
			} else {
				m[kk] = len(out)
				out = append(out, Mono{cc, x.f})
			}
		}
	}
	add(c.monos(a), ka)
	add(c.monos(b), kb)
	res := out[:0]
	for _, x := range out {
		if x.c.Sign() != 0 {
			res = append(res, x)
		}
	}
	// m*(x div m) + (x mod m) is x
	for i, x := range res {
		if len(x.f) != 1 || x.f[0].op != OMod || x.f[0].a[1].op != OConst {
			continue
		}
		for j, y := range res {
			if len(y.f) != 1 || y.f[0].op != ODiv || y.f[0].a[0] != x.f[0].a[0] || y.f[0].a[1] != x.f[0].a[1] {
				continue
			}
			if new(big.Int).Mul(x.c, x.f[0].a[1].v).Cmp(y.c) != 0 {
				continue
			}
			var rest []Mono
			for k, z := range res {
				if k != i && k != j {
					rest = append(rest, z)
				}
			}
			return c.lin(c.mkPoly(rest), bi(1), x.f[0].a[0], x.c)
		}
	}
	return c.mkPoly(res)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Big(new(big.Int).Add(a.v, b.v))
	}
	if a.op == OConst && a.v.Sign() == 0 {
		return b
	}
	if b.op == OConst && b.v.Sign() == 0 {
		return a
	}
	return c.lin(a, bi(1), b, bi(1))
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.zero
	}
	if b.op == OConst && b.v.Sign() == 0 {
		return a
	}
	return c.lin(a, bi(1), b, bi(-1))
}
func (c *Ctx) Neg(a *Term) *Term               { return c.lin(a, bi(-1), c.zero, bi(0)) }
func (c *Ctx) Scale(a *Term, k *big.Int) *Term { return c.lin(a, k, c.zero, bi(0)) }
func (c *Ctx) AddI(a *Term, n int64) *Term     { return c.Add(a, c.Int(n)) }

const maxPolyProd = 60000

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return c.Scale(b, a.v)
	}
	if b.op == OConst {
		return c.Scale(a, b.v)
	}
	ma, mb := c.monos(a), c.monos(b)
	if len(ma)*len(mb) > maxPolyProd {
		return c.App("nlmul", nil, nil, a, b)
	}
	m := map[string]int{}
	var out []Mono
	for _, x := range ma {
		for _, y := range mb {
			f := make([]*Term, 0, len(x.f)+len(y.f))
			i, j := 0, 0
			for i < len(x.f) || j < len(y.f) {
				if j >= len(y.f) || (i < len(x.f) && x.f[i].id <= y.f[j].id) {
					f = append(f, x.f[i])
					i++
				} else {
					f = append(f, y.f[j])
					j++
				}
			}
			k := monoKey(f)
			cc := new(big.Int).Mul(x.c, y.c)
			if p, ok := m[k]; ok {
				out[p].c = new(big.Int).Add(out[p].c, cc)
			} else {
				m[k] = len(out)
				out = append(out, Mono{cc, f})
			}
		}
	}
	res := out[:0]
	for _, x := range out {
		if x.c.Sign() != 0 {
			res = append(res, x)
		}
	}
	return c.mkPoly(res)
}

func floorDiv(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 && (r.Sign() < 0) != (b.Sign() < 0) {
		q.Sub(q, bi(1))
	}
	return q
}

// bounds callback for context-sensitive simplification
type BF func(*Term) (*big.Int, *big.Int)

func static(t *Term) (*big.Int, *big.Int) { return t.lo, t.hi }

// split t = d*y + r with coefficients of r in "small" form
func (c *Ctx) splitDiv(t *Term, d *big.Int) (y, r *Term) {
	var ys, rs []Mono
	for _, m := range c.monos(t) {
		q, rem := new(big.Int), new(big.Int)
		if len(m.f) == 0 {
			q, rem = new(big.Int).DivMod(m.c, d, rem)
		} else {
			q, rem = new(big.Int).QuoRem(m.c, d, rem)
			if rem.Sign() != 0 {
				// keep whole (do not introduce parts) unless divisible
				rs = append(rs, m)
				continue
			}
		}
		if q.Sign() != 0 {
			ys = append(ys, Mono{q, m.f})
		}
		if rem.Sign() != 0 {
			rs = append(rs, Mono{rem, m.f})
		}
	}
	return c.mkPoly(ys), c.mkPoly(rs)
}

// Div is Euclidean division.
func (c *Ctx) Div(a, b *Term, bf BF) *Term {
	if bf == nil {
		bf = static
	}
	if b.op != OConst {
		if a.op == OConst && a.v.Sign() == 0 {
			return c.zero
		}
		bl, _ := bf(b)
		al, ah := bf(a)
		if bl != nil && bl.Sign() > 0 && al != nil && al.Sign() >= 0 && ah != nil && ah.Cmp(bl) < 0 {
			return c.zero
		}
		return c.divAtom(a, b, bf)
	}
	d := b.v
	if d.Sign() <= 0 {
		if d.Sign() == 0 {
			return c.App("divzero", nil, nil, a)
		}
		// Euclidean division
		return c.Neg(c.Div(a, c.Big(new(big.Int).Neg(d)), bf))
	}
	if d.Cmp(bi(1)) == 0 {
		return a
	}
	if a.op == OConst {
		return c.Big(floorDiv(a.v, d))
	}
	y, r := c.splitDiv(a, d)
	rl, rh := bf(r)
	if rl != nil && rh != nil {
		ql, qh := floorDiv(rl, d), floorDiv(rh, d)
		if ql.Cmp(qh) == 0 {
			return c.Add(y, c.Big(ql))
		}
	}
	if r.op == ODiv && r.a[1].op == OConst {
		return c.Add(y, c.Div(r.a[0], c.Big(new(big.Int).Mul(r.a[1].v, d)), bf))
	}
	if r.op == OMod && r.a[1].op == OConst {
		q, rem := new(big.Int).QuoRem(r.a[1].v, d, new(big.Int))
		if rem.Sign() == 0 {
			return c.Add(y, c.Mod(c.Div(r.a[0], b, bf), c.Big(q), bf))
		}
	}
	if r.op == OIte && r.size < 400 {
		return c.Add(y, c.Ite(r.a[0], c.Div(r.a[1], b, bf), c.Div(r.a[2], b, bf)))
	}
	// gcd reduction: if all coefficients of r share g with d
	if g := c.contentGcd(r, d); g.Cmp(bi(1)) > 0 {
		return c.Add(y, c.Div(c.scaleDown(r, g), c.Big(new(big.Int).Quo(d, g)), bf))
	}
	return c.Add(y, c.divAtom(r, b, bf))
}

func (c *Ctx) contentGcd(t *Term, g0 *big.Int) *big.Int {
	g := new(big.Int).Set(g0)
	for _, m := range c.monos(t) {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		if g.Cmp(bi(1)) == 0 {
			break
		}
	}
	return g
}
func (c *Ctx) scaleDown(t *Term, g *big.Int) *Term {
	var ms []Mono
	for _, m := range c.monos(t) {
		ms = append(ms, Mono{new(big.Int).Quo(m.c, g), m.f})
	}
	return c.mkPoly(ms)
}

func (c *Ctx) divAtom(a, b *Term, bf BF) *Term {
	k := key(ODiv, []*Term{a, b}, "")
	if o, ok := c.tab[k]; ok {
		return o
	}
	t := &Term{op: ODiv, sort: SInt, a: []*Term{a, b}}
	if b.op == OConst {
		if a.lo != nil {
			t.lo = floorDiv(a.lo, b.v)
		}
		if a.hi != nil {
			t.hi = floorDiv(a.hi, b.v)
		}
	} else if b.lo != nil && b.lo.Sign() > 0 {
		if a.lo != nil && a.lo.Sign() >= 0 {
			t.lo = bi(0)
		}
		if a.hi != nil && a.hi.Sign() >= 0 {
			t.hi = floorDiv(a.hi, b.lo)
		}
	}
	return c.mk(t, k)
}

func (c *Ctx) Mod(a, b *Term, bf BF) *Term {
	if bf == nil {
		bf = static
	}
	if b.op != OConst {
		al, ah := bf(a)
		bl, _ := bf(b)
		if al != nil && al.Sign() >= 0 && ah != nil && bl != nil && ah.Cmp(bl) < 0 {
			return a
		}
		k := key(OMod, []*Term{a, b}, "")
		if o, ok := c.tab[k]; ok {
			return o
		}
		t := &Term{op: OMod, sort: SInt, a: []*Term{a, b}}
		if b.lo != nil && b.lo.Sign() > 0 {
			t.lo = bi(0)
			if b.hi != nil {
				t.hi = new(big.Int).Sub(b.hi, bi(1))
			}
		}
		return c.mk(t, k)
	}
	d := b.v
	if d.Sign() < 0 {
		return c.Mod(a, c.Big(new(big.Int).Neg(d)), bf)
	}
	if d.Sign() == 0 {
		return c.App("modzero", nil, nil, a)
	}
	if a.op == OConst {
		return c.Big(new(big.Int).Mod(a.v, d))
	}
	if d.Cmp(bi(1)) == 0 {
		return c.zero
	}
	al, ah := bf(a)
	if al != nil && ah != nil {
		q := floorDiv(al, d)
		if q.Cmp(floorDiv(ah, d)) == 0 {
			return c.Sub(a, c.Big(new(big.Int).Mul(q, d)))
		}
	}
	_, r := c.splitDiv(a, d)
	if r != a {
		return c.Mod(r, b, bf)
	}
	if r.op == OMod && r.a[1].op == OConst && new(big.Int).Rem(r.a[1].v, d).Sign() == 0 {
		return c.Mod(r.a[0], b, bf)
	}
	if r.op == OIte && r.size < 400 {
		return c.Ite(r.a[0], c.Mod(r.a[1], b, bf), c.Mod(r.a[2], b, bf))
	}
	if g := c.contentGcd(r, d); g.Cmp(bi(1)) > 0 {
		return c.Scale(c.Mod(c.scaleDown(r, g), c.Big(new(big.Int).Quo(d, g)), bf), g)
	}
	k := key(OMod, []*Term{r, b}, "")
	t := &Term{op: OMod, sort: SInt, a: []*Term{r, b}, lo: bi(0), hi: new(big.Int).Sub(d, bi(1))}
	return c.mk(t, k)
}

func (c *Ctx) App(name string, lo, hi *big.Int, args ...*Term) *Term {
	return c.mk(&Term{op: OApp, sort: SInt, name: name, a: args, lo: lo, hi: hi}, key(OApp, args, name))
}
func (c *Ctx) BApp(name string, args ...*Term) *Term {
	return c.mk(&Term{op: OApp, sort: SBool, name: name, a: args}, key(OApp, args, "b"+name))
}

func (c *Ctx) Not(a *Term) *Term {
	if n, ok := c.nots[a]; ok {
		return n
	}
	n := c.not(a)
	if c.nots == nil {
		c.nots = map[*Term]*Term{}
	}
	c.nots[a], c.nots[n] = n, a
	return n
}

func (c *Ctx) not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.fls
	case OFalse:
		return c.tru
	case ONot:
		return a.a[0]
	case OLe: // not (p<=0) -> 1-p <= 0
		return c.le0(c.Sub(c.one, a.a[0]))
	case OAnd:
		var xs []*Term
		for _, x := range a.a {
			xs = append(xs, c.Not(x))
		}
		return c.Or(xs...)
	case OOr:
		var xs []*Term
		for _, x := range a.a {
			xs = append(xs, c.Not(x))
		}
		return c.And(xs...)
	}
	return c.mk(&Term{op: ONot, sort: SBool, a: []*Term{a}}, key(ONot, []*Term{a}, ""))
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, c.tru, c.fls, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, c.fls, c.tru, xs) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}
func (c *Ctx) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(xs []*Term) bool
	walk = func(xs []*Term) bool {
		for _, x := range xs {
			if x == unit || seen[x] {
				continue
			}
			if x == zero {
				return false
			}
			if x.op == op {
				if !walk(x.a) {
					return false
				}
				continue
			}
			seen[x] = true
			if len(seen) < 200 && x.op != OAnd && x.op != OOr && seen[c.Not(x)] {
				return false
			}
			out = append(out, x)
		}
		return true
	}
	if !walk(xs) {
		return zero
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: SBool, a: out}, key(op, out, ""))
}

func (c *Ctx) le0(p *Term) *Term {
	if p.op == OConst {
		return c.Bool(p.v.Sign() <= 0)
	}
	if p.hi != nil && p.hi.Sign() <= 0 {
		return c.tru
	}
	if p.lo != nil && p.lo.Sign() > 0 {
		return c.fls
	}
	// gcd normalise: g*q + k <= 0 -> q + ceil(k/g) <= 0
	q, k := c.splitConst(p)
	g := new(big.Int)
	for _, m := range c.monos(q) {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Cmp(bi(1)) > 0 {
		q = c.scaleDown(q, g)
		nk := new(big.Int).Neg(floorDiv(new(big.Int).Neg(k), g))
		p = c.Add(q, c.Big(nk))
	}
	// |v| has at most K bits exactly when |v| < 2^K
	if b := bitlenOf(q); b != nil && k.IsInt64() && k.BitLen() < 14 {
		K := int(k.Int64())
		pos := c.monos(q)[0].c.Sign() > 0
		if g.Cmp(bi(1)) == 0 {
			if pos {
				if K > 0 {
					return c.fls
				}
				return c.Lt(b, c.Big(pow2(uint(-K))))
			}
			if K <= 0 {
				return c.tru
			}
			return c.Ge(b, c.Big(pow2(uint(K-1))))
		}
	}
	return c.mk(&Term{op: OLe, sort: SBool, a: []*Term{p}}, key(OLe, []*Term{p}, ""))
}

// bitlenOf returns v when q is a multiple of the bit length of v
func bitlenOf(q *Term) *Term {
	if q.op == OPoly && len(q.mono) == 1 && len(q.mono[0].f) == 1 {
		q = q.mono[0].f[0]
	}
	if q.op == OApp && q.name == "bitlen" {
		return q.a[0]
	}
	return nil
}

// splitConst p = q + k
func (c *Ctx) splitConst(p *Term) (*Term, *big.Int) {
	if p.op == OConst {
		return c.zero, p.v
	}
	if p.op != OPoly {
		return p, bi(0)
	}
	last := p.mono[len(p.mono)-1]
	if len(last.f) == 0 {
		ms := make([]Mono, len(p.mono)-1)
		copy(ms, p.mono)
		return c.mkPoly(ms), last.c
	}
	return p, bi(0)
}

func (c *Ctx) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(c.AddI(c.Sub(a, b), 1)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.sort == SBool {
		if a == c.tru {
			return b
		}
		if b == c.tru {
			return a
		}
		if a == c.fls {
			return c.Not(b)
		}
		if b == c.fls {
			return c.Not(a)
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if a.sort == SArr {
		panic("Eq on arrays")
	}
	// ite with constants
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		if x.op == OIte && y.op == OConst && (x.a[1].op == OConst || x.a[2].op == OConst) {
			return c.Or(c.And(x.a[0], c.Eq(x.a[1], y)), c.And(c.Not(x.a[0]), c.Eq(x.a[2], y)))
		}
	}
	p := c.Sub(a, b)
	if p.op == OConst {
		return c.Bool(p.v.Sign() == 0)
	}
	if (p.hi != nil && p.hi.Sign() < 0) || (p.lo != nil && p.lo.Sign() > 0) {
		return c.fls
	}
	ms := c.monos(p)
	if ms[0].c.Sign() < 0 {
		p = c.Neg(p)
	}
	q, k := c.splitConst(p)
	g := new(big.Int)
	for _, m := range c.monos(q) {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Cmp(bi(1)) > 0 {
		if new(big.Int).Rem(k, g).Sign() != 0 {
			return c.fls
		}
		p = c.Add(c.scaleDown(q, g), c.Big(new(big.Int).Quo(k, g)))
	}
	return c.mk(&Term{op: OEq, sort: SBool, a: []*Term{p}}, key(OEq, []*Term{p}, ""))
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.tru || a == b {
		return a
	}
	if cond == c.fls {
		return b
	}
	if cond.op == ONot {
		return c.Ite(cond.a[0], b, a)
	}
	if a.sort == SBool {
		if a == c.tru {
			return c.Or(cond, b)
		}
		if a == c.fls {
			return c.And(c.Not(cond), b)
		}
		if b == c.tru {
			return c.Or(c.Not(cond), a)
		}
		if b == c.fls {
			return c.And(cond, a)
		}
		return c.mk(&Term{op: OIte, sort: SBool, a: []*Term{cond, a, b}}, key(OIte, []*Term{cond, a, b}, ""))
	}
	if a.op == OIte && a.a[0] == cond {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == cond {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	t := &Term{op: OIte, sort: a.sort, a: []*Term{cond, a, b}}
	if a.lo != nil && b.lo != nil {
		t.lo = a.lo
		if b.lo.Cmp(a.lo) < 0 {
			t.lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		t.hi = a.hi
		if b.hi.Cmp(a.hi) > 0 {
			t.hi = b.hi
		}
	}
	return c.mk(t, key(OIte, t.a, ""))
}

func (c *Ctx) Forall(v, lo, hi, body *Term) *Term {
	if body == c.tru {
		return c.tru
	}
	if lo.op == OConst && hi.op == OConst {
		n := new(big.Int).Sub(hi.v, lo.v)
		if n.Sign() <= 0 {
			return c.tru
		}
		if n.Cmp(bi(16)) <= 0 {
			var xs []*Term
			for i := new(big.Int).Set(lo.v); i.Cmp(hi.v) < 0; i = new(big.Int).Add(i, bi(1)) {
				xs = append(xs, c.Subst(body, map[*Term]*Term{v: c.Big(i)}))
			}
			return c.And(xs...)
		}
	}
	t := &Term{op: OForall, sort: SBool, a: []*Term{v, lo, hi, body}}
	t = c.mk(t, key(OForall, t.a, ""))
	// bound flag: only if free bound variables other than v
	fv := map[*Term]bool{}
	c.freeBound(lo, fv)
	c.freeBound(hi, fv)
	fb := map[*Term]bool{}
	c.freeBound(body, fb)
	delete(fb, v)
	t.bound = len(fv)+len(fb) > 0
	return t
}

func (c *Ctx) freeBound(t *Term, out map[*Term]bool) {
	if !t.bound {
		return
	}
	if t.op == OBound {
		out[t] = true
		return
	}
	if t.op == OForall || t.op == OALam {
		in := map[*Term]bool{}
		for _, x := range t.a[1:] {
			c.freeBound(x, in)
		}
		for x := range in {
			if x != t.a[0] {
				out[x] = true
			}
		}
		return
	}
	for _, x := range t.a {
		c.freeBound(x, out)
	}
	for _, m := range t.mono {
		for _, x := range m.f {
			c.freeBound(x, out)
		}
	}
}

func (c *Ctx) Exists(v, lo, hi, body *Term) *Term {
	return c.Not(c.Forall(v, lo, hi, c.Not(body)))
}

// ---- arrays

func (c *Ctx) AConst(v *Term) *Term {
	return c.mk(&Term{op: OAConst, sort: SArr, a: []*Term{v}, lo: v.lo, hi: v.hi}, key(OAConst, []*Term{v}, ""))
}
func (c *Ctx) ALit(xs []*Term) *Term {
	t := &Term{op: OALit, sort: SArr, a: xs}
	if len(xs) > 0 {
		t.lo, t.hi = xs[0].lo, xs[0].hi
		for _, x := range xs {
			t.lo, t.hi = union(t.lo, t.hi, x.lo, x.hi)
		}
	}
	return c.mk(t, key(OALit, xs, ""))
}
func (c *Ctx) ABytes(b []byte) *Term {
	xs := make([]*Term, len(b))
	for i := range b {
		xs[i] = c.Int(int64(b[i]))
	}
	return c.ALit(xs)
}
func union(al, ah, bl, bh *big.Int) (lo, hi *big.Int) {
	if al != nil && bl != nil {
		lo = al
		if bl.Cmp(al) < 0 {
			lo = bl
		}
	}
	if ah != nil && bh != nil {
		hi = ah
		if bh.Cmp(ah) > 0 {
			hi = bh
		}
	}
	return
}

func (c *Ctx) Store(a, i, v *Term, bf BF) *Term {
	if bf == nil {
		bf = static
	}
	if il, ih := bf(i); il != nil && ih != nil && il.Cmp(ih) == 0 {
		i = c.Big(il)
	}
	if a.op == OALit && i.op == OConst && i.v.IsInt64() {
		k := int(i.v.Int64())
		if k >= 0 && k < len(a.a) {
			xs := append([]*Term(nil), a.a...)
			xs[k] = v
			return c.ALit(xs)
		}
	}
	if a.op == OAStore && a.a[1] == i {
		a = a.a[0]
	}
	if v.op == OSelect && v.a[0] == a && v.a[1] == i {
		return a
	}
	// constant stores ordered for canonical form
	if a.op == OAStore && i.op == OConst && a.a[1].op == OConst && i.v.Cmp(a.a[1].v) < 0 {
		return c.mkStore(c.Store(a.a[0], i, v, bf), a.a[1], a.a[2])
	}
	return c.mkStore(a, i, v)
}
func (c *Ctx) mkStore(a, i, v *Term) *Term {
	t := &Term{op: OAStore, sort: SArr, a: []*Term{a, i, v}}
	t.lo, t.hi = union(a.lo, a.hi, v.lo, v.hi)
	return c.mk(t, key(OAStore, t.a, ""))
}

func (c *Ctx) Copy(d, do, s, so, n *Term, bf BF) *Term {
	if bf == nil {
		bf = static
	}
	if nl, nh := bf(n); nl != nil && nh != nil && nl.Cmp(nh) == 0 {
		n = c.Big(nl)
	}
	if n.op == OConst && n.v.Sign() <= 0 {
		return d
	}
	if n.op == OConst && n.v.Cmp(bi(64)) <= 0 {
		k := int(n.v.Int64())
		if do.op == OConst && (d.op == OALit || d.op == OAConst || d.op == OAStore || d.op == OAVar || k <= 8) {
			// read all first
			vals := make([]*Term, k)
			for i := range vals {
				vals[i] = c.Select(s, c.AddI(so, int64(i)), bf)
			}
			if d.op == OALit {
				xs := append([]*Term(nil), d.a...)
				b := int(do.v.Int64())
				if b >= 0 && b+k <= len(xs) {
					copy(xs[b:], vals)
					return c.ALit(xs)
				}
			}
			big := false
			for _, v := range vals {
				if v.op == OIte {
					big = true
				}
			}
			if !big {
				for i := range vals {
					d = c.Store(d, c.AddI(do, int64(i)), vals[i], bf)
				}
				return d
			}
		}
	}
	t := &Term{op: OACopy, sort: SArr, a: []*Term{d, do, s, so, n}}
	t.lo, t.hi = union(d.lo, d.hi, s.lo, s.hi)
	return c.mk(t, key(OACopy, t.a, ""))
}

func (c *Ctx) ALam(v, body *Term) *Term {
	t := &Term{op: OALam, sort: SArr, a: []*Term{v, body}, lo: body.lo, hi: body.hi}
	t = c.mk(t, key(OALam, t.a, ""))
	fb := map[*Term]bool{}
	c.freeBound(body, fb)
	delete(fb, v)
	t.bound = len(fb) > 0
	return t
}

func (c *Ctx) decideLe(a, b *Term, bf BF) int { // 1 true, -1 false, 0 unknown
	p := c.Sub(a, b)
	l, h := bf(p)
	if h != nil && h.Sign() <= 0 {
		return 1
	}
	if l != nil && l.Sign() > 0 {
		return -1
	}
	return 0
}

func (c *Ctx) Select(a, i *Term, bf BF) *Term {
	if bf == nil {
		bf = static
	}
	if i.op != OConst && !i.bound {
		if il, ih := bf(i); il != nil && ih != nil && il.Cmp(ih) == 0 {
			i = c.Big(il)
		}
	}
	for {
		switch a.op {
		case OAConst:
			return a.a[0]
		case OALit:
			if i.op == OConst {
				if i.v.Sign() >= 0 && i.v.IsInt64() && i.v.Int64() < int64(len(a.a)) {
					return a.a[i.v.Int64()]
				}
				return c.App("oob", a.lo, a.hi, i)
			}
			if len(a.a) == 0 {
				return c.App("oob", nil, nil, i)
			}
			// range-restrict
			lo, hi := 0, len(a.a)-1
			il, ih := bf(i)
			if il != nil && il.IsInt64() && il.Int64() > 0 && il.Int64() <= int64(hi) {
				lo = int(il.Int64())
			}
			if ih != nil && ih.IsInt64() && ih.Int64() >= int64(lo) && ih.Int64() < int64(hi) {
				hi = int(ih.Int64())
			}
			return c.litSelect(a.a, lo, hi, i)
		case OAStore:
			d := c.Sub(i, a.a[1])
			if d.op == OConst {
				if d.v.Sign() == 0 {
					return a.a[2]
				}
				a = a.a[0]
				continue
			}
			dl, dh := bf(d)
			if (dl != nil && dl.Sign() > 0) || (dh != nil && dh.Sign() < 0) {
				a = a.a[0]
				continue
			}
			return c.Ite(c.Eq(i, a.a[1]), a.a[2], c.Select(a.a[0], i, bf))
		case OACopy:
			ge := c.decideLe(a.a[1], i, bf)
			lt := c.decideLe(c.AddI(i, 1), c.Add(a.a[1], a.a[4]), bf)
			if ge == -1 || lt == -1 {
				a = a.a[0]
				continue
			}
			si := c.Add(c.Sub(i, a.a[1]), a.a[3])
			if ge == 1 && lt == 1 {
				a, i = a.a[2], si
				continue
			}
			var cond []*Term
			if ge == 0 {
				cond = append(cond, c.Le(a.a[1], i))
			}
			if lt == 0 {
				cond = append(cond, c.Lt(i, c.Add(a.a[1], a.a[4])))
			}
			return c.Ite(c.And(cond...), c.Select(a.a[2], si, bf), c.Select(a.a[0], i, bf))
		case OIte:
			return c.Ite(a.a[0], c.Select(a.a[1], i, bf), c.Select(a.a[2], i, bf))
		case OALam:
			return c.Subst(a.a[1], map[*Term]*Term{a.a[0]: i})
		}
		return c.mk(&Term{op: OSelect, sort: SInt, a: []*Term{a, i}, lo: a.lo, hi: a.hi}, key(OSelect, []*Term{a, i}, ""))
	}
}

func (c *Ctx) litSelect(xs []*Term, lo, hi int, i *Term) *Term {
	// split into runs where value == index + const or equal
	type run struct {
		s, e int
		v    *Term // value as function of i
	}
	var runs []run
	for k := lo; k <= hi; {
		e := k
		// equal run
		for e+1 <= hi && xs[e+1] == xs[k] {
			e++
		}
		if e > k {
			runs = append(runs, run{k, e, xs[k]})
			k = e + 1
			continue
		}
		for e+1 <= hi && xs[e+1].op == OConst && xs[k].op == OConst && new(big.Int).Sub(xs[e+1].v, xs[e].v).Cmp(bi(1)) == 0 {
			e++
		}
		if e > k {
			runs = append(runs, run{k, e, c.Add(i, c.Big(new(big.Int).Sub(xs[k].v, bi(int64(k)))))})
		} else {
			runs = append(runs, run{k, k, xs[k]})
		}
		k = e + 1
	}
	var build func(l, h int) *Term
	build = func(l, h int) *Term {
		if l == h {
			return runs[l].v
		}
		m := (l + h) / 2
		return c.Ite(c.Le(i, c.Int(int64(runs[m].e))), build(l, m), build(m+1, h))
	}
	r := build(0, len(runs)-1)
	return r
}

// Subst replaces terms.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	onlyBound := true
	for k := range m {
		if k.op != OBound {
			onlyBound = false
		}
	}
	return c.subst(t, m, memo, onlyBound)
}

func (c *Ctx) subst(t *Term, m, memo map[*Term]*Term, ob bool) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if ob && !t.bound {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	s := func(x *Term) *Term { return c.subst(x, m, memo, ob) }
	var r *Term
	switch t.op {
	case OConst, OVar, OBound, OTrue, OFalse, OAVar:
		r = t
	case OPoly:
		// rebuild
		r = c.zero
		changed := false
		for _, mo := range t.mono {
			for _, f := range mo.f {
				if s(f) != f {
					changed = true
				}
			}
		}
		if !changed {
			r = t
			break
		}
		var keep []Mono
		for _, mo := range t.mono {
			ch := false
			for _, f := range mo.f {
				if s(f) != f {
					ch = true
				}
			}
			if !ch {
				keep = append(keep, mo)
				continue
			}
			p := c.Big(mo.c)
			for _, f := range mo.f {
				p = c.Mul(p, s(f))
			}
			r = c.Add(r, p)
		}
		r = c.Add(r, c.mkPoly(keep))
	case ODiv:
		r = c.Div(s(t.a[0]), s(t.a[1]), nil)
	case OMod:
		r = c.Mod(s(t.a[0]), s(t.a[1]), nil)
	case OIte:
		r = c.Ite(s(t.a[0]), s(t.a[1]), s(t.a[2]))
	case OSelect:
		r = c.Select(s(t.a[0]), s(t.a[1]), nil)
	case OApp:
		xs := make([]*Term, len(t.a))
		for i := range xs {
			xs[i] = s(t.a[i])
		}
		if t.sort == SBool {
			r = c.BApp(t.name, xs...)
		} else {
			r = c.reApp(t, xs)
		}
	case OAnd, OOr:
		xs := make([]*Term, len(t.a))
		for i := range xs {
			xs[i] = s(t.a[i])
		}
		if t.op == OAnd {
			r = c.And(xs...)
		} else {
			r = c.Or(xs...)
		}
	case ONot:
		r = c.Not(s(t.a[0]))
	case OLe:
		r = c.le0(s(t.a[0]))
	case OEq:
		r = c.Eq(s(t.a[0]), c.zero)
	case OForall:
		v, b := c.avoidCapture(t.a[0], t.a[3], m)
		r = c.Forall(v, s(t.a[1]), s(t.a[2]), s(b))
	case OAConst:
		r = c.AConst(s(t.a[0]))
	case OALit:
		xs := make([]*Term, len(t.a))
		for i := range xs {
			xs[i] = s(t.a[i])
		}
		r = c.ALit(xs)
	case OAStore:
		r = c.Store(s(t.a[0]), s(t.a[1]), s(t.a[2]), nil)
	case OACopy:
		r = c.Copy(s(t.a[0]), s(t.a[1]), s(t.a[2]), s(t.a[3]), s(t.a[4]), nil)
	case OALam:
		v, b := c.avoidCapture(t.a[0], t.a[1], m)
		r = c.ALam(v, s(b))
	default:
		panic("subst")
	}
	memo[t] = r
	return r
}

// avoidCapture renames binder v of body when a substituted term mentions v.
func (c *Ctx) avoidCapture(v, body *Term, m map[*Term]*Term) (*Term, *Term) {
	hit := false
	for k, r := range m {
		if k == v {
			panic("substitution of a binder")
		}
		if r.bound {
			fv := map[*Term]bool{}
			c.freeBound(r, fv)
			if fv[v] {
				hit = true
			}
		}
	}
	if !hit {
		return v, body
	}
	w := c.BoundVar("r")
	return w, c.Subst(body, map[*Term]*Term{v: w})
}

// CanonVar is the shared bound variable of the given name.
func (c *Ctx) CanonVar(name string) *Term {
	k := "v$" + name
	if t, ok := c.tab[k]; ok {
		return t
	}
	return c.mk(&Term{op: OBound, sort: SInt, name: "$" + name}, k)
}

func (c *Ctx) reApp(t *Term, xs []*Term) *Term {
	switch t.name {
	case "pow2":
		return c.Pow2(xs[0])
	case "pow256":
		return c.Pow256(xs[0])
	case "nlmul":
		return c.Mul(xs[0], xs[1])
	}
	if t.sort == SBool {
		return c.BApp(t.name, xs...)
	}
	return c.App(t.name, t.lo, t.hi, xs...)
}

func (c *Ctx) Pow2(e *Term) *Term {
	if e.op == OConst {
		if e.v.Sign() >= 0 && e.v.IsInt64() && e.v.Int64() < 5000 {
			return c.Big(pow2(uint(e.v.Int64())))
		}
	}
	// multiples of 8 are left as is
	lo := bi(1)
	var hi *big.Int
	if e.lo != nil && e.lo.Sign() >= 0 && e.lo.IsInt64() && e.lo.Int64() < 5000 {
		lo = pow2(uint(e.lo.Int64()))
	}
	if e.hi != nil && e.hi.Sign() >= 0 && e.hi.IsInt64() && e.hi.Int64() < 5000 {
		hi = pow2(uint(e.hi.Int64()))
	}
	return c.App("pow2", lo, hi, e)
}

// Pow256 (e) = 256^e, as pow2(8e)
func (c *Ctx) Pow256(e *Term) *Term { return c.Pow2(c.Scale(e, bi(8))) }

// String for debugging
func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	args := func() string {
		var s []string
		for i, x := range t.a {
			if i > 8 {
				s = append(s, "...")
				break
			}
			s = append(s, x.str(d-1))
		}
		return strings.Join(s, " ")
	}
	switch t.op {
	case OConst:
		if t.v.BitLen() > 60 {
			return "0x" + t.v.Text(16)
		}
		return t.v.String()
	case OVar, OBound, OAVar:
		return t.name
	case OPoly:
		var s []string
		for i, m := range t.mono {
			if i > 10 {
				s = append(s, "...")
				break
			}
			x := ""
			if m.c.Cmp(bi(1)) != 0 || len(m.f) == 0 {
				x = m.c.String()
				if len(x) > 20 {
					x = "0x" + m.c.Text(16)
				}
			}
			for _, f := range m.f {
				if x != "" {
					x += "*"
				}
				x += f.str(d - 1)
			}
			s = append(s, x)
		}
		return "(" + strings.Join(s, " + ") + ")"
	case ODiv:
		return "(div " + args() + ")"
	case OMod:
		return "(mod " + args() + ")"
	case OIte:
		return "(ite " + args() + ")"
	case OSelect:
		return t.a[0].str(d-1) + "[" + t.a[1].str(d-1) + "]"
	case OApp:
		return "(" + t.name + " " + args() + ")"
	case OAnd:
		return "(and " + args() + ")"
	case OOr:
		return "(or " + args() + ")"
	case ONot:
		return "(not " + args() + ")"
	case OLe:
		return "(<= " + args() + " 0)"
	case OEq:
		return "(= " + args() + " 0)"
	case OForall:
		return "(forall " + args() + ")"
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OAConst:
		return "(const " + args() + ")"
	case OALit:
		return "[" + args() + "]"
	case OAStore:
		return "(store " + args() + ")"
	case OACopy:
		return "(copy " + args() + ")"
	case OALam:
		return "(lam " + args() + ")"
	}
	return "?"
}
