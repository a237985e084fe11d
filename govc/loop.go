package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	live   []ssa.Value // values defined outside, used inside
}

func (x *Exec) loops(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if l, ok := x.loopInfo[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	for _, l := range res {
		seen := map[ssa.Value]bool{}
		for b := range l.body {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for _, o := range ops {
					v := *o
					if v == nil || seen[v] {
						continue
					}
					switch d := v.(type) {
					case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
						continue
					case *ssa.Parameter, *ssa.FreeVar:
					case ssa.Instruction:
						if l.body[d.Block()] {
							continue
						}
					}
					seen[v] = true
					l.live = append(l.live, v)
				}
			}
		}
		for _, p := range fn.Params {
			if !seen[p] {
				seen[p] = true
				l.live = append(l.live, p)
			}
		}
		sort.Slice(l.live, func(i, j int) bool { return l.live[i].Name() < l.live[j].Name() })
	}
	x.loopInfo[fn] = res
	return res
}

// loopEntry is called when control is about to enter block `to`.
func (x *Exec) loopEntry(st *State, to *ssa.BasicBlock, stop *loopStop) ([]*State, bool) {
	fr := st.top()
	l := x.loops(fr.fn)[to]
	if l == nil {
		return nil, false
	}
	back := l.body[fr.block]
	if back {
		fr.iters[to]++
	} else {
		fr.iters[to] = 0
	}
	if fr.iters[to] > x.maxUnroll {
		x.fail("loop in %s exceeds %d iterations without invariant", fr.fn, x.maxUnroll)
	}
	unroll := x.opts["unroll:"+fr.fn.Name()] != "" || x.opts["unroll:*"] != "" || x.prog.isSpec(fr.fn)
	if fr.fn.Parent() != nil && x.opts["unroll:"+fr.fn.Parent().Name()] != "" {
		unroll = true
	}
	if unroll || x.headerDecided(st, to, l) {
		return nil, false
	}
	if x.pure > 0 {
		x.fail("symbolic loop in specification code %s", fr.fn)
	}
	return x.cutLoop(st, to, l, stop), true
}

// headerDecided: the exit condition at the header is decided in this state.
func (x *Exec) headerDecided(st *State, to *ssa.BasicBlock, l *loop) (ok bool) {
	last := to.Instrs[len(to.Instrs)-1]
	ifi, isIf := last.(*ssa.If)
	if !isIf {
		return false
	}
	inb := 0
	for _, s := range to.Succs {
		if l.body[s] {
			inb++
		}
	}
	if inb == 2 {
		return false
	}
	s := st.fork()
	x.dry++
	nob := len(x.obligs)
	defer func() {
		x.dry--
		x.obligs = x.obligs[:nob]
		if r := recover(); r != nil {
			if _, u := r.(unsupported); u {
				ok = false
				return
			}
			panic(r)
		}
	}()
	fr := s.top()
	x.doPhis(s, fr.block, to)
	fr.prev, fr.block, fr.idx = fr.block, to, firstNonPhi(to)
	base := len(s.frames)
	for fr.idx < len(to.Instrs)-1 {
		in := to.Instrs[fr.idx]
		fr.idx++
		switch in.(type) {
		case *ssa.Next:
			return true // map/string iteration over concrete contents
		}
		if more := x.step(s, in, base-1); more != nil {
			return false
		}
		if len(s.frames) != base {
			return false
		}
	}
	cond := x.get(s, ifi.Cond).(*Term)
	if cond.bound {
		return false
	}
	return x.decideS(s, cond) != 0
}

// ---- cutting

type phiMode int

const (
	pmSame   phiMode = iota // unchanged
	pmStride                // entry + s*k
	pmHavoc                 // arbitrary of type, same object for slices
	pmFresh                 // arbitrary incl. fresh object
)

type phiInfo struct {
	phi    *ssa.Phi
	entry  Val
	mode   phiMode
	stride *big.Int
	// slices
	lenS, offS, capS *big.Int // strides (nil: havoc)
	cur, gen         Val
}

type loopEnv struct {
	st   *State
	vals map[*ssa.Phi]Val
	k    *Term
}

type cand struct {
	name string
	f    func(e *loopEnv) *Term
	user bool
	dead bool
}

type wloc struct {
	obj  *Obj
	path []Path
}

func parsePathKey(k string) []Path {
	var p []Path
	for _, s := range strings.Split(k, ".") {
		if s == "" {
			continue
		}
		n := 0
		fmt.Sscanf(s, "%d", &n)
		p = append(p, Path{f: n})
	}
	return p
}

func (x *Exec) cutLoop(st *State, to *ssa.BasicBlock, l *loop, stop *loopStop) []*State {
	c := x.c
	fr := st.top()
	from := fr.block
	pk := predIndex(from, to)
	np := firstNonPhi(to)
	phis := make([]*phiInfo, np)
	for i := 0; i < np; i++ {
		p := to.Instrs[i].(*ssa.Phi)
		phis[i] = &phiInfo{phi: p, entry: x.get(st, p.Edges[pk])}
	}
	loopName := fmt.Sprintf("loop in %s", fr.fn.RelString(nil))
	// assumption: no loop runs 2^56 times (DESIGN.md)
	k := c.Var("k", bi(0), pow2(56))
	depth := len(st.frames)
	ls := &loopStop{depth: depth, header: to, body: l.body}
	W := map[wkey]bool{}
	entryHeap := map[*Obj]bool{}
	for o := range st.heap {
		entryHeap[o] = true
	}

	havocSeq := 0
	mkHead := func() (*State, *loopEnv) {
		s := st.fork()
		havocSeq++
		env := &loopEnv{st: s, vals: map[*ssa.Phi]Val{}, k: k}
		// heap
		var ws []wkey
		for w := range W {
			ws = append(ws, w)
		}
		sort.Slice(ws, func(i, j int) bool {
			if ws[i].obj.id != ws[j].obj.id {
				return ws[i].obj.id < ws[j].obj.id
			}
			return ws[i].key < ws[j].key
		})
		for _, w := range ws {
			path := parsePathKey(w.key)
			old := x.loadPath(s, s.heap[w.obj], path)
			t := typeAt(w.obj.typ, path)
			nv := x.havocKeep(s, old, t, "w."+w.obj.name)
			s.heap[w.obj] = x.storePath(s, s.heap[w.obj], path, nv)
		}
		f := s.top()
		for _, p := range phis {
			var v Val
			switch p.mode {
			case pmSame:
				v = p.entry
			case pmStride:
				v = c.Add(p.entry.(*Term), c.Scale(k, p.stride))
			case pmHavoc:
				v = x.havocPhi(s, p, k)
			case pmFresh:
				v = x.freshPhi(s, p)
			}
			p.cur = v
			env.vals[p.phi] = v
			f.regs[p.phi] = v
		}
		f.prev, f.block, f.idx = from, to, np
		return s, env
	}
	runBody := func(s *State) (backs, exits []*State) {
		outs := x.explore(s, depth-1, ls)
		for _, o := range outs {
			switch o.stop {
			case "back":
				backs = append(backs, o)
			default:
				exits = append(exits, o)
			}
		}
		return
	}
	backEnv := func(b *State) *loopEnv {
		f := b.top()
		idx := predIndex(f.block, to)
		e := &loopEnv{st: b, vals: map[*ssa.Phi]Val{}, k: c.AddI(k, 1)}
		for _, p := range phis {
			e.vals[p.phi] = x.get(b, p.phi.Edges[idx])
		}
		return e
	}
	dryRun := func(s *State) (backs, exits []*State) {
		nob := len(x.obligs)
		x.dry++
		defer func() { x.dry--; x.obligs = x.obligs[:nob] }()
		return runBody(s)
	}

	// phase 1: discover modes and writes
	var backs []*State
	var headN int
	for iter := 0; ; iter++ {
		if iter > 30 {
			x.fail("%s: no fixpoint of loop shape", loopName)
		}
		head, _ := mkHead()
		headN = len(head.pc)
		cur := map[*ssa.Phi]Val{}
		for _, p := range phis {
			cur[p.phi] = p.cur
		}
		w := map[wkey]bool{}
		x.writes = append(x.writes, w)
		backs, _ = dryRun(head)
		x.writes = x.writes[:len(x.writes)-1]
		changed := false
		for key := range w {
			if entryHeap[key.obj] && !W[key] {
				// subsume prefixes
				W[key] = true
				changed = true
			}
		}
		for key := range W {
			for o := range W {
				if o != key && o.obj == key.obj && strings.HasPrefix(o.key, key.key) && (len(o.key) > len(key.key)) {
					delete(W, o)
				}
			}
		}
		for _, p := range phis {
			for _, b := range backs {
				nv := backEnv(b).vals[p.phi]
				if x.adjust(p, cur[p.phi], nv, b, entryHeap) {
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}

	// phase 2: candidates
	var cands []*cand
	cands = append(cands, x.autoCands(st, l, phis, W, backs, headN, k)...)
	cands = append(cands, x.userCands(st, l, phis)...)
	// entry check
	entryEnv := &loopEnv{st: st.fork(), vals: map[*ssa.Phi]Val{}, k: c.zero}
	entryEnv.st.top().enter = nil
	for _, p := range phis {
		entryEnv.vals[p.phi] = p.entry
		entryEnv.st.top().regs[p.phi] = p.entry
	}
	x.checkCands(cands, []*loopEnv{entryEnv}, "entry")
	cands = alive(cands)
	for iter := 0; ; iter++ {
		head, env := mkHead()
		for _, cd := range cands {
			if t := x.candTerm(cd, env); t != nil {
				x.assume(head, t)
			}
		}
		if head.stop != "" {
			head.stop = ""
		}
		bs, _ := dryRun(head)
		var envs []*loopEnv
		for _, b := range bs {
			envs = append(envs, backEnv(b))
		}
		n := len(cands)
		x.checkCands(cands, envs, "step")
		cands = alive(cands)
		if len(cands) == n {
			break
		}
	}
	if x.dry == 0 {
		for _, cd := range cands {
			x.obligs = append(x.obligs, &Oblig{Name: "invariant " + cd.name + " of " + loopName, status: "proved", solver: "houdini(z3-new)"})
		}
	}
	if x.debug {
		x.dbg("%s (dry=%d): invariants:", loopName, x.dry)
		for _, p := range phis {
			x.dbg("   phi %s %s mode=%d stride=%v", p.phi.Name(), p.phi.Comment, p.mode, p.stride)
		}
		for w := range W {
			x.dbg("   writes %s%s", w.obj.name, w.key)
		}
		for _, cd := range cands {
			x.dbg("   inv %s", cd.name)
		}
	}
	// phase 3: final run
	head, env := mkHead()
	for _, cd := range cands {
		if t := x.candTerm(cd, env); t != nil {
			x.assume(head, t)
		}
	}
	for key := range W {
		x.noteWrite(key.obj, parsePathKey(key.key))
	}
	_, exits := runBody(head)
	var res []*State
	for _, e := range exits {
		if e.stop == "exit" {
			e.stop = ""
		}
		// "unwound" states go on in an outer frame
		// "ret" states can only arise when the frame returned below base
		res = append(res, e)
	}
	if len(res) == 0 {
		st.stop = "dead"
		return []*State{st}
	}
	return res
}

func alive(cs []*cand) []*cand {
	var out []*cand
	for _, c := range cs {
		if !c.dead {
			out = append(out, c)
		}
	}
	return out
}

func typeAt(t types.Type, path []Path) types.Type {
	if t == nil {
		return nil
	}
	for _, p := range path {
		s, ok := under(t).(*types.Struct)
		if !ok {
			return nil
		}
		t = s.Field(p.f).Type()
	}
	return t
}

// havocKeep is havocLike with type information when available.
func (x *Exec) havocKeep(st *State, v Val, t types.Type, name string) Val {
	c := x.c
	switch o := v.(type) {
	case *ArrV:
		return x.havocLike(st, o, nil, name)
	case *SliceV:
		// slice header stored in memory: fresh object
		if o.obj == nil {
			if t == nil {
				x.fail("havoc of untyped nil slice")
			}
			return x.symD(st, t, name, 1)
		}
		a := x.sliceArr(st, o)
		if a.elems != nil {
			x.fail("loop modifies slice of composite values %s", name)
		}
		return x.havocLike(st, o, nil, name)
	case *StructV:
		if t == nil {
			x.fail("havoc of untyped struct")
		}
		n := &StructV{}
		s := under(t).(*types.Struct)
		for i := range o.f {
			n.f = append(n.f, x.havocKeep(st, o.f[i], s.Field(i).Type(), name+"."+s.Field(i).Name()))
		}
		return n
	case *BigV:
		return &BigV{c.Var(name, nil, nil)}
	case *PtrV:
		x.fail("loop modifies pointer cell %s", name)
	case *IfaceV:
		if t == nil {
			x.fail("loop modifies interface cell %s", name)
		}
	case *MapC:
		return &MapC{base: c.FreshName("loopmap")}
	}
	if t == nil {
		x.fail("havoc of untyped %T", v)
	}
	return x.symD(st, t, name, 1)
}

func (x *Exec) havocPhi(st *State, p *phiInfo, k *Term) Val {
	c := x.c
	name := p.phi.Comment
	if name == "" {
		name = p.phi.Name()
	}
	switch e := p.entry.(type) {
	case *Term:
		if e.sort == SBool {
			return c.BVar(name)
		}
		b, _ := scalarBasic(p.phi.Type())
		w, s, _ := intRange(b)
		lo, hi := typeBounds(w, s)
		return c.Var(name, lo, hi)
	case *SliceV:
		n := &SliceV{obj: e.obj, path: e.path, isnil: e.isnil}
		pick := func(base *Term, s *big.Int, nm string) *Term {
			if s != nil {
				return c.Add(base, c.Scale(k, s))
			}
			return c.Var(nm+"."+name, bi(0), maxLen)
		}
		n.off = pick(e.off, p.offS, "off")
		n.len = pick(e.len, p.lenS, "len")
		n.cap = pick(e.cap, p.capS, "cap")
		x.assume(st, c.Le(n.len, n.cap))
		if p.offS == nil || p.capS == nil {
			x.assume(st, c.Eq(c.Add(n.off, n.cap), c.Add(e.off, e.cap)))
			x.assume(st, c.Le(e.off, n.off))
		}
		if e.isnil != nil && e.isnil != c.fls {
			n.isnil = c.BVar("nil." + name)
		}
		return n
	case *StrV:
		n := &StrV{arr: e.arr}
		pick := func(base *Term, s *big.Int, nm string) *Term {
			if s != nil {
				return c.Add(base, c.Scale(k, s))
			}
			return c.Var(nm+"."+name, bi(0), maxLen)
		}
		n.off = pick(e.off, p.offS, "off")
		n.len = pick(e.len, p.lenS, "len")
		return n
	case *PtrV:
		// some element of the same array
		path := append([]Path(nil), e.path...)
		path[len(path)-1].idx = c.Var("at."+name, bi(0), maxLen)
		return &PtrV{obj: e.obj, path: path, isnil: e.isnil}
	}
	return x.freshPhi(st, p)
}

func (x *Exec) freshPhi(st *State, p *phiInfo) Val {
	name := p.phi.Comment
	if name == "" {
		name = p.phi.Name()
	}
	return x.symD(st, p.phi.Type(), name, 1)
}

// sameArray: two pointers to elements of the same array, neither of them nil
func sameArray(a, b *PtrV) bool {
	n := len(a.path)
	return a.obj != nil && a.obj == b.obj && n > 0 && n == len(b.path) && a.isnil == nil && b.isnil == nil &&
		a.path[n-1].idx != nil && b.path[n-1].idx != nil && samePath(a.path[:n-1], b.path[:n-1])
}

// adjust weakens the mode of p given one observed back-edge value.
func (x *Exec) adjust(p *phiInfo, cur, nv Val, b *State, entryHeap map[*Obj]bool) bool {
	c := x.c
	bs := b
	same := func(a, b Val) (r bool) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); ok {
					r = false
					return
				}
				panic(e)
			}
		}()
		if sameVal(a, b) {
			return true
		}
		if s1, ok := a.(*SliceV); ok {
			s2 := b.(*SliceV)
			return s1.obj == s2.obj && samePath(s1.path, s2.path) && s1.off == s2.off && s1.len == s2.len && s1.cap == s2.cap
		}
		if s1, ok := a.(*StrV); ok {
			s2 := b.(*StrV)
			return *s1 == *s2
		}
		if s1, ok := a.(*PtrV); ok {
			s2, ok := b.(*PtrV)
			return ok && s1.obj == s2.obj && samePath(s1.path, s2.path) && s1.isnil == s2.isnil
		}
		return x.eq(bs, a, b) == c.tru
	}
	cst := func(t *Term) *big.Int {
		if t.op == OConst {
			return t.v
		}
		return nil
	}
	switch p.mode {
	case pmSame:
		if same(cur, nv) {
			return false
		}
		switch n := nv.(type) {
		case *Term:
			if n.sort == SInt {
				if d := cst(c.Sub(n, cur.(*Term))); d != nil {
					p.mode = pmStride
					p.stride = d
					return true
				}
			}
			p.mode = pmHavoc
			return true
		case *SliceV:
			cu := cur.(*SliceV)
			if n.obj == cu.obj && n.obj != nil && samePath(n.path, cu.path) {
				p.mode = pmHavoc
				p.offS, p.lenS, p.capS = cst(c.Sub(n.off, cu.off)), cst(c.Sub(n.len, cu.len)), cst(c.Sub(n.cap, cu.cap))
				return true
			}
			p.mode = pmFresh
			return true
		case *StrV:
			cu := cur.(*StrV)
			if n.arr == cu.arr {
				p.mode = pmHavoc
				p.offS, p.lenS = cst(c.Sub(n.off, cu.off)), cst(c.Sub(n.len, cu.len))
				return true
			}
			p.mode = pmFresh
			return true
		case *PtrV:
			if sameArray(n, cur.(*PtrV)) {
				p.mode = pmHavoc
				return true
			}
		}
		p.mode = pmFresh
		return true
	case pmStride:
		d := cst(c.Sub(nv.(*Term), cur.(*Term)))
		if d != nil && d.Cmp(p.stride) == 0 {
			return false
		}
		p.mode = pmHavoc
		return true
	case pmHavoc:
		switch n := nv.(type) {
		case *PtrV:
			if !sameArray(n, cur.(*PtrV)) {
				p.mode = pmFresh
				return true
			}
			return false
		case *SliceV:
			cu := cur.(*SliceV)
			if n.obj != cu.obj || !samePath(n.path, cu.path) {
				p.mode = pmFresh
				return true
			}
			ch := false
			chk := func(s **big.Int, a, b *Term) {
				if *s == nil {
					return
				}
				d := cst(c.Sub(a, b))
				if d == nil || d.Cmp(*s) != 0 {
					*s = nil
					ch = true
				}
			}
			chk(&p.offS, n.off, cu.off)
			chk(&p.lenS, n.len, cu.len)
			chk(&p.capS, n.cap, cu.cap)
			return ch
		case *StrV:
			cu := cur.(*StrV)
			if n.arr != cu.arr {
				p.mode = pmFresh
				return true
			}
			ch := false
			chk := func(s **big.Int, a, b *Term) {
				if *s == nil {
					return
				}
				d := cst(c.Sub(a, b))
				if d == nil || d.Cmp(*s) != 0 {
					*s = nil
					ch = true
				}
			}
			chk(&p.offS, n.off, cu.off)
			chk(&p.lenS, n.len, cu.len)
			return ch
		}
		return false
	case pmFresh:
		// objects: the back-edge object must be loop-fresh or the havoc object
		if n, ok := nv.(*SliceV); ok && n.obj != nil {
			if entryHeap[n.obj] {
				if e, ok := p.entry.(*SliceV); !ok || e.obj != n.obj {
					x.fail("loop variable %s may alias an outer object", p.phi.Comment)
				}
			}
		}
		if n, ok := nv.(*PtrV); ok && n.obj != nil && entryHeap[n.obj] {
			x.fail("loop pointer variable %s may alias an outer object", p.phi.Comment)
		}
		return false
	}
	return false
}

func (x *Exec) candTerm(cd *cand, env *loopEnv) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if x.debug {
					x.dbg("cand %s: %s", cd.name, u.msg)
				}
			} else if x.debug {
				x.dbg("cand %s: %v", cd.name, r)
			}
			t = nil
		}
	}()
	return cd.f(env)
}

// checkCands marks candidates not provable in all envs as dead.
func (x *Exec) checkCands(cands []*cand, envs []*loopEnv, what string) {
	type job struct {
		cd *cand
		qs []string
	}
	var jobs []job
	for _, cd := range cands {
		for _, e := range envs {
			t := x.candTerm(cd, e)
			if t == nil || t.bound {
				if cd.user && x.debug {
					x.dbg("hint %s cannot be evaluated: %v", cd.name, t)
				}
				cd.dead = true
				break
			}
			if x.decide(e.st, t) == 1 {
				continue
			}
			if x.decide(e.st, t) == -1 && what == "entry" {
				if cd.user {
					x.dbg("hint %s does not hold at entry", cd.name)
				}
				cd.dead = true
				break
			}
			var qs []string
			for _, r := range []int{2, 4} {
				enc, err := buildQuery(x.c, e.st.pc, t, r)
				if err != nil {
					break
				}
				q := enc.out.String()
				if len(qs) > 0 && len(q) == len(qs[0]) {
					break
				}
				qs = append(qs, q)
			}
			if len(qs) == 0 {
				cd.dead = true
				break
			}
			jobs = append(jobs, job{cd: cd, qs: qs})
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	hints := 0 // a few hints are worth more time
	for i := range jobs {
		if !jobs[i].cd.dead && strings.HasPrefix(jobs[i].cd.name, "VI_") {
			hints++
		}
	}
	for i := range jobs {
		j := jobs[i]
		if j.cd.dead {
			continue
		}
		x.houdiniQ++
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			dead := j.cd.dead
			mu.Unlock()
			if dead {
				return
			}
			r, jq := "", ""
			for _, jq = range j.qs {
				tq := time.Now()
				to := x.houdiniTO
				if hints <= 24 && strings.HasPrefix(j.cd.name, "VI_") {
					to *= 5
				}
				r = solveQuick(jq, to)
				if d := time.Since(tq); x.debug && d > time.Second {
					x.dbg("slow cand %s at %s: %s %.1fs", j.cd.name, what, r, d.Seconds())
				}
				if r == "unsat" {
					break
				}
			}
			if r != "unsat" {
				mu.Lock()
				j.cd.dead = true
				mu.Unlock()
				if x.debug {
					x.dbg("cand %s fails at %s: %s", j.cd.name, what, r)
					if os.Getenv("GOVC_DUMP") != "" {
						os.WriteFile(fmt.Sprintf("/tmp/cand_%s_%s.smt2", strings.ReplaceAll(j.cd.name, "/", "_"), what), []byte("(set-logic ALL)\n"+jq+"(check-sat)\n"), 0644)
					}
				}
			}
		}()
	}
	wg.Wait()
}

// ---- automatic candidates

func (x *Exec) autoCands(st *State, l *loop, phis []*phiInfo, W map[wkey]bool, backs []*State, headN int, k *Term) []*cand {
	c := x.c
	var out []*cand
	add := func(name string, f func(e *loopEnv) *Term) {
		out = append(out, &cand{name: name, f: f})
	}
	for _, p := range phis {
		p := p
		nm := p.phi.Comment
		if nm == "" {
			nm = p.phi.Name()
		}
		if t, ok := p.entry.(*Term); ok && t.sort == SInt && p.mode == pmHavoc {
			add(nm+">=entry", func(e *loopEnv) *Term { return c.Ge(e.vals[p.phi].(*Term), t) })
			add(nm+"<=entry", func(e *loopEnv) *Term { return c.Le(e.vals[p.phi].(*Term), t) })
			add(nm+">=0", func(e *loopEnv) *Term { return c.Ge(e.vals[p.phi].(*Term), c.zero) })
			// pairwise with other ints
			for _, q := range phis {
				q := q
				if qt, ok := q.entry.(*Term); ok && qt.sort == SInt && q != p {
					qn := q.phi.Comment
					add(nm+"<="+qn, func(e *loopEnv) *Term { return c.Le(e.vals[p.phi].(*Term), e.vals[q.phi].(*Term)) })
					add(nm+">="+qn, func(e *loopEnv) *Term { return c.Ge(e.vals[p.phi].(*Term), e.vals[q.phi].(*Term)) })
				}
			}
			add(nm+"<=entry+k", func(e *loopEnv) *Term { return c.Le(e.vals[p.phi].(*Term), c.Add(t, e.k)) })
		}
		if sv, ok := p.entry.(*SliceV); ok && p.mode == pmHavoc {
			add("len("+nm+")<=entry", func(e *loopEnv) *Term { return c.Le(e.vals[p.phi].(*SliceV).len, sv.len) })
			add("off+len("+nm+")=const", func(e *loopEnv) *Term {
				v := e.vals[p.phi].(*SliceV)
				return c.Eq(c.Add(v.off, v.len), c.Add(sv.off, sv.len))
			})
			if p.lenS != nil {
				add("len("+nm+")>=0", func(e *loopEnv) *Term { return c.Ge(e.vals[p.phi].(*SliceV).len, c.zero) })
				add("off+len("+nm+")<=entry", func(e *loopEnv) *Term {
					v := e.vals[p.phi].(*SliceV)
					return c.Le(c.Add(v.off, v.len), c.Add(sv.off, sv.cap))
				})
			}
		}
		if sv, ok := p.entry.(*StrV); ok && p.mode == pmHavoc {
			add("off+len("+nm+")=const", func(e *loopEnv) *Term {
				v := e.vals[p.phi].(*StrV)
				return c.Eq(c.Add(v.off, v.len), c.Add(sv.off, sv.len))
			})
			add("len("+nm+")>=0", func(e *loopEnv) *Term { return c.Ge(e.vals[p.phi].(*StrV).len, c.zero) })
		}
		if sv, ok := p.entry.(*SliceV); ok && p.mode == pmFresh {
			// length stride from backs
			var s *big.Int
			ok2 := true
			for _, b := range backs {
				idx := predIndex(b.top().block, l.header)
				nv, ok := x.get(b, p.phi.Edges[idx]).(*SliceV)
				cu, ok3 := p.cur.(*SliceV)
				if !ok || !ok3 {
					ok2 = false
					break
				}
				d := c.Sub(nv.len, cu.len)
				if d.op != OConst || (s != nil && s.Cmp(d.v) != 0) {
					ok2 = false
					break
				}
				s = d.v
			}
			if ok2 && s != nil {
				add("len("+nm+")=entry+s*k", func(e *loopEnv) *Term {
					return c.Eq(e.vals[p.phi].(*SliceV).len, c.Add(sv.len, c.Scale(e.k, s)))
				})
			}
			add("len("+nm+")>=entry", func(e *loopEnv) *Term { return c.Ge(e.vals[p.phi].(*SliceV).len, sv.len) })
			if sv.obj != nil {
				a0 := x.sliceArr(st, sv)
				if a0.arr != nil {
					add("prefix("+nm+") kept", func(e *loopEnv) *Term {
						v := e.vals[p.phi].(*SliceV)
						if v.obj == nil {
							return c.fls
						}
						a := x.sliceArr(e.st, v)
						j := c.BoundVar("pf")
						return c.Forall(j, c.zero, sv.len, c.Eq(c.Select(a.arr, c.Add(v.off, j), nil), c.Select(a0.arr, c.Add(sv.off, j), nil)))
					})
				}
			}
		}
	}
	// header condition bounds: conditions assumed first in each back state
	subK := func(t *Term, kk *Term) *Term { return c.Subst(t, map[*Term]*Term{k: kk}) }
	seen := map[*Term]bool{}
	havocAtoms := map[*Term]bool{}
	for _, p := range phis {
		x.collectAtoms(p.cur, havocAtoms)
	}
	delete(havocAtoms, k)
	for _, b := range backs {
		n := 0
		for i := headN; i < len(b.pc) && n < 6; i++ {
			h := b.pc[i]
			n++
			if seen[h] {
				continue
			}
			seen[h] = true
			var p *Term
			if h.op == OLe {
				p = h.a[0]
			} else if h.op == ONot && h.a[0].op == OEq {
				p = h.a[0].a[0]
			} else {
				continue
			}
			d := c.Sub(subK(p, c.AddI(k, 1)), p)
			env := func(t *Term) func(e *loopEnv) *Term {
				// evaluate by substituting k; havoc atoms remapped by phi values
				return func(e *loopEnv) *Term { return x.envSubst(t, phis, e, k) }
			}
			if d.op == OConst && d.v.Sign() > 0 && h.op == OLe {
				out = append(out, &cand{name: "bound " + short(p), f: env(c.le0(c.Sub(p, c.Big(d.v))))})
			}
			if h.op != OLe && d.op == OConst {
				out = append(out, &cand{name: "le " + short(p), f: env(c.le0(p))}, &cand{name: "ge " + short(p), f: env(c.le0(c.Neg(p)))})
			}
			if d.op == OConst && d.v.Sign() == 0 || d.op != OConst {
				// involves havoc values: try p<=1 .. (one-step slack)
				out = append(out, &cand{name: "slack " + short(p), f: env(c.le0(c.AddI(p, -1)))})
				out = append(out, &cand{name: "keep " + short(p), f: env(c.le0(p))})
			}
		}
	}
	// arrays: frames and closed forms
	var keys []wkey
	for w := range W {
		keys = append(keys, w)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].obj.id != keys[j].obj.id {
			return keys[i].obj.id < keys[j].obj.id
		}
		return keys[i].key < keys[j].key
	})
	for _, w := range keys {
		path := parsePathKey(w.key)
		v0 := x.loadPath(st, st.heap[w.obj], path)
		x.arrCands(st, w.obj, path, nil, v0, backs, headN, k, phis, add)
		if bv, ok := v0.(*BigV); ok {
			o := w.obj
			add("big "+o.name+">=0", func(e *loopEnv) *Term {
				return c.Ge(x.loadPath(e.st, e.st.heap[o], path).(*BigV).t, c.zero)
			})
			_ = bv
		}
		if t, ok := v0.(*Term); ok && t.sort == SInt {
			o := w.obj
			add("cell "+o.name+">=entry", func(e *loopEnv) *Term {
				return c.Ge(x.loadPath(e.st, e.st.heap[o], path).(*Term), t)
			})
		}
	}
	return out
}

func short(t *Term) string {
	s := t.str(4)
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func (x *Exec) collectAtoms(v Val, m map[*Term]bool) {
	switch t := v.(type) {
	case *Term:
		if t.op == OVar {
			m[t] = true
		}
	case *SliceV:
		for _, y := range []*Term{t.off, t.len, t.cap} {
			if y.op == OVar {
				m[y] = true
			}
		}
	case *StrV:
		for _, y := range []*Term{t.off, t.len} {
			if y.op == OVar {
				m[y] = true
			}
		}
	}
}

// envSubst rewrites a term over the generic head (phi cur values) to env e.
func (x *Exec) envSubst(t *Term, phis []*phiInfo, e *loopEnv, k *Term) *Term {
	m := map[*Term]*Term{}
	for _, p := range phis {
		nv := e.vals[p.phi]
		switch cu := p.cur0().(type) {
		case *Term:
			if cu.op == OVar && cu != k {
				m[cu] = nv.(*Term)
			}
		case *SliceV:
			if n, ok := nv.(*SliceV); ok {
				for _, pr := range [][2]*Term{{cu.off, n.off}, {cu.len, n.len}, {cu.cap, n.cap}} {
					if pr[0].op == OVar {
						m[pr[0]] = pr[1]
					}
				}
			}
		case *StrV:
			if n, ok := nv.(*StrV); ok {
				for _, pr := range [][2]*Term{{cu.off, n.off}, {cu.len, n.len}} {
					if pr[0].op == OVar {
						m[pr[0]] = pr[1]
					}
				}
			}
		}
	}
	m[k] = e.k
	r := x.c.Subst(t, m)
	return r
}

func (p *phiInfo) cur0() Val {
	if p.gen == nil {
		p.gen = p.cur
	}
	return p.gen
}

// arrCands: frame and closed-form candidates for a modified array location.
func (x *Exec) arrCands(st *State, o *Obj, path []Path, sub []int, v0 Val, backs []*State, headN int, k *Term, phis []*phiInfo, add func(string, func(*loopEnv) *Term)) {
	c := x.c
	a0, ok := v0.(*ArrV)
	if !ok {
		if s, ok := v0.(*StructV); ok {
			for i := range s.f {
				x.arrCands(st, o, append(append([]Path(nil), path...), Path{f: i}), sub, s.f[i], backs, headN, k, phis, add)
			}
		}
		return
	}
	for _, p := range phis {
		p.cur0()
	}
	if a0.sub != nil && a0.keys == nil {
		for i := range a0.sub {
			x.arrCands(st, o, path, append(append([]int(nil), sub...), i), a0.sub[i], backs, headN, k, phis, add)
		}
		return
	}
	if a0.arr == nil || a0.flt {
		return
	}
	cur := func(s *State) *ArrV {
		a := x.loadPath(s, s.heap[o], path).(*ArrV)
		for _, i := range sub {
			a = a.sub[i]
		}
		return a
	}
	type wr struct{ idx, n *Term }
	var wrs []wr
	for _, b := range backs {
		t := cur(b).arr
		for t.op == OAStore || t.op == OACopy {
			if t.op == OAStore {
				wrs = append(wrs, wr{t.a[1], c.one})
			} else {
				wrs = append(wrs, wr{t.a[1], t.a[4]})
			}
			t = t.a[0]
		}
	}
	n := a0.n
	if m, _, ok := isFlatArr(a0); ok {
		n = c.Scale(n, bi(m))
	}
	add("frame-all "+o.name, func(e *loopEnv) *Term {
		j := c.canonBound()
		return c.Forall(j, c.zero, n, c.Eq(c.Select(cur(e.st).arr, j, nil), c.Select(a0.arr, j, nil)))
	})
	// cells outside a visible slice of the array
	seenSl := map[string]bool{}
	for _, v := range st.top().regs {
		sv, ok := v.(*SliceV)
		if !ok || sv.obj != o || len(path) != 0 || len(sub) != 0 {
			continue
		}
		kk := fmt.Sprintf("%d:%d", sv.off.id, sv.len.id)
		if seenSl[kk] || len(seenSl) > 4 {
			continue
		}
		seenSl[kk] = true
		add("frame-outside "+o.name, func(e *loopEnv) *Term {
			j := c.canonBound()
			eq := c.Eq(c.Select(cur(e.st).arr, j, nil), c.Select(a0.arr, j, nil))
			return c.And(c.Forall(j, c.zero, sv.off, eq), c.Forall(j, c.Add(sv.off, sv.len), n, eq))
		})
	}
	done := map[string]bool{}
	for _, w := range wrs {
		w := w
		kk := fmt.Sprintf("%d:%d", w.idx.id, w.n.id)
		if done[kk] || len(done) > 6 {
			continue
		}
		done[kk] = true
		at := func(e *loopEnv, t *Term) *Term { return x.envSubst(t, phis, e, k) }
		entry := &loopEnv{st: st, vals: map[*ssa.Phi]Val{}, k: c.zero}
		for _, p := range phis {
			entry.vals[p.phi] = p.entry
		}
		i0 := at(entry, w.idx)
		n0 := at(entry, w.n)
		// ascending: below i0 unchanged, from idx(k) on unchanged
		add("frame-below "+o.name, func(e *loopEnv) *Term {
			j := c.canonBound()
			return c.Forall(j, c.zero, i0, c.Eq(c.Select(cur(e.st).arr, j, nil), c.Select(a0.arr, j, nil)))
		})
		add("frame-above "+o.name, func(e *loopEnv) *Term {
			j := c.canonBound()
			return c.Forall(j, at(e, w.idx), n, c.Eq(c.Select(cur(e.st).arr, j, nil), c.Select(a0.arr, j, nil)))
		})
		// descending
		add("frame-below-desc "+o.name, func(e *loopEnv) *Term {
			j := c.canonBound()
			return c.Forall(j, c.zero, c.Add(at(e, w.idx), w.n), c.Eq(c.Select(cur(e.st).arr, j, nil), c.Select(a0.arr, j, nil)))
		})
		add("frame-above-desc "+o.name, func(e *loopEnv) *Term {
			j := c.canonBound()
			return c.Forall(j, c.Add(i0, n0), n, c.Eq(c.Select(cur(e.st).arr, j, nil), c.Select(a0.arr, j, nil)))
		})
	}
	// closed form: value written at idx(k) as function of k
	for idx := range done {
		_ = idx
	}
	seenIdx := map[*Term]bool{}
	for _, w := range wrs {
		w := w
		if w.n != c.one || seenIdx[w.idx] {
			continue
		}
		seenIdx[w.idx] = true
		d := c.Sub(c.Subst(w.idx, map[*Term]*Term{k: c.AddI(k, 1)}), w.idx)
		if d.op != OConst || d.v.Sign() == 0 {
			continue
		}
		val := (*Term)(nil)
		ok := true
		for bi := len(backs) - 1; bi >= 0; bi-- {
			b := backs[bi]
			v := c.Select(cur(b).arr, w.idx, nil)
			if !x.onlyK(v, k, phis, o) {
				ok = false
				break
			}
			if val == nil {
				val = v
				continue
			}
			cond := c.And(b.pc[min(headN, len(b.pc)):]...)
			if !x.onlyK(cond, k, phis, o) {
				ok = false
				break
			}
			val = c.Ite(cond, v, val)
		}
		if !ok || val == nil || !x.onlyK(w.idx, k, phis, o) {
			continue
		}
		add("closed-form "+o.name, func(e *loopEnv) *Term {
			m := c.BoundVar("m")
			ix := c.Subst(w.idx, map[*Term]*Term{k: m})
			vv := c.Subst(val, map[*Term]*Term{k: m})
			return c.Forall(m, c.zero, e.k, c.Eq(c.Select(cur(e.st).arr, ix, nil), vv))
		})
	}
}

// onlyK: term mentions no loop-havocked variables other than k.
func (x *Exec) onlyK(t *Term, k *Term, phis []*phiInfo, o *Obj) bool {
	bad := map[*Term]bool{}
	for _, p := range phis {
		x.collectAtoms(p.cur0(), bad)
	}
	delete(bad, k)
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if bad[t] {
			return false
		}
		if t.op == OAVar && strings.HasPrefix(t.name, "w.") {
			return false
		}
		if t.op == OVar && strings.HasPrefix(t.name, "w.") {
			return false
		}
		for _, y := range t.a {
			if !walk(y) {
				return false
			}
		}
		for _, m := range t.mono {
			for _, f := range m.f {
				if !walk(f) {
					return false
				}
			}
		}
		return true
	}
	return walk(t)
}

// ---- user invariants

type invFn struct {
	fn    *ssa.Function
	loops string
}

func (x *Exec) userCands(st *State, l *loop, phis []*phiInfo) []*cand {
	var out []*cand
	for _, inv := range x.invs {
		fn := inv.fn
		// bind parameters
		type slot struct {
			get  func(e *loopEnv) Val
			name string
		}
		choices := make([][]slot, len(fn.Params))
		ok := true
		for i, p := range fn.Params {
			name := p.Name()
			if v, has := st.ghost[name]; has {
				v := v
				choices[i] = []slot{{func(e *loopEnv) Val { return v }, name}}
				continue
			}
			var named, typed []slot
			for _, ph := range phis {
				ph := ph
				if types.Identical(ph.phi.Type(), p.Type()) {
					s := slot{func(e *loopEnv) Val { return e.vals[ph.phi] }, ph.phi.Comment}
					if ph.phi.Comment == name {
						named = append(named, s)
					}
					typed = append(typed, s)
				}
			}
			for _, lv := range l.live {
				lv := lv
				if types.Identical(lv.Type(), p.Type()) {
					v := st.top().regs[lv]
					if v == nil {
						continue
					}
					lname := lv.Name()
					if p, ok := lv.(*ssa.Phi); ok && p.Comment != "" {
						lname = p.Comment
					}
					s := slot{func(e *loopEnv) Val { return v }, lname}
					if lname == name {
						named = append(named, s)
					}
					typed = append(typed, s)
				} else if pt, isP := under(lv.Type()).(*types.Pointer); isP && types.Identical(pt.Elem(), p.Type()) {
					if _, isA := lv.(*ssa.Alloc); !isA {
						if _, isF := lv.(*ssa.FreeVar); !isF {
							continue
						}
					}
					v, isPtr := st.top().regs[lv].(*PtrV)
					if !isPtr || v.obj == nil {
						continue
					}
					s := slot{func(e *loopEnv) Val { return x.load(e.st, v) }, lv.Name()}
					if a, ok := lv.(*ssa.Alloc); ok && a.Comment == name {
						named = append(named, s)
					}
					typed = append(typed, s)
				}
			}
			if !x.allHints {
				typed = named
			} else if len(named) > 0 {
				// prefer the named first but keep the others
				typed = append(named, typed...)
			}
			if len(typed) == 0 {
				ok = false
				break
			}
			if len(typed) > 6 {
				typed = typed[:6]
			}
			choices[i] = typed
		}
		if !ok {
			x.dbg("hint %s is not bound here", fn.Name())
			continue
		}
		idx := make([]int, len(choices))
		total := 0
		for {
			sl := make([]slot, len(choices))
			var ns []string
			for i := range choices {
				sl[i] = choices[i][idx[i]]
				ns = append(ns, sl[i].name)
			}
			total++
			out = append(out, &cand{name: fn.Name() + "(" + strings.Join(ns, ",") + ")", user: true, f: func(e *loopEnv) *Term {
				args := make([]Val, len(sl))
				for i := range sl {
					args[i] = sl[i].get(e)
				}
				return x.evalBool(e.st, &FuncV{fn: fn}, args...)
			}})
			// increment
			i := 0
			for i < len(idx) {
				idx[i]++
				if idx[i] < len(choices[i]) {
					break
				}
				idx[i] = 0
				i++
			}
			if i == len(idx) || total > 150 {
				break
			}
		}
	}
	return out
}

func solveQuick(q string, to time.Duration) string {
	return solveQ(q, to)
}
