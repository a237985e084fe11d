package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ii = func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State)

func libIntr() {
	R := func(name string, f ii) { intrinsics[name] = f }
	R("errors.New", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		return x.newErr(st, "new"), nil
	})
	R("fmt.Errorf", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		return x.newErr(st, "errorf"), nil
	})
	opaqueStr := func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		n := x.c.Var("sprintf.len", bi(0), maxLen)
		return &StrV{x.c.AVar("sprintf", bi(0), bi(255)), x.c.zero, n}, nil
	}
	R("fmt.Sprintf", opaqueStr)
	R("fmt.Sprint", opaqueStr)
	none := func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) { return nil, nil }
	R("log.Printf", none)
	R("fmt.Fprintf", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		return TupleV{x.c.Var("fprintf.n", bi(0), maxLen), &IfaceV{id: x.c.Var("err:fprintf", bi(1), nil), isnil: x.c.BVar("fprintf.ok"), ityp: types.Universe.Lookup("error").Type()}}, nil
	})
	R("log.Println", none)
	R("bytes.Equal", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		a1, o1, n1 := x.bytesOf(st, a[0].(*SliceV))
		a2, o2, n2 := x.bytesOf(st, a[1].(*SliceV))
		return x.c.SeqEq(a1, o1, n1, a2, o2, n2, x.bf(st)), nil
	})
	R("bytes.Compare", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		a1, o1, n1 := x.bytesOf(st, a[0].(*SliceV))
		a2, o2, n2 := x.bytesOf(st, a[1].(*SliceV))
		c := x.c
		if n1 == n2 && n1.op == OConst {
			return x.cmp3(st, x.beTerm(st, a1, o1, n1), x.beTerm(st, a2, o2, n2)), nil
		}
		eq := c.SeqEq(a1, o1, n1, a2, o2, n2, x.bf(st))
		return c.Ite(eq, c.zero, c.Ite(c.BApp("bytes.less", a1, o1, n1, a2, o2, n2), c.Int(-1), c.one)), nil
	})
	// the first occurrence of a byte, or -1
	indexByte := func(x *Exec, st *State, arr, off, n, b *Term) *Term {
		c := x.c
		b = x.conc(st, b)
		i := c.App("indexbyte", bi(-1), maxLen, arr, off, n, b)
		if i.op == OConst {
			return i
		}
		j := c.CanonVar("ib")
		miss := c.Ne(c.Select(arr, c.Add(off, j), nil), b)
		x.assume(st, c.Lt(i, n))
		x.assume(st, c.Or(c.Lt(i, c.zero), c.Eq(c.Select(arr, c.Add(off, i), nil), b)))
		x.assume(st, c.Forall(j, c.zero, c.Ite(c.Lt(i, c.zero), n, i), miss))
		return i
	}
	R("strings.IndexByte", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		s := a[0].(*StrV)
		return indexByte(x, st, s.arr, s.off, x.conc(st, s.len), a[1].(*Term)), nil
	})
	R("bytes.IndexByte", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		arr, o, n := x.bytesOf(st, a[0].(*SliceV))
		return indexByte(x, st, arr, o, n, a[1].(*Term)), nil
	})
	// the first occurrence of a sequence, or -1
	index := func(x *Exec, st *State, a1, o1, n1, a2, o2, n2 *Term) *Term {
		c := x.c
		n1, n2 = x.conc(st, n1), x.conc(st, n2)
		i := c.App("index", bi(-1), maxLen, a1, o1, n1, a2, o2, n2)
		if i.op == OConst {
			return i
		}
		found := c.And(c.Le(c.Add(i, n2), n1), c.SeqEq(a1, c.Add(o1, i), n2, a2, o2, n2, x.bf(st)))
		x.assume(st, c.Or(c.Lt(i, c.zero), found))
		// and not at the start, unless it is there
		x.assume(st, c.Or(c.Eq(i, c.zero), c.Lt(n1, n2), c.Not(c.SeqEq(a1, o1, n2, a2, o2, n2, x.bf(st)))))
		return i
	}
	R("bytes.Index", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		a1, o1, n1 := x.bytesOf(st, a[0].(*SliceV))
		a2, o2, n2 := x.bytesOf(st, a[1].(*SliceV))
		return index(x, st, a1, o1, n1, a2, o2, n2), nil
	})
	R("strings.Index", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		s, p := a[0].(*StrV), a[1].(*StrV)
		return index(x, st, s.arr, s.off, s.len, p.arr, p.off, p.len), nil
	})
	hasPrefix := func(x *Exec, st *State, a1, o1, n1, a2, o2, n2 *Term) *Term {
		return x.c.And(x.c.Ge(n1, n2), x.c.SeqEq(a1, o1, n2, a2, o2, n2, x.bf(st)))
	}
	R("bytes.HasPrefix", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		a1, o1, n1 := x.bytesOf(st, a[0].(*SliceV))
		a2, o2, n2 := x.bytesOf(st, a[1].(*SliceV))
		return hasPrefix(x, st, a1, o1, n1, a2, o2, n2), nil
	})
	R("strings.HasPrefix", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		s, p := a[0].(*StrV), a[1].(*StrV)
		return hasPrefix(x, st, s.arr, s.off, x.conc(st, s.len), p.arr, p.off, x.conc(st, p.len)), nil
	})
	R("strings.HasSuffix", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		s, p := a[0].(*StrV), a[1].(*StrV)
		n, m := x.conc(st, s.len), x.conc(st, p.len)
		return x.c.And(x.c.Ge(n, m), x.c.SeqEq(s.arr, x.c.Add(s.off, x.c.Sub(n, m)), m, p.arr, p.off, m, x.bf(st))), nil
	})
	// one goroutine: an ordinary addition
	R("sync/atomic.AddUintptr", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		p := x.ptr(st, a[0], ci.Pos())
		if st.stop != "" {
			return nil, []*State{st}
		}
		v := x.wrap(st, x.c.Add(x.load(st, p).(*Term), a[1].(*Term)), types.Typ[types.Uintptr])
		x.store(st, p, v)
		return v, nil
	})
	R("internal/bytealg.MakeNoZero", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		n := a[0].(*Term)
		return x.newBytes(st, "mk", x.c.AConst(x.c.zero), n), nil
	})
	// ciphers: unknown bytes
	R("crypto/aes.NewCipher", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		c := x.c
		n := x.conc(st, a[0].(*SliceV).len)
		ok := c.Or(c.Eq(n, c.Int(16)), c.Eq(n, c.Int(24)), c.Eq(n, c.Int(32)))
		rt := ci.Value().Type().(*types.Tuple)
		return TupleV{
			&IfaceV{id: c.Var("aes", bi(1), nil), isnil: c.Not(ok), ityp: rt.At(0).Type()},
			&IfaceV{id: c.Var("err:aes", bi(1), nil), isnil: ok, ityp: rt.At(1).Type()},
		}, nil
	})
	R("crypto/cipher.NewCTR", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		c := x.c
		x.oblige(st, "block cipher in "+x.fnName(st), ci.Pos(), c.Not(x.ifaceNil(a[0].(*IfaceV))))
		x.oblige(st, "initial vector of a block in "+x.fnName(st), ci.Pos(), c.Eq(x.conc(st, a[1].(*SliceV).len), c.Int(16)))
		return &IfaceV{id: c.Var("ctr", bi(1), nil), isnil: c.fls, ityp: ci.Value().Type()}, nil
	})
	// a running hash: unknown digests
	R("github.com/philhofer/seth/keccak.New256", func(x *Exec, st *State, ci ssa.CallInstruction, a []Val) (Val, []*State) {
		return &IfaceV{id: x.c.Var("hash", bi(1), nil), isnil: x.c.fls, ityp: ci.Value().Type()}, nil
	})
	_ = types.Typ
}

// unknownBytes overwrites the slice with unknown bytes.
func (x *Exec) unknownBytes(st *State, s *SliceV, n *Term) {
	x.copyBuiltin(st, []Val{s, x.newBytes(st, "unknown", x.c.AVar("unknown", bi(0), bi(255)), n)})
}

// opaqueInvoke: calls of methods on opaque interface values
func (x *Exec) opaqueInvoke(st *State, in *ssa.Call, ci ssa.CallInstruction, name string, args []Val) func(*State) []*State {
	switch name {
	case "invoke:(error).Error":
		return func(s *State) []*State {
			iv := args[0].(*IfaceV)
			if x.ifaceNil(iv) != x.c.fls {
				x.oblige(s, "nil-error-method in "+x.fnName(s), ci.Pos(), x.c.Not(x.ifaceNil(iv)))
			}
			x.setRes(s, in, &StrV{x.c.AVar("errstr", bi(0), bi(255)), x.c.zero, x.c.Var("errstr.len", bi(0), maxLen)})
			return nil
		}
	case "invoke:(crypto/cipher.Stream).XORKeyStream":
		return func(s *State) []*State {
			dst, src := args[1].(*SliceV), args[2].(*SliceV)
			n := x.conc(s, src.len)
			x.oblige(s, "room for the key stream in "+x.fnName(s), ci.Pos(), x.c.Ge(x.conc(s, dst.len), n))
			x.unknownBytes(s, dst, n)
			return nil
		}
	case "invoke:(io.Writer).Write":
		if iv := args[0].(*IfaceV); iv.id == nil || !strings.HasPrefix(iv.id.name, "hash") {
			return nil
		}
		return func(s *State) []*State {
			x.setRes(s, in, TupleV{x.conc(s, args[1].(*SliceV).len), &IfaceV{isnil: x.c.tru, id: x.c.zero, ityp: types.Universe.Lookup("error").Type()}})
			return nil
		}
	case "invoke:(hash.Hash).Sum":
		if iv := args[0].(*IfaceV); iv.id == nil || !strings.HasPrefix(iv.id.name, "hash") {
			return nil
		}
		return func(s *State) []*State {
			b := args[1].(*SliceV)
			n := x.conc(s, b.len)
			cp := x.conc(s, b.cap)
			size := x.c.Int(32)
			if b.obj == nil || cp.op != OConst || n.op != OConst || cp.v.Cmp(new(big.Int).Add(n.v, bi(32))) < 0 {
				x.fail("digest behind a slice without room")
			}
			all := *b
			all.len = x.c.Add(n, size)
			tail := all
			tail.off, tail.len, tail.cap = x.c.Add(b.off, n), size, x.c.Sub(cp, n)
			x.unknownBytes(s, &tail, size)
			x.setRes(s, in, &all)
			return nil
		}
	}
	return nil
}
