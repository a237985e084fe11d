package tevm

import (
	"encoding/json"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/internal/vc"
)

// C17, C18: account state. First the packed account record.

func VG_Account(r *vc.Rand) (*Account, *big.Int, uint64, bool) {
	a := new(Account)
	copy(a[:], r.Bytes(41))
	a[40] &= 1
	return a, r.Big(8*r.Intn(33), false), r.Uint64(), r.Bool()
}

// ---- model

type vcAcct struct {
	bal             *big.Int
	nonce           uint64
	suicided, there bool
}

type vcSlot struct {
	a common.Address
	k common.Hash
}

type vcModel struct {
	acct   map[common.Address]vcAcct
	code   map[common.Address]string
	store  map[vcSlot]common.Hash
	refund uint64
	logs   []*types.Log
	pre    map[common.Hash]string
}

func (m *vcModel) clone() *vcModel {
	n := &vcModel{
		acct: map[common.Address]vcAcct{}, code: map[common.Address]string{}, store: map[vcSlot]common.Hash{},
		refund: m.refund, logs: append([]*types.Log{}, m.logs...),
	}
	for k, v := range m.acct {
		n.acct[k] = v // balances are never changed in place
	}
	for k, v := range m.code {
		n.code[k] = v
	}
	for k, v := range m.store {
		n.store[k] = v
	}
	return n
}

// vcRemote is the node behind a fork: account state computed from the address.
type vcRemote struct{}

func vcRemoteAcct(a common.Address) vcAcct {
	if a[19]%4 != 1 {
		return vcAcct{bal: vc.I(0)}
	}
	return vcAcct{bal: vc.I(1000 + int64(a[19])), nonce: uint64(a[19]), there: true}
}

func vcRemoteCode(a common.Address) string {
	if a[19]%4 == 1 && a[19] > 8 {
		return string(a[18:])
	}
	return ""
}

func vcRemoteSlot(a common.Address, k common.Hash) (h common.Hash) {
	if (a[19]+k[31])%4 == 1 {
		h[31] = a[19] + k[31]
	}
	return
}

func (vcRemote) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	var a seth.Address
	json.Unmarshal(req.Params[0], &a)
	var v interface{}
	switch req.Method {
	case "eth_getBalance":
		n := seth.Int(*vcRemoteAcct(common.Address(a)).bal)
		v = &n
	case "eth_getTransactionCount":
		v = seth.Uint64(vcRemoteAcct(common.Address(a)).nonce)
	case "eth_getCode":
		d := seth.Data(vcRemoteCode(common.Address(a)))
		v = &d
	case "eth_getStorageAt":
		var k seth.Hash
		json.Unmarshal(req.Params[1], &k)
		h := seth.Hash(vcRemoteSlot(common.Address(a), common.Hash(k)))
		v = &h
	default:
		panic("unexpected request " + req.Method)
	}
	res.Result, _ = json.Marshal(v)
	return nil
}

type vcView struct {
	c      *Chain
	m      *vcModel
	fork   bool
	root   bool // AtBlock may be asked of it
	snaps  []int
	saved  []*vcModel
	dead   []int // snapshot numbers invalidated and not handed out again
	blocks map[int64]*vcModel
}

func (v *vcView) acct(a common.Address) vcAcct {
	if x, ok := v.m.acct[a]; ok {
		return x
	}
	if v.fork {
		return vcRemoteAcct(a)
	}
	return vcAcct{bal: vc.I(0)}
}

func (v *vcView) code(a common.Address) string {
	if x, ok := v.m.code[a]; ok {
		return x
	}
	if v.fork {
		return vcRemoteCode(a)
	}
	return ""
}

func (v *vcView) slot(a common.Address, k common.Hash) common.Hash {
	if x, ok := v.m.store[vcSlot{a, k}]; ok {
		return x
	}
	if v.fork {
		return vcRemoteSlot(a, k)
	}
	return common.Hash{}
}

func (v *vcView) reads(addrs []common.Address, slots []common.Hash) string {
	db := v.c.State.StateDB()
	for _, a := range addrs {
		w := v.acct(a)
		sa := seth.Address(a)
		switch {
		case db.GetBalance(a).Cmp(w.bal) != 0 || v.c.BalanceOf(&sa).Cmp(w.bal) != 0:
			return "balance"
		case db.GetNonce(a) != w.nonce:
			return "nonce"
		case db.HasSuicided(a) != w.suicided:
			return "self-destruct mark"
		case db.Exist(a) != w.there:
			return "existence"
		case string(db.GetCode(a)) != v.code(a) || db.GetCodeSize(a) != len(v.code(a)):
			return "code"
		}
		for _, k := range slots {
			if db.GetState(a, k) != v.slot(a, k) {
				return "storage"
			}
		}
	}
	if db.GetRefund() != v.m.refund {
		return "refund"
	}
	if len(v.c.State.Logs) != len(v.m.logs) {
		return "log count"
	}
	for i := range v.m.logs {
		if v.c.State.Logs[i] != v.m.logs[i] {
			return "logs"
		}
	}
	return ""
}

func vcPanics(fn func()) (p bool) {
	defer func() { p = recover() != nil }()
	fn()
	return
}

// VG_State: number of accounts and slots, whether the chain is a fork, and
// operations of five bytes each
func VG_State(r *vc.Rand) (int, int, bool, []byte) {
	return 1 + r.Intn(5), 1 + r.Intn(3), r.P(25), r.Bytes(5 * r.Intn(50))
}

//vc:property C17 C18
//vc:gen VG_State
func VB_State(na, ns int, fork bool, ops []byte) {
	vc.Requires(na > 0 && ns > 0 && na < 20 && ns < 20)
	addrs := make([]common.Address, na)
	for i := range addrs {
		addrs[i][19] = byte(3*i + 2)
		addrs[i][0] = byte(i & 1)
	}
	slots := make([]common.Hash, ns)
	for i := range slots {
		slots[i][31] = byte(i)
	}
	c := NewChain()
	if fork {
		c = NewFork(seth.NewClientTransport(vcRemote{}), 77)
	}
	first := &vcView{c: c, m: (&vcModel{}).clone(), fork: fork, root: true, blocks: map[int64]*vcModel{}}
	views := []*vcView{first}
	val := byte(0)
	for len(ops) >= 5 {
		op, a, b, w, q := ops[0]%20, addrs[int(ops[1])%na], addrs[int(ops[2])%na], ops[3], ops[4]
		k := slots[int(ops[2])%ns]
		ops = ops[5:]
		v := views[int(q)%len(views)]
		db := v.c.State.StateDB()
		val++
		x := v.acct(a)
		switch op {
		case 0:
			db.CreateAccount(a)
			v.m.acct[a] = vcAcct{bal: x.bal, there: true}
		case 1, 2:
			n := vc.I(int64(w))
			if w > 250 {
				n = vc.Sub(vc.Sub(vc.Pow2(256), vc.I(1)), x.bal)
			}
			if vc.Lt(vc.Add(x.bal, n), vc.Pow2(256)) {
				db.AddBalance(a, vc.Copy(n))
				x.bal, x.there = vc.Add(x.bal, n), true
				v.m.acct[a] = x
			}
		case 3:
			n := vc.Div(vc.Mul(x.bal, vc.I(int64(w))), vc.I(255))
			db.SubBalance(a, vc.Copy(n))
			x.bal, x.there = vc.Sub(x.bal, n), true
			v.m.acct[a] = x
		case 4:
			db.SetNonce(a, uint64(w)<<(q%56))
			x.nonce, x.there = uint64(w)<<(q%56), true
			v.m.acct[a] = x
		case 5:
			code := append([]byte{}, string([]byte{val, w, q}[:1+w%3])...)
			db.SetCode(a, code)
			v.m.code[a] = string(code)
		case 6, 7:
			h := common.Hash{}
			if w%4 != 0 {
				h[w%32] = val
			}
			db.SetState(a, k, h)
			v.m.store[vcSlot{a, k}] = h
		case 8:
			if w%2 == 0 {
				db.AddRefund(uint64(w))
				v.m.refund += uint64(w)
			} else {
				n := v.m.refund * uint64(w) / 255
				db.SubRefund(n)
				v.m.refund -= n
			}
		case 9:
			got := db.Suicide(a)
			want := x.there && !x.suicided
			vc.Assert("Suicide reports the first destruction", func() bool { return got == want })
			if x.there {
				x.suicided, x.bal = true, vc.I(0)
				v.m.acct[a] = x
			}
		case 10:
			l := &types.Log{Address: a, Data: []byte{val}}
			db.AddLog(l)
			v.m.logs = append(v.m.logs, l)
		case 11, 12, 13:
			n := vc.Div(vc.Mul(x.bal, vc.I(int64(w))), vc.I(255))
			can := cantransfer(db, a, n) && !cantransfer(db, a, vc.Add(x.bal, vc.I(1)))
			vc.Assert("affordability", func() bool { return can })
			y := v.acct(b)
			if vc.Le(vc.Pow2(256), vc.Add(y.bal, n)) && a != b {
				continue
			}
			arg := vc.Copy(n)
			dotransfer(db, a, b, arg)
			vc.Assert("amount unchanged", func() bool { return vc.Eq(arg, n) })
			if !vc.IsZero(n) {
				x.bal, x.there = vc.Sub(x.bal, n), true
				v.m.acct[a] = x
				y = v.acct(b)
				y.bal, y.there = vc.Add(y.bal, n), true
				v.m.acct[b] = y
			}
		case 14, 15:
			id := db.Snapshot()
			v.snaps = append(v.snaps, id)
			v.saved = append(v.saved, v.m.clone())
			for i, d := range v.dead {
				if d == id {
					v.dead = append(append([]int{}, v.dead[:i]...), v.dead[i+1:]...)
					break
				}
			}
		case 16:
			if len(v.dead) > 0 && w%2 == 0 {
				d := v.dead[int(w/2)%len(v.dead)]
				vc.Assert("a snapshot reverted past is refused", func() bool {
					return vcPanics(func() { db.RevertToSnapshot(d) })
				})
				continue
			}
			if len(v.snaps) == 0 {
				continue
			}
			i := int(w) % len(v.snaps)
			db.RevertToSnapshot(v.snaps[i])
			v.m = v.saved[i].clone()
			v.dead = append(v.dead, v.snaps[i:]...)
			v.snaps, v.saved = v.snaps[:i], v.saved[:i]
			// blocks sealed since are not asked for again
			v.blocks = map[int64]*vcModel{}
		case 17:
			n := int64(*v.c.State.Pending.Number)
			v.c.Seal()
			if v.root {
				v.blocks[n] = v.m.clone()
				n1 := int64(*v.c.State.Pending.Number)
				vc.Assert("next number", func() bool { return n1 == n+1 })
			}
			// snapshot numbers given out by Seal are not in dead
			v.dead = nil
		case 18:
			if !v.root || len(v.blocks) == 0 {
				continue
			}
			p := int64(*v.c.State.Pending.Number)
			n := p - 1 - int64(w)%int64(len(v.blocks))
			m, ok := v.blocks[n]
			if !ok {
				continue
			}
			ask := n
			if n == p-1 && w%2 == 0 {
				ask = -2
			}
			cc := v.c.AtBlock(ask)
			vc.Assert("sealed block can be viewed", func() bool { return cc != nil && cc != v.c })
			views = append(views, &vcView{c: cc, m: m.clone(), fork: fork})
		case 19:
			cc := v.c.Copy()
			v.dead = nil // Copy takes a snapshot
			n := &vcView{c: cc, m: v.m.clone(), fork: fork, root: v.root}
			n.blocks = map[int64]*vcModel{}
			for k, b := range v.blocks {
				n.blocks[k] = b
			}
			views = append(views, n)
		}
		if len(views) > 5 {
			views = append(views[:1], views[2:]...)
		}
		for _, y := range views {
			s := y.reads(addrs, slots)
			if s == "" {
				continue
			}
			vc.Assert(s, func() bool { return false })
		}
	}
}

// reading an account does not tie the state to the caller's variable
//
//vc:property C17
//vc:gen VG_BalanceOf
func VB_BalanceOf(x, y byte) {
	var a, b common.Address
	a[19], b[19] = x|1, y
	c := NewFork(seth.NewClientTransport(vcRemote{}), 77)
	var p seth.Address
	copy(p[:], a[:])
	got1 := c.BalanceOf(&p)
	vc.Assert("balance", func() bool { return vc.Eq(got1, vcRemoteAcct(a).bal) })
	copy(p[:], b[:])
	got2 := c.BalanceOf(&p)
	vc.Assert("balance of the second", func() bool { return vc.Eq(got2, vcRemoteAcct(b).bal) })
	got3 := c.BalanceOf((*seth.Address)(&a))
	vc.Assert("balance of the first, again", func() bool { return vc.Eq(got3, vcRemoteAcct(a).bal) })
	n := c.State.StateDB().GetNonce(a)
	vc.Assert("nonce of the first", func() bool { return n == vcRemoteAcct(a).nonce })
}

func VG_BalanceOf(r *vc.Rand) (byte, byte) { return byte(r.Uint64()), byte(r.Uint64()) }

// ---- slots of accounts whose addresses and slots are related

func VG_Slots(r *vc.Rand) (a, b *seth.Address, k, l *seth.Hash, v, w *seth.Hash) {
	a, b = new(seth.Address), new(seth.Address)
	k, l = new(seth.Hash), new(seth.Hash)
	v, w = new(seth.Hash), new(seth.Hash)
	copy(a[:], r.Bytes(20))
	copy(b[:], r.Bytes(20))
	copy(k[:], r.Bytes(32))
	copy(v[:], r.Bytes(32))
	copy(w[:], r.Bytes(32))
	*l = *k
	switch r.Intn(10) {
	case 0, 1, 2: // the slots differ as the addresses do, somewhere in them
		at := []int{0, 12, 12, r.Intn(13)}[r.Intn(4)]
		for i := range a {
			l[at+i] ^= a[i] ^ b[i]
		}
	case 3: // the same bytes in a row, cut elsewhere
		all := append(append([]byte{}, a[:]...), k[:]...)
		n := 1 + r.Intn(51)
		all = append(all[n:], all[:n]...)
		copy(b[:], all)
		copy(l[:], all[20:])
	case 4: // one byte of difference
		*b = *a
		l[r.Intn(32)] ^= byte(1 + r.Intn(255))
	case 5:
		*b = *a
		b[r.Intn(20)] ^= byte(1 + r.Intn(255))
	case 6: // the same slot
		*b = *a
	case 7: // two bytes exchanged
		*b = *a
		i, j := r.Intn(32), r.Intn(32)
		l[i], l[j] = l[j], l[i]
	case 8: // slots named after accounts
		*k, *l = seth.Hash{}, seth.Hash{}
		copy(k[12:], b[:])
		copy(l[12:], a[:])
	case 9: // the sum is the same
		x, y := vc.Add(vc.BE(a[:]), vc.BE(k[:])), vc.BE(b[:])
		z := vc.Mod(vc.Sub(x, y), vc.Pow2(256))
		*l = seth.Hash(common.BigToHash(z))
	}
	if r.P(10) {
		*v = seth.Hash{}
	}
	return
}

// VB_Slots: a slot of one account is none of another, nor another of the same.
//
//vc:property C17
//vc:gen VG_Slots
func VB_Slots(a, b *seth.Address, k, l *seth.Hash, v, w *seth.Hash) {
	db := NewChain().State.StateDB()
	aa, bb, kk, ll := common.Address(*a), common.Address(*b), common.Hash(*k), common.Hash(*l)
	db.SetState(aa, kk, common.Hash(*v))
	db.SetState(aa, common.Hash{1, 2, 3}, common.Hash{7})
	db.SetState(bb, ll, common.Hash(*w))
	vc.Ensures("the last write", func() bool { return db.GetState(bb, ll) == common.Hash(*w) })
	vc.Ensures("nothing else", func() bool {
		return *a == *b && *k == *l || db.GetState(aa, kk) == common.Hash(*v)
	})
	db.SetState(bb, ll, common.Hash{})
	vc.Ensures("zero", func() bool { return db.GetState(bb, ll) == common.Hash{} })
	vc.Ensures("nothing else with zero", func() bool {
		return *a == *b && *k == *l || db.GetState(aa, kk) == common.Hash(*v)
	})
}
