package seth

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"sync"

	"github.com/philhofer/seth/internal/vc"
)

// C22, C23: what a Client or a Sender sends over the wire. vcWire is a node
// that records the requests and answers them.

type vcWire struct {
	lock  sync.Mutex
	reqs  []RPCRequest
	reply func(req *RPCRequest) (string, error)
}

func (w *vcWire) Execute(req *RPCRequest, res *RPCResponse) error {
	w.lock.Lock()
	defer w.lock.Unlock()
	buf, err := json.Marshal(req)
	if err != nil {
		return err
	}
	var got RPCRequest
	if err := json.Unmarshal(buf, &got); err != nil {
		return err
	}
	w.reqs = append(w.reqs, got)
	s, err := w.reply(&got)
	if err != nil {
		return err
	}
	return json.Unmarshal([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":%s}`, got.ID, s)), res)
}

func vcJSONString(raw json.RawMessage) (string, bool) {
	var s interface{}
	if json.Unmarshal(raw, &s) != nil {
		return "", false
	}
	t, ok := s.(string)
	return t, ok
}

// vcIsBlock: raw names the block n
func vcIsBlock(raw json.RawMessage, n int64) bool {
	s, ok := vcJSONString(raw)
	if !ok {
		return false
	}
	switch s {
	case "pending":
		return n == -2
	case "latest":
		return n == -1
	case "earliest":
		return n == 0
	}
	return n >= 0 && s == "0x"+strconv.FormatInt(n, 16)
}

// vcIsBytes: raw is the hex form of b
func vcIsBytes(raw json.RawMessage, b []byte) bool {
	s, ok := vcJSONString(raw)
	return ok && s == "0x"+hex.EncodeToString(b)
}

// vcIsNum: raw is the hex form of v
func vcIsNum(raw json.RawMessage, v *big.Int) bool {
	s, ok := vcJSONString(raw)
	return ok && s == "0x"+v.Text(16)
}

// vcIsOpts: raw describes the call o
func vcIsOpts(raw json.RawMessage, o *CallOpts) bool {
	var m map[string]json.RawMessage
	if json.Unmarshal(raw, &m) != nil {
		return false
	}
	ok := true
	addr := func(k string, a *Address) {
		v, have := m[k]
		ok = ok && have == (a != nil) && (a == nil || vcIsBytes(v, a[:]))
		delete(m, k)
	}
	num := func(k string, a *Int) {
		v, have := m[k]
		ok = ok && have == (a != nil) && (a == nil || vcIsNum(v, (*big.Int)(a)))
		delete(m, k)
	}
	addr("from", o.From)
	addr("to", o.To)
	num("gas", o.Gas)
	num("gasPrice", o.GasPrice)
	num("value", o.Value)
	var n *Int
	if o.Nonce != nil {
		n = (*Int)(vc.U(uint64(*o.Nonce)))
	}
	num("nonce", n)
	if v, have := m["data"]; !have && len(o.Data) > 0 || have && !vcIsBytes(v, o.Data) {
		return false
	}
	delete(m, "data")
	return ok && len(m) == 0
}

func vgBlocknum(r *vc.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return -1
	case 1:
		return -2
	case 2:
		return 0
	case 3:
		return int64(r.Intn(300))
	}
	return r.Int64() & (1<<63 - 1)
}

func vgOpts(r *vc.Rand) *CallOpts {
	o := &CallOpts{}
	num := func(bits int) *Int {
		if r.P(40) {
			return nil
		}
		return (*Int)(r.Big(bits, false))
	}
	if r.P(60) {
		o.From = VG_Address(r)
	}
	if r.P(70) {
		o.To = VG_Address(r)
	}
	o.Gas, o.GasPrice, o.Value = num(63), num(100), num(200)
	if r.P(50) {
		u := Uint64(r.Uint64() >> uint(r.Intn(64)))
		o.Nonce = &u
	}
	o.Data = r.Bytes(r.Intn(80))
	return o
}

func VG_Query(r *vc.Rand) (kind int, addr *Address, h *Hash, block int64, flag bool, o *CallOpts) {
	return r.Intn(24), VG_Address(r), vgHash(r), vgBlocknum(r), r.Bool(), vgOpts(r)
}

// VB_Query makes one query of every kind.
//
//vc:property C22
//vc:gen VG_Query
func VB_Query(kind int, addr *Address, h *Hash, block int64, flag bool, o *CallOpts) {
	w := &vcWire{}
	c := NewClientTransport(w)
	h0, a0, o0 := *h, *addr, *o
	result := `"0x2a"`
	method := ""
	var params []func(json.RawMessage) bool
	is := func(m string, ps ...func(json.RawMessage) bool) { method, params = m, ps }
	isAddr := func(p json.RawMessage) bool { return vcIsBytes(p, a0[:]) }
	isHash := func(p json.RawMessage) bool { return vcIsBytes(p, h0[:]) }
	isBlock := func(p json.RawMessage) bool { return vcIsBlock(p, block) }
	isOpts := func(p json.RawMessage) bool { return vcIsOpts(p, &o0) }
	isSpec := func(n int64) func(p json.RawMessage) bool {
		return func(p json.RawMessage) bool { return vcIsBlock(p, n) }
	}
	isBool := func(v bool) func(p json.RawMessage) bool {
		return func(p json.RawMessage) bool { return string(p) == fmt.Sprint(v) }
	}
	w.reply = func(*RPCRequest) (string, error) { return result, nil }
	zeros := `"0x` + hex.EncodeToString(make([]byte, 32)) + `"`
	switch kind {
	case 0:
		is("eth_protocolVersion")
		c.ProtocolVersion()
	case 1:
		is("eth_syncing")
		c.Syncing()
	case 2:
		is("eth_coinbase")
		c.Coinbase()
	case 3:
		is("eth_mining")
		c.Mining()
	case 4:
		is("eth_hashrate")
		c.Hashrate()
	case 5:
		is("eth_gasPrice")
		c.GasPrice()
	case 6:
		is("eth_accounts")
		c.Accounts()
	case 7:
		is("eth_blockNumber")
		c.BlockNumber()
	case 8:
		result = `{"transactions":[]}`
		is("eth_getBlockByNumber", isSpec(Pending), isBool(true))
		c.Pending()
	case 9:
		is("eth_getTransactionCount", isAddr, isBlock)
		c.GetNonceAt(addr, block)
	case 10:
		is("eth_getTransactionCount", isAddr, isSpec(Latest))
		c.GetNonce(addr)
	case 11:
		is("eth_getBalance", isAddr, isBlock)
		c.GetBalanceAt(addr, block)
	case 12:
		is("eth_getBalance", isAddr, isSpec(Latest))
		c.GetBalance(addr)
	case 13:
		is("eth_getBlockByNumber", isBlock, isBool(flag))
		c.GetBlock(block, flag)
	case 14:
		is("eth_getTransactionByHash", isHash)
		c.GetTransaction(h)
	case 15:
		is("eth_getBlockByNumber", isSpec(Latest), isBool(flag))
		c.Latest(flag)
	case 16:
		is("eth_getCode", isAddr, isBlock)
		c.GetCodeAt(addr, block)
	case 17:
		is("eth_getCode", isAddr, isSpec(Latest))
		c.GetCode(addr)
	case 18:
		is("eth_getTransactionReceipt", isHash)
		c.GetReceipt(h)
	case 19:
		result = zeros
		is("eth_getStorageAt", isAddr, isHash, isBlock)
		c.StorageAt(addr, h, block)
	case 20:
		is("eth_call", isOpts, isBlock)
		var out Data
		c.ConstCallAt(o, &out, block)
	case 21:
		spec := Latest
		if flag {
			spec = Pending
		}
		is("eth_call", isOpts, isSpec(spec))
		var out Data
		c.ConstCall(o, &out, flag)
	case 22:
		is("eth_estimateGas", isOpts, isSpec(Pending))
		c.EstimateGas(o)
	case 23:
		result = zeros
		if flag {
			is("eth_sendTransaction", isOpts)
			c.Call(o)
		} else {
			is("eth_sendRawTransaction", func(p json.RawMessage) bool { return vcIsBytes(p, o0.Data) })
			c.RawCall(o.Data)
		}
	}
	vc.Ensures("one request", func() bool { return len(w.reqs) == 1 })
	q := w.reqs[0]
	vc.Ensures("JSON-RPC 2.0", func() bool { return q.Version == "2.0" })
	vc.Ensures("the method", func() bool { return q.Method == method })
	vc.Ensures("its parameters", func() bool {
		if len(q.Params) != len(params) {
			return false
		}
		for i := range params {
			if !params[i](q.Params[i]) {
				return false
			}
		}
		return true
	})
	vc.Ensures("arguments unchanged", func() bool { return *h == h0 && *addr == a0 })
	vc.Ensures("specifiers unchanged", func() bool {
		return string(rawpending) == `"pending"` && string(rawlatest) == `"latest"` && string(rawearliest) == `"earliest"` &&
			string(rawtrue) == "true" && string(rawfalse) == "false"
	})
}

func VG_FilterReq(r *vc.Rand) (kind int, topics []*Hash, a, b, tok *Address, start, end int64) {
	for i := r.Intn(5); i > 0; i-- {
		if r.P(40) {
			topics = append(topics, nil)
		} else {
			topics = append(topics, vgHash(r))
		}
	}
	addr := func() *Address {
		if r.P(40) {
			return nil
		}
		return VG_Address(r)
	}
	return r.Intn(2), topics, addr(), addr(), addr(), vgBlocknum(r), vgBlocknum(r)
}

// VB_FilterReq makes filters and looks at the request that creates each.
//
//vc:property C22
//vc:gen VG_FilterReq
func VB_FilterReq(kind int, topics []*Hash, from, to, tok *Address, start, end int64) {
	w := &vcWire{}
	c := NewClientTransport(w)
	id := 1 + uint64(start)%1000
	w.reply = func(q *RPCRequest) (string, error) {
		switch q.Method {
		case "eth_newFilter":
			return fmt.Sprintf(`"0x%x"`, id), nil
		case "eth_getFilterLogs":
			return "[]", nil
		}
		return "true", nil
	}
	var f *Filter
	var err error
	want := topics
	if kind == 0 {
		f, err = c.FilterTopics(topics, tok, start, end)
	} else {
		h := Hash(vc.Keccak([]byte("Transfer(address,address,uint256)")))
		want = []*Hash{&h, nil, nil}
		for i, a := range []*Address{from, to} {
			if a != nil {
				want[i+1] = new(Hash)
				copy(want[i+1][12:], a[:])
			}
		}
		f, err = c.TokenTransfers(from, to, tok, start, end)
	}
	vc.Ensures("no error", func() bool { return err == nil && f != nil })
	f.Close()
	for range f.Out() {
	}
	w.lock.Lock()
	defer w.lock.Unlock()
	q := w.reqs[0]
	vc.Ensures("eth_newFilter", func() bool { return q.Method == "eth_newFilter" && len(q.Params) == 1 && q.Version == "2.0" })
	var m struct {
		FromBlock, ToBlock, Address json.RawMessage
		Topics                      []json.RawMessage
	}
	dec := json.NewDecoder(bytes.NewReader(q.Params[0]))
	dec.DisallowUnknownFields()
	derr := dec.Decode(&m)
	vc.Ensures("an object", func() bool { return derr == nil })
	// negative ends mean the latest block
	lo, hi := start, end
	if lo < 0 {
		lo = -1
	}
	if hi < 0 {
		hi = -1
	}
	vc.Ensures("first block", func() bool { return vcIsBlock(m.FromBlock, lo) })
	vc.Ensures("last block", func() bool { return vcIsBlock(m.ToBlock, hi) })
	vc.Ensures("the address", func() bool {
		if tok == nil {
			return m.Address == nil || string(m.Address) == "null"
		}
		return vcIsBytes(m.Address, tok[:])
	})
	vc.Ensures("the topics", func() bool {
		if len(m.Topics) != len(want) {
			return false
		}
		for i, t := range want {
			if t == nil && string(m.Topics[i]) != "null" || t != nil && !vcIsBytes(m.Topics[i], t[:]) {
				return false
			}
		}
		return true
	})
	for i := range w.reqs[1:] {
		q := w.reqs[1+i]
		vc.Ensures("the filter's own number afterwards", func() bool {
			return len(q.Params) == 1 && vcIsNum(q.Params[0], vc.U(id)) &&
				(q.Method == "eth_getFilterLogs" || q.Method == "eth_getFilterChanges" || q.Method == "eth_uninstallFilter")
		})
	}
}

// ---- token transfers

func VG_ParseTransfer(r *vc.Rand) (*Receipt, *Log) {
	l := &Log{Address: *VG_Address(r), Data: r.Bytes(32)}
	h := Hash(vc.Keccak([]byte("Transfer(address,address,uint256)")))
	l.Topics = []Data{append(Data(nil), h[:]...)}
	for i := 0; i < 2; i++ {
		t := make(Data, 32)
		copy(t[12:], VG_Address(r)[:])
		l.Topics = append(l.Topics, t)
	}
	switch r.Intn(10) {
	case 0:
		l.Topics = l.Topics[:r.Intn(4)]
	case 1:
		l.Topics = append(l.Topics, r.Bytes(32))
	case 2:
		l.Topics[0][r.Intn(32)] ^= 1 << uint(r.Intn(8))
	case 3:
		l.Topics[r.Intn(3)] = r.Bytes(r.Intn(40))
	case 4:
		l.Topics[0] = l.Topics[0][:r.Intn(33)]
	}
	n := Uint64(r.Uint64())
	l.BlockNumber = &n
	return &Receipt{BlockNumber: Uint64(r.Uint64() >> uint(1+r.Intn(60))), Index: Uint64(r.Uint64() >> uint(33+r.Intn(30))), Address: VG_Address(r)}, l
}

//vc:property C22
//vc:gen VG_ParseTransfer
func VB_ParseTransfer(rc *Receipt, l *Log) {
	h := vc.Keccak([]byte("Transfer(address,address,uint256)"))
	is := len(l.Topics) == 3 && vc.BytesEq(l.Topics[0], h[:]) && len(l.Topics[1]) == 32 && len(l.Topics[2]) == 32
	topics := make([][]byte, len(l.Topics))
	for i := range topics {
		topics[i] = vc.Snap(l.Topics[i])
	}
	data := vc.Snap(l.Data)
	tt, ok := rc.ParseTransfer(l)
	vc.Ensures("exactly the transfers are recognised", func() bool { return ok == is })
	vc.Ensures("the token", func() bool { return !ok || tt.Token == l.Address })
	vc.Ensures("the sender", func() bool { return !ok || vc.BytesEq(tt.From[:], topics[1][12:]) })
	vc.Ensures("the recipient", func() bool { return !ok || vc.BytesEq(tt.To[:], topics[2][12:]) })
	vc.Ensures("the amount", func() bool { return !ok || vc.Eq((*big.Int)(&tt.Amount), vc.BE(data)) })
	vc.Ensures("the place", func() bool {
		return !ok || tt.Block == int64(rc.BlockNumber) && tt.TxHeight == int(rc.Index)
	})
	vc.Ensures("log unchanged", func() bool {
		for i := range topics {
			if !vc.BytesEq(l.Topics[i], topics[i]) {
				return false
			}
		}
		return vc.BytesEq(l.Data, data)
	})
}

// ---- Sender

type vcSend struct {
	Addr              *Address // of the sender
	Key               *PrivateKey
	Signer            int // 0 none, 1 the right key, 2 another key, 3 fails, 4 high s
	Num, Denom        int
	Price, Estimate   *big.Int
	NodeNonce         uint64
	Fails             string // this method fails
	Kind              int    // Call, Send, Cancel, Create, Drain
	Opts              *CallOpts
	TxPrice           *big.Int // the transaction to cancel
	TxNonce           uint64
	Mined             bool
	Pool              []int // who sent the pending transactions: 0, 2 the sender, 1 another, 3 nobody knows
	OtherAddr, ToAddr *Address
	Code              []byte
	Amount            *big.Int
	PoolHash          *Hash
	MinedAfter        int
}

func VG_Sender(r *vc.Rand) *vcSend {
	k := new(PrivateKey)
	copy(k[:], r.Bytes(32))
	k[31] |= 1
	k[0] &= 0x7f
	s := &vcSend{Key: k, Addr: k.Address(), Num: 1 + r.Intn(12), Denom: 1 + r.Intn(6)}
	s.Signer = []int{0, 1, 1, 1, 1, 2, 3}[r.Intn(7)]
	s.Price, s.Estimate = r.Big([]int{8, 64, 66, 130}[r.Intn(4)], false), r.Big(8+r.Intn(50), false)
	s.NodeNonce = r.Uint64() >> uint(1+r.Intn(62))
	s.TxNonce = r.Uint64() >> uint(r.Intn(64))
	s.TxPrice = r.Big([]int{8, 64, 66, 130}[r.Intn(4)], false)
	if r.P(20) {
		s.TxPrice = vc.Add(s.Price, vc.I(int64(r.Intn(3)-1)))
		if s.TxPrice.Sign() < 0 {
			s.TxPrice = vc.I(0)
		}
	}
	if r.P(10) {
		s.TxPrice = vc.Add(vc.Pow2([]uint{63, 64}[r.Intn(2)]), vc.I(int64(r.Intn(4)-2)))
	}
	s.Mined = r.P(15)
	s.Opts = vgOpts(r)
	switch r.Intn(4) {
	case 0:
		s.Opts.From = nil
	case 1:
		a := *s.Addr
		s.Opts.From = &a
	case 2:
		s.Opts.From = VG_Address(r)
	default:
		s.Opts.From = s.Addr
	}
	s.Kind = r.Intn(5)
	s.OtherAddr, s.ToAddr = VG_Address(r), VG_Address(r)
	s.Code = r.Bytes(r.Intn(60))
	s.Amount = r.Big(200, false)
	s.PoolHash = vgHash(r)
	for i := r.Intn(4); i > 0; i-- {
		s.Pool = append(s.Pool, r.Intn(4))
	}
	if r.P(15) {
		s.Fails = r.Pick("eth_estimateGas", "eth_getTransactionCount", "eth_sendRawTransaction", "eth_sendTransaction", "eth_getTransactionByHash", "eth_getTransactionReceipt", "eth_getBlockByNumber")
	}
	return s
}

//vc:property C23
//vc:gen VG_Sender
//vc:exectime 12
func VB_Sender(t *vcSend) {
	w := &vcWire{}
	s := &Sender{Client: NewClientTransport(w), Addr: t.Addr}
	s.GasRatio.Num, s.GasRatio.Denom = t.Num, t.Denom
	s.GasPrice = Int(*vc.Copy(t.Price))
	txhash := *t.PoolHash
	rounds := 0 // blocks asked for
	remaining := append([]int(nil), t.Pool...)
	hashOf := func(i int) Hash { h := txhash; h[0] = byte(i); h[1] = byte(t.Pool[i]); return h }
	created := Address{1, 2, 3}
	pendingOnly := true
	w.reply = func(q *RPCRequest) (string, error) {
		if q.Method == t.Fails {
			return "", errors.New("failing")
		}
		switch q.Method {
		case "eth_estimateGas":
			return `"0x` + t.Estimate.Text(16) + `"`, nil
		case "eth_getTransactionCount":
			return fmt.Sprintf(`"0x%x"`, t.NodeNonce), nil
		case "eth_sendRawTransaction", "eth_sendTransaction":
			return `"0x` + hex.EncodeToString(txhash[:]) + `"`, nil
		case "eth_getTransactionByHash":
			if t.Kind == 4 { // one pending transaction is mined by waiting
				for j, i := range remaining {
					h := hashOf(i)
					if vcIsBytes(q.Params[0], h[:]) {
						remaining = append(remaining[:j:j], remaining[j+1:]...)
						break
					}
				}
				return `{"transactionIndex":"0x1"}`, nil
			}
			idx := "null"
			if t.Mined || t.Kind == 3 {
				idx = `"0x3"`
			}
			return fmt.Sprintf(`{"nonce":"0x%x","gasPrice":"0x%s","transactionIndex":%s,"from":"0x%x","to":"0x%x","value":"0x9","input":"0x1234"}`,
				t.TxNonce, t.TxPrice.Text(16), idx, t.Addr[:], t.OtherAddr[:]), nil
		case "eth_getTransactionReceipt":
			return fmt.Sprintf(`{"contractAddress":"0x%x"}`, created[:]), nil
		case "eth_getBlockByNumber":
			rounds++
			pendingOnly = pendingOnly && vcIsBlock(q.Params[0], Pending)
			txs := "["
			if vcIsBlock(q.Params[0], Pending) && string(q.Params[1]) == "true" {
				for n, i := range remaining {
					from := `"0x` + hex.EncodeToString(t.Addr[:]) + `"`
					if t.Pool[i] == 1 {
						from = `"0x` + hex.EncodeToString(t.OtherAddr[:]) + `"`
					}
					if t.Pool[i] == 3 {
						from = "null"
					}
					if n > 0 {
						txs += ","
					}
					h := hashOf(i)
					txs += fmt.Sprintf(`{"hash":"0x%x","from":%s}`, h[:], from)
				}
			}
			return `{"transactions":` + txs + `]}`, nil
		}
		return "null", nil
	}
	for i := range remaining {
		remaining[i] = i
	}
	var asked []Hash
	var sigs []*Signature
	other := *t.Key
	other[30] ^= 1
	if t.Signer != 0 {
		s.Signer = func(h *Hash) (*Signature, error) {
			asked = append(asked, *h)
			if t.Signer == 3 {
				return nil, errors.New("no")
			}
			k := t.Key
			if t.Signer == 2 {
				k = &other
			}
			sig := k.Sign(h)
			sigs = append(sigs, sig)
			return sig, nil
		}
	}

	// the call that should be submitted
	var want CallOpts
	var err error
	var got Hash
	opts := *t.Opts
	price := vc.Copy(t.Price)
	exactPrice := true
	switch t.Kind {
	case 0:
		want = *t.Opts
		got, err = s.Call(&opts)
	case 1:
		amount := Int(*vc.Copy(t.Amount))
		want = CallOpts{To: t.ToAddr, Data: vcSendData(t.ToAddr, t.Amount)}
		got, err = s.Send(t.ToAddr, "transfer(address,uint256)", t.ToAddr, &amount)
	case 2:
		n := Uint64(t.TxNonce)
		want = CallOpts{To: t.Addr, Nonce: &n}
		exactPrice = false
		h := txhash
		got, err = s.Cancel(&h)
		if t.Mined {
			vc.Ensures("a mined transaction cannot be cancelled", func() bool { return err != nil && vcSubmitted(w) == 0 })
			return
		}
	case 3:
		v := Int(*vc.Copy(t.Amount))
		want = CallOpts{Data: t.Code, Value: &v}
		var a Address
		a, err = s.Create(t.Code, (*Int)(vc.Copy(t.Amount)))
		vc.Ensures("the address of the contract", func() bool { return err != nil || a == created })
		got = txhash
	case 4:
		own := 0
		for _, i := range t.Pool {
			if i%2 == 0 {
				own++
			}
		}
		seen := 0
		err = s.Drain(func(x *Transaction) { seen++ })
		vc.Ensures("drained", func() bool {
			if err != nil {
				return t.Fails != ""
			}
			for _, i := range remaining {
				if t.Pool[i]%2 == 0 {
					return false
				}
			}
			return seen == own
		})
		vc.Ensures("nothing submitted", func() bool { return vcSubmitted(w) == 0 })
		return
	}
	vc.Ensures("fields given by the caller stay", func() bool { return vcIsSame(t.Opts, &opts, t.Kind == 0) })
	vc.Ensures("at most one submission", func() bool { return vcSubmitted(w) <= 1 })
	if want.From == nil {
		want.From = t.Addr
	}
	if want.GasPrice == nil {
		want.GasPrice = (*Int)(price)
	}
	if want.Gas == nil {
		g := vc.Div(vc.Mul(t.Estimate, vc.I(int64(t.Num))), vc.I(int64(t.Denom)))
		want.Gas = (*Int)(g)
	}
	relevant := map[string]bool{"eth_sendRawTransaction": t.Signer != 0, "eth_sendTransaction": t.Signer == 0,
		"eth_getTransactionCount":   t.Signer != 0 && want.Nonce == nil,
		"eth_estimateGas":           t.Kind != 0 || t.Opts.Gas == nil,
		"eth_getTransactionByHash":  t.Kind == 2 || t.Kind == 3,
		"eth_getTransactionReceipt": t.Kind == 3}
	signerOK := t.Signer == 0 || t.Signer == 1 && *want.From == *t.Addr || t.Signer == 2 && *want.From == *other.Address()
	vc.Ensures("an error is reported exactly when something failed", func() bool {
		return (err != nil) == (relevant[t.Fails] || !signerOK)
	})
	vc.Ensures("the hash of the transaction", func() bool { return err != nil || got == txhash })
	vc.Ensures("nothing submitted for another signer", func() bool { return signerOK || vcSubmitted(w) == 0 })
	for i := range w.reqs {
		q := &w.reqs[i]
		switch q.Method {
		case "eth_estimateGas":
			e := want
			e.Gas = nil
			if !exactPrice {
				e.GasPrice = vcPriceOf(q.Params[0])
			}
			vc.Ensures("the call is what is estimated", func() bool { return len(q.Params) == 2 && vcIsOpts(q.Params[0], &e) })
		case "eth_getTransactionCount":
			vc.Ensures("nonce of the account, pending", func() bool {
				return len(q.Params) == 2 && vcIsBytes(q.Params[0], want.From[:]) && vcIsBlock(q.Params[1], Pending)
			})
		case "eth_sendTransaction":
			vc.Ensures("unsigned only without a signer", func() bool { return t.Signer == 0 && len(q.Params) == 1 })
			if !exactPrice {
				want.GasPrice = vcPriceOf(q.Params[0])
			}
			vc.Ensures("submits the call", func() bool { return vcIsOpts(q.Params[0], &want) })
		case "eth_sendRawTransaction":
			vc.Ensures("signed once", func() bool { return len(asked) == 1 && len(sigs) == 1 && len(q.Params) == 1 })
			txt, _ := vcJSONString(q.Params[0])
			vc.Ensures("hex", func() bool { return len(txt) > 2 && txt[:2] == "0x" })
			raw, herr := hex.DecodeString(txt[2:])
			vc.Ensures("whole bytes", func() bool { return herr == nil })
			if !exactPrice {
				want.GasPrice = vcRawPrice(raw)
			}
			items := vcOptsItems(&want, t.NodeNonce)
			hash := vc.Keccak(vcRLPList(append(append([][]byte(nil), items...), vcRLPInt(vc.I(1)), vcRLPInt(vc.I(0)), vcRLPInt(vc.I(0)))...))
			vc.Ensures("signed over the hash of the same fields", func() bool { return asked[0] == Hash(hash) })
			z := sigs[0]
			signed := vcRLPList(append(append([][]byte(nil), items...), vcRLPInt(vc.I(37+int64(z[64]))), vcRLPInt(vc.BE(z[:32])), vcRLPInt(vc.BE(z[32:64])))...)
			vc.Ensures("submits the signed call", func() bool { return vc.BytesEq(raw, signed) })
		}
	}
	if !exactPrice && err == nil {
		vc.Ensures("a strictly higher price", func() bool { return want.GasPrice != nil && vc.Lt(t.TxPrice, (*big.Int)(want.GasPrice)) })
	}
}

func vcSubmitted(w *vcWire) int {
	n := 0
	for i := range w.reqs {
		if w.reqs[i].Method == "eth_sendRawTransaction" || w.reqs[i].Method == "eth_sendTransaction" {
			n++
		}
	}
	return n
}

func vcSendData(to *Address, v *big.Int) []byte {
	h := vc.Keccak([]byte("transfer(address,uint256)"))
	b := append([]byte(nil), h[:4]...)
	b = append(b, make([]byte, 12)...)
	b = append(b, to[:]...)
	for i := 31; i >= 0; i-- {
		b = append(b, vc.Byte(v, i))
	}
	return b
}

// vcIsSame: the fields set in a are the same in b
func vcIsSame(a, b *CallOpts, used bool) bool {
	if !used {
		return true
	}
	num := func(x, y *Int) bool { return x == nil || y != nil && vc.Eq((*big.Int)(x), (*big.Int)(y)) }
	return (a.From == nil || *a.From == *b.From) && (a.To == nil) == (b.To == nil) && (a.To == nil || *a.To == *b.To) &&
		num(a.Gas, b.Gas) && num(a.GasPrice, b.GasPrice) && num(a.Value, b.Value) && vc.BytesEq(a.Data, b.Data) &&
		(a.Nonce == nil || b.Nonce != nil && *a.Nonce == *b.Nonce)
}

func vcPriceOf(raw json.RawMessage) *Int {
	var m map[string]string
	json.Unmarshal(raw, &m)
	v, ok := new(big.Int).SetString(m["gasPrice"], 0)
	if !ok {
		return nil
	}
	return (*Int)(v)
}

// vcRawPrice is the second item of the list raw
func vcRawPrice(raw []byte) *Int {
	at, end := 0, 0
	for i := 0; i < 3 && at < len(raw); i++ {
		b := int(raw[at])
		switch {
		case b >= 0xf8:
			at += 1 + b - 0xf7
			continue
		case b >= 0xc0:
			at++
			continue
		case b < 0x80:
			end = at + 1
		case b < 0xb8:
			end = at + 1 + b - 0x80
			if i == 2 {
				at++
			}
		}
		if i == 2 {
			break
		}
		at = end
	}
	if at > end || end > len(raw) {
		return nil
	}
	return (*Int)(vc.BE(raw[at:end]))
}

// vcOptsItems are the six fields of the transaction that makes the call
func vcOptsItems(o *CallOpts, nonce uint64) [][]byte {
	if o.Nonce != nil {
		nonce = uint64(*o.Nonce)
	}
	var to []byte
	if o.To != nil {
		to = o.To[:]
	}
	v := vc.I(0)
	if o.Value != nil {
		v = (*big.Int)(o.Value)
	}
	return [][]byte{vcRLPInt(vc.U(nonce)), vcRLPInt((*big.Int)(o.GasPrice)), vcRLPInt((*big.Int)(o.Gas)), vcRLPString(to), vcRLPInt(v), vcRLPString(o.Data)}
}
