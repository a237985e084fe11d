package tevm

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/internal/vc"
)

// C19, C20, C21: histories of transactions, seals, queries and filters
// through the JSON-RPC interface of a Chain.

// ---- filter.matches alone

func VG_matches(r *vc.Rand) (*filter, *types.Log) {
	f := &filter{from: blocknum(r.Intn(8) - 2), to: blocknum(r.Intn(8) - 2)}
	l := &types.Log{BlockNumber: uint64(r.Intn(6))}
	l.Address[3] = byte(r.Intn(2))
	if r.Bool() {
		a := new(seth.Address)
		a[3] = byte(r.Intn(2))
		f.addr = a
	}
	for i := r.Intn(5); i > 0; i-- {
		var h common.Hash
		h[r.Intn(2)*31] = byte(r.Intn(2))
		l.Topics = append(l.Topics, h)
	}
	for i := r.Intn(6); i > 0; i-- {
		n := len(f.topics)
		if r.P(40) {
			f.topics = append(f.topics, nil)
		} else if n < len(l.Topics) && r.P(80) {
			h := seth.Hash(l.Topics[n])
			f.topics = append(f.topics, &h)
		} else {
			h := new(seth.Hash)
			h[r.Intn(2)*31] = byte(r.Intn(2))
			f.topics = append(f.topics, h)
		}
	}
	if r.P(5) {
		l.BlockNumber = r.Uint64()
	}
	return f, l
}

func vcMatches(from, to int64, addr *common.Address, topics []*common.Hash, l *types.Log) bool {
	if from >= 0 && l.BlockNumber < uint64(from) || to >= 0 && l.BlockNumber > uint64(to) {
		return false
	}
	if addr != nil && l.Address != *addr {
		return false
	}
	for i, t := range topics {
		if t != nil && (i >= len(l.Topics) || l.Topics[i] != *t) {
			return false
		}
	}
	return true
}

// vcTopicOK: topic i of the filter admits the log
func vcTopicOK(f *filter, log *types.Log, i int) bool {
	return f.topics[i] == nil || i < len(log.Topics) && vc.BytesEq(log.Topics[i][:], f.topics[i][:])
}

//vc:in VC_filter_matches
func VI_matches(f *filter, log *types.Log, j int) bool {
	return j >= -1 && vc.Forall(0, j+1, func(q int) bool { return vcTopicOK(f, log, q) })
}

// VC_filter_matches: exactly the logs in the block range, of the address, with
// every topic asked for at its position.
//
//vc:for filter.matches
//vc:property C21
//vc:gen VG_matches
func VC_filter_matches(f *filter, log *types.Log) {
	got := f.matches(log)
	in := vc.Le(vc.I(int64(f.from)), vc.U(log.BlockNumber)) && (f.to < 0 || vc.Le(vc.U(log.BlockNumber), vc.I(int64(f.to))))
	addr := f.addr == nil || vc.BytesEq(log.Address[:], f.addr[:])
	vc.Ensures("only in range and of the address", func() bool { return !got || in && addr })
	vc.Ensures("only with the topics", func() bool {
		return !got || vc.Forall(0, len(f.topics), func(i int) bool { return vcTopicOK(f, log, i) })
	})
	vc.Ensures("every such log", func() bool {
		return got || !in || !addr || vc.Exists(0, len(f.topics), func(i int) bool { return !vcTopicOK(f, log, i) })
	})
}

// ---- programs

// vcProg is a little EVM program: slots written, logs emitted, and its end.
// src drives it; the same bytes always give the same program.
func vcProg(src []byte, create bool) []byte {
	var p []byte
	push := func(b ...byte) { p = append(append(p, 0x5f+byte(len(b))), b...) }
	for len(src) >= 4 && len(p) < 400 {
		switch src[0] % 8 {
		case 0, 1: // SSTORE
			push(src[1] % 8)
			push(src[2] % 4)
			p = append(p, 0x55)
		case 2, 3, 4: // LOGn with the topics src[2] % 3
			n := src[1] % 5
			push(src[3] * 40)
			push(0)
			p = append(p, 0x52)
			for i := byte(0); i < n; i++ {
				push((src[2] + i) % 3)
			}
			push(src[3] % 33)
			push(0)
			p = append(p, 0xa0+n)
		case 5: // store the call data
			push(0)
			p = append(p, 0x35)
			push(src[2] % 4)
			p = append(p, 0x55)
		case 6: // call another address with some value
			push(0)
			push(0)
			push(0)
			push(0)
			push(src[1] % 3)
			push(vcAddr(src[2]).Bytes()...)
			push(0x40, 0)
			p = append(p, 0xf1, 0x50)
		case 7: // end early
			switch src[1] % 5 {
			case 0:
				push(src[3] % 40) // with or without data
				push(0)
				p = append(p, 0xfd)
			case 1:
				p = append(p, 0xfe)
			case 2:
				push(vcAddr(src[2]).Bytes()...)
				p = append(p, 0xff)
			case 3:
				p = append(p, 0x00)
			}
		}
		src = src[4:]
	}
	if create {
		// return a runtime that logs once and stops: PUSH1 0 PUSH1 0 LOG0
		push(0x60, 0, 0x60, 0, 0xa0)
		push(0)
		p = append(p, 0x52)
		push(5)
		push(27)
		p = append(p, 0xf3)
	}
	return p
}

// vcAddr: the universe of addresses: a few plain accounts and contracts
func vcAddr(b byte) (a common.Address) {
	a[0], a[19] = 0xaa, b%6
	return
}

// ---- model

type vcTx struct {
	hash   seth.Hash
	tx     seth.Transaction
	index  int
	status uint64
	used   uint64
	cum    uint64

	logCopy  []types.Log // the logs as emitted
	contract common.Address
}

type vcBlock struct {
	number uint64
	hash   seth.Hash
	parent *seth.Hash
	txs    []*vcTx
	sealed bool
}

type vcFilter struct {
	id       int
	from, to int64
	addr     *common.Address
	topics   []*common.Hash
	seen     int
}

type vcChain struct {
	c      *Chain
	fork   bool
	blocks []*vcBlock // the last one pending
	filts  []*vcFilter
}

func (x *vcChain) call(method string, params ...interface{}) (json.RawMessage, bool) {
	req := &seth.RPCRequest{Version: "2.0", Method: method, ID: 7}
	for _, p := range params {
		if s, ok := p.(string); ok {
			req.Params = append(req.Params, json.RawMessage(s))
			continue
		}
		req.Params = append(req.Params, js(p))
	}
	var res seth.RPCResponse
	err := x.c.Execute(req, &res)
	return res.Result, err == nil && res.Error.Code == 0 && res.ID == 7
}

func vcTreeDump(b *bytes.Buffer, t *Tree) {
	t.Iterate(func(k, v []byte) bool {
		fmt.Fprintf(b, "%x=%x\n", k, v)
		return true
	})
	b.WriteString("--\n")
}

// dump is everything there is to know of the chain. A fork may keep what it
// fetched from its base, so there it is the state as the EVM sees it.
func (x *vcChain) dump() string {
	var b bytes.Buffer
	s := &x.c.State
	if x.fork {
		db := x.c.Copy().State.StateDB()
		for i := byte(0); i < 6; i++ {
			a := vcAddr(i)
			fmt.Fprintf(&b, "%v %v %d %x %v\n", db.Exist(a), db.GetBalance(a), db.GetNonce(a), db.GetCode(a), db.HasSuicided(a))
			for j := byte(0); j < 8; j++ {
				var h common.Hash
				h[31] = j
				fmt.Fprintf(&b, "%x ", db.GetState(a, h))
			}
		}
	} else {
		for _, t := range []*Tree{&s.Accounts, &s.Code, &s.Storage} {
			vcTreeDump(&b, t)
		}
	}
	for _, t := range []*Tree{&s.Transactions, &s.Receipts, &s.Blocks, &s.Preimage} {
		vcTreeDump(&b, t)
	}
	for _, l := range s.Logs {
		fmt.Fprintf(&b, "%p %v %x %x %x %d %d %x %x %d\n", l, l.Removed, l.Address, l.Topics, l.Data, l.BlockNumber, l.Index, l.TxHash, l.BlockHash, l.TxIndex)
	}
	b.Write(js(s.Pending))
	fmt.Fprintf(&b, "%p %d\n", s.Pending, s.Refund)
	for _, rx := range x.c.pendingrx {
		b.Write(js(rx))
	}
	var ks []int
	for k := range x.c.block2snap {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%d:%d ", k, x.c.block2snap[int64(k)])
	}
	return b.String()
}

func vcSameLog(got *seth.Log, l *types.Log) bool {
	if got.Address != seth.Address(l.Address) || !bytes.Equal(got.Data, l.Data) || len(got.Topics) != len(l.Topics) || got.Removed {
		return false
	}
	for i := range l.Topics {
		if !bytes.Equal(got.Topics[i], l.Topics[i][:]) {
			return false
		}
	}
	return got.BlockNumber != nil && uint64(*got.BlockNumber) == l.BlockNumber
}

func vcSameTx(a, b *seth.Transaction) bool {
	same := func(p, q *seth.Address) bool { return p == nil && q == nil || p != nil && q != nil && *p == *q }
	idx := a.TxIndex == nil && b.TxIndex == nil || a.TxIndex != nil && b.TxIndex != nil && *a.TxIndex == *b.TxIndex
	return a.Hash == b.Hash && a.Nonce == b.Nonce && a.Block == b.Block && a.BlockNumber == b.BlockNumber && idx &&
		same(a.To, b.To) && same(a.From, b.From) && vc.Eq(a.Value.Big(), b.Value.Big()) &&
		vc.Eq(a.GasPrice.Big(), b.GasPrice.Big()) && a.Gas == b.Gas && bytes.Equal(a.Input, b.Input)
}

func (x *vcChain) checkBlock(b *vcBlock) string {
	for _, t := range b.txs {
		raw, ok := x.call("eth_getTransactionByHash", &t.hash)
		var tx seth.Transaction
		if !ok || json.Unmarshal(raw, &tx) != nil {
			return "a mined transaction is retrievable"
		}
		want := t.tx
		idx := seth.Uint64(t.index)
		want.Hash, want.Block, want.BlockNumber, want.TxIndex = t.hash, b.hash, seth.Uint64(b.number), &idx
		if !vcSameTx(&tx, &want) {
			return "a mined transaction keeps its fields, block and index"
		}
		raw, ok = x.call("eth_getTransactionReceipt", &t.hash)
		if !b.sealed {
			continue
		}
		var rx seth.Receipt
		if !ok || json.Unmarshal(raw, &rx) != nil {
			return "receipt after sealing"
		}
		switch {
		case rx.Hash != t.hash || uint64(rx.Index) != uint64(t.index):
			return "receipt names the transaction"
		case uint64(rx.Status) != t.status:
			return "receipt status"
		case uint64(rx.GasUsed) != t.used || uint64(rx.Cumulative) != t.cum:
			return "receipt gas"
		case rx.BlockHash != b.hash:
			return "receipt block hash"
		case uint64(rx.BlockNumber) != b.number:
			return "receipt block number"
		case (rx.Address != nil) != (t.tx.To == nil) || rx.Address != nil && t.status == 1 && common.Address(*rx.Address) != t.contract:
			return "receipt contract address"
		case len(rx.Logs) != len(t.logCopy):
			return "receipt log count"
		}
		for i := range rx.Logs {
			l := &rx.Logs[i]
			if !vcSameLog(l, &t.logCopy[i]) {
				return "receipt logs"
			}
			if l.TxHash == nil || *l.TxHash != t.hash || l.BlockHash == nil || *l.BlockHash != b.hash || l.TxIndex == nil || int(*l.TxIndex) != t.index {
				return "receipt logs name transaction and block"
			}
		}
	}
	for i := 0; i < 4; i++ {
		var raw json.RawMessage
		var ok bool
		full := i%2 == 1
		if i < 2 {
			raw, ok = x.call("eth_getBlockByHash", &b.hash, full)
		} else {
			raw, ok = x.call("eth_getBlockByNumber", fmt.Sprintf(`"0x%x"`, b.number), full)
		}
		var blk seth.Block
		if !ok || json.Unmarshal(raw, &blk) != nil {
			return "block is retrievable"
		}
		gas := uint64(0)
		for _, t := range b.txs {
			gas += t.used
		}
		switch {
		case blk.Number == nil || uint64(*blk.Number) != b.number:
			return "block number"
		case blk.Hash == nil || *blk.Hash != b.hash:
			return "block hash"
		case b.parent != nil && blk.Parent != *b.parent:
			return "block parent"
		case uint64(blk.GasUsed) != gas:
			return "block gas"
		case len(blk.Transactions) != len(b.txs):
			return "block transaction count"
		}
		for j, t := range b.txs {
			if full {
				var tx seth.Transaction
				if json.Unmarshal(blk.Transactions[j], &tx) != nil || tx.Hash != t.hash || !bytes.Equal(tx.Input, t.tx.Input) {
					return "block transactions in full"
				}
			} else {
				var h seth.Hash
				if json.Unmarshal(blk.Transactions[j], &h) != nil || h != t.hash {
					return "block transactions"
				}
			}
		}
	}
	return ""
}

func (x *vcChain) fail(s string) {
	if s != "" {
		vc.Assert(s, func() bool { return false })
	}
}

// VG_Chain: operations of eight bytes and a pool of bytes for programs
func VG_Chain(r *vc.Rand) ([]byte, []byte) {
	pool := r.Bytes(64 + r.Intn(200))
	return r.Bytes(8 * r.Intn(24)), pool
}

// vcBase answers what a fork asks of its base from the state of another chain
type vcBase struct{ c *Chain }

func (t vcBase) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	var a seth.Address
	if len(req.Params) == 0 || json.Unmarshal(req.Params[0], &a) != nil {
		return fmt.Errorf("unexpected request %s", req.Method)
	}
	db := t.c.State.StateDB()
	res.ID = req.ID
	switch req.Method {
	case "eth_getBalance":
		res.Result = js((*seth.Int)(db.GetBalance(common.Address(a))))
	case "eth_getTransactionCount":
		res.Result = js(seth.Uint64(db.GetNonce(common.Address(a))))
	case "eth_getCode":
		res.Result = js(seth.Data(db.GetCode(common.Address(a))))
	case "eth_getStorageAt":
		var h seth.Hash
		if err := json.Unmarshal(req.Params[1], &h); err != nil {
			return err
		}
		v := seth.Hash(db.GetState(common.Address(a), common.Hash(h)))
		res.Result = js(&v)
	default:
		return fmt.Errorf("unexpected request %s", req.Method)
	}
	return nil
}

// vcSetup is a chain with a few accounts, or a fork of one at some block
func vcSetup(pool []byte) *vcChain {
	x := &vcChain{c: NewChain()}
	db := x.c.State.StateDB()
	for i := byte(0); i < 6; i++ {
		a := vcAddr(i)
		if i != 3 {
			db.AddBalance(a, vc.I(int64(i)*1000))
		}
		if i >= 4 {
			db.SetNonce(a, 1)
			db.SetCode(a, vcProg(pool[int(i)*4:], false))
			db.SetState(a, common.Hash{31: 2}, common.Hash{31: pool[3]})
		}
	}
	if pool[0]%3 == 0 {
		// block numbers up to 2^44 (transaction hashes count on < 2^48)
		n := int64(1)
		for i := byte(0); i < pool[1]%6; i++ {
			n = n<<8 | int64(pool[2+i])
		}
		x.fork = true
		x.c = NewFork(seth.NewClientTransport(vcBase{x.c}), n)
	}
	h := *x.c.State.Pending.Hash
	x.blocks = []*vcBlock{{number: uint64(*x.c.State.Pending.Number), hash: h}}
	return x
}

func vcTxOf(op, pool []byte) *seth.Transaction {
	from := seth.Address(vcAddr(op[1]))
	tx := &seth.Transaction{From: &from, Gas: 200000, Nonce: seth.Uint64(op[7])}
	if op[5]%8 == 0 {
		tx.Gas = seth.Uint64(op[6]) * 300
	}
	tx.GasPrice.SetInt64(int64(op[6]))
	tx.Value.SetInt64(int64(op[3]) * int64(op[3]%8))
	if op[2]%4 == 0 {
		at := int(op[4]) % len(pool)
		tx.Input = vcProg(pool[at:], true)
	} else {
		to := seth.Address(vcAddr(op[2] / 4))
		tx.To = &to
		tx.Input = append(seth.Data{}, pool[:int(op[4])%40]...)
	}
	return tx
}

func (x *vcChain) pending() *vcBlock { return x.blocks[len(x.blocks)-1] }

// mine mines tx, by RPC or directly, and records what should be found later.
// What the transaction does is taken from the EVM run on a copy of the state.
func (x *vcChain) mine(tx *seth.Transaction, rpc bool) {
	orig := *tx
	var oc Chain
	x.c.State.atSnap((*gethState)(&x.c.State).Snapshot(), &oc.State)
	p := *x.c.State.Pending
	oc.State.Pending = &p
	var left uint64
	var err error
	var addr common.Address
	var ret []byte
	n0 := len(x.c.State.Logs)
	if tx.To == nil {
		ret, addr, left, err = oc.evm(*tx.From).Create(s2r(tx.From), tx.Input, uint64(tx.Gas), tx.Value.Big())
	} else {
		ret, left, err = oc.evm(*tx.From).Call(s2r(tx.From), common.Address(*tx.To), tx.Input, uint64(tx.Gas), tx.Value.Big())
	}
	b := x.pending()
	t := &vcTx{tx: orig, index: len(b.txs), used: uint64(orig.Gas) - left, contract: addr}
	if err == nil {
		t.status = 1
	}
	for _, o := range b.txs {
		t.cum += o.used
	}
	t.cum += t.used
	b.txs = append(b.txs, t)
	if rpc {
		arg := map[string]interface{}{"from": tx.From, "to": tx.To, "gas": tx.Gas, "gasPrice": &tx.GasPrice, "value": &tx.Value, "data": tx.Input}
		t.tx.Nonce = 0
		raw, ok := x.call("eth_sendTransaction", arg)
		vc.Assert("eth_sendTransaction succeeds when the transaction does", func() bool { return ok == (err == nil) })
		if ok {
			json.Unmarshal(raw, &t.hash)
			x.sealed()
		} else { // mined, but not sealed
			var bh seth.Hash
			json.Unmarshal(x.c.State.Pending.Transactions[t.index], &bh)
			t.hash = bh
		}
	} else {
		r2, h, e2 := x.c.Mine(tx)
		vc.Assert("Mine returns what the call returns", func() bool { return (e2 == nil) == (err == nil) && bytes.Equal(ret, r2) })
		t.hash = h
	}
	ol, nl := oc.State.Logs, x.c.State.Logs
	vc.Assert("as many logs as emitted", func() bool { return len(nl) == len(ol) })
	for i := n0; i < len(nl); i++ {
		t.logCopy = append(t.logCopy, *ol[i])
		got := nl[i]
		var sl seth.Log
		l2l(got, &sl)
		vc.Assert("logs as emitted", func() bool { return vcSameLog(&sl, ol[i]) })
	}
	same := vcSameState(&x.c.State, &oc.State)
	vc.Assert("state as left by the call", func() bool { return same })
	for _, bb := range x.blocks {
		for _, o := range bb.txs {
			if o != t && o.hash == t.hash {
				x.fail("transaction hashes are distinct")
			}
		}
	}
}

func vcSameState(a, b *State) bool {
	var x, y bytes.Buffer
	for _, t := range []*Tree{&a.Accounts, &a.Code, &a.Storage} {
		vcTreeDump(&x, t)
	}
	for _, t := range []*Tree{&b.Accounts, &b.Code, &b.Storage} {
		vcTreeDump(&y, t)
	}
	return x.String() == y.String()
}

// sealed records that the pending block was sealed
func (x *vcChain) sealed() {
	b := x.pending()
	b.sealed = true
	x.specifier(`"latest"`, b)
	p := x.c.State.Pending
	vc.Assert("next number", func() bool { return uint64(*p.Number) == b.number+1 })
	vc.Assert("parent of the pending block", func() bool { return p.Parent == b.hash })
	vc.Assert("pending block is empty", func() bool { return len(p.Transactions) == 0 && p.GasUsed == 0 })
	x.blocks = append(x.blocks, &vcBlock{number: b.number + 1, hash: *p.Hash, parent: &b.hash})
	x.specifier(`"pending"`, x.pending())
}

func (x *vcChain) specifier(s string, b *vcBlock) {
	raw, ok := x.call("eth_getBlockByNumber", s, false)
	var blk seth.Block
	if !ok || json.Unmarshal(raw, &blk) != nil || blk.Number == nil || uint64(*blk.Number) != b.number {
		x.fail("block specifier " + s)
	}
}

func vcSpec(op byte, x *vcChain) string {
	switch op % 4 {
	case 0:
		return `"latest"`
	case 1:
		return fmt.Sprintf(`"0x%x"`, x.blocks[int(op/4)%len(x.blocks)].number)
	}
	return `"pending"`
}

// query sends one read-only request
func (x *vcChain) query(op, pool []byte) {
	tx := vcTxOf(op, pool)
	arg := map[string]interface{}{"from": tx.From, "to": tx.To, "value": &tx.Value, "data": tx.Input}
	if op[5]%4 == 0 {
		arg["gas"] = tx.Gas
	}
	h := seth.Hash{op[6]}
	b := x.blocks[int(op[6])%len(x.blocks)]
	if len(b.txs) > 0 && op[6]%16 != 0 {
		h = b.txs[int(op[7])%len(b.txs)].hash
	}
	switch op[0] % 13 {
	case 0, 1:
		x.call("eth_call", arg, vcSpec(op[7], x))
	case 2, 3:
		x.call("eth_estimateGas", arg, vcSpec(op[7], x))
	case 4:
		x.call("eth_getBalance", tx.From, vcSpec(op[7], x))
	case 5:
		x.call("eth_getBlockByNumber", vcSpec(op[7], x), op[6]%2 == 0)
	case 6:
		x.call("eth_getBlockByHash", &b.hash, op[7]%2 == 0)
	case 7:
		x.call("eth_getTransactionByHash", &h)
		x.call("eth_getTransactionReceipt", &h)
	case 8:
		to := seth.Address(vcAddr(op[2]))
		x.c.StaticCall(tx.From, &to, "f()")
	case 9:
		to := seth.Address(vcAddr(op[2]))
		x.c.EstimateGas(tx.From, &to, "f()")
	case 10:
		x.c.BalanceOf(tx.From)
		x.c.Logs()
	case 11:
		x.call("eth_blockNumber")
		x.call("eth_gasPrice")
		x.call("eth_syncing")
		x.call([]string{"eth_nothing", "eth_call", "eth_estimateGas", "eth_getBlockByHash"}[op[1]%4], `"x"`)
	case 12:
		for _, f := range x.filts {
			x.call("eth_getFilterLogs", seth.Uint64(f.id))
		}
		x.call("eth_getFilterLogs", `"0x3e8"`)
	}
}

// pick is a topic that logs have
func vcTopic(b byte) *common.Hash {
	if b%4 == 3 {
		return nil
	}
	h := new(common.Hash)
	h[31] = b % 4
	return h
}

func (x *vcChain) newFilter(op []byte) {
	f := &vcFilter{from: -1, to: -1}
	arg := map[string]interface{}{}
	n := int64(x.blocks[0].number)
	if op[1]%3 == 0 {
		f.from = 0
		arg["fromBlock"] = json.RawMessage(`"earliest"`)
	} else {
		f.from = n + int64(op[1]/3)%int64(len(x.blocks))
		arg["fromBlock"] = json.RawMessage(fmt.Sprintf(`"0x%x"`, f.from))
	}
	if op[2]%3 == 0 {
		f.to = n + int64(op[2]/3)%4
		arg["toBlock"] = json.RawMessage(fmt.Sprintf(`"0x%x"`, f.to))
	} else {
		arg["toBlock"] = json.RawMessage(`"pending"`)
	}
	if op[3]%2 == 0 {
		a := vcAddr(4 + op[3]/2%2)
		f.addr = &a
		s := seth.Address(a)
		arg["address"] = &s
	}
	var ts []*seth.Hash
	for i := byte(0); i < op[4]%4; i++ {
		t := vcTopic(op[5+i%3] >> (2 * (i / 3)))
		f.topics = append(f.topics, t)
		ts = append(ts, (*seth.Hash)(t))
	}
	if len(ts) > 0 {
		arg["topics"] = ts
	}
	raw, ok := x.call("eth_newFilter", arg)
	if f.to >= 0 && f.from > f.to {
		vc.Assert("an empty range is refused", func() bool { return !ok })
		return
	}
	vc.Assert("filter is accepted", func() bool { return ok })
	var id seth.Int
	if json.Unmarshal(raw, &id) != nil {
		x.fail("filter number")
	}
	f.id = int(id.Int64())
	for _, g := range x.filts {
		if g.id == f.id {
			x.fail("filter numbers are distinct")
		}
	}
	x.filts = append(x.filts, f)
}

func (x *vcChain) poll(f *vcFilter, all bool) {
	method, from := "eth_getFilterChanges", f.seen
	if all {
		method, from = "eth_getFilterLogs", 0
	}
	raw, ok := x.call(method, seth.Uint64(f.id))
	var logs []seth.Log
	if !ok || json.Unmarshal(raw, &logs) != nil {
		x.fail("logs of a filter")
	}
	var want []*types.Log
	for _, l := range x.c.State.Logs[from:] {
		if vcMatches(f.from, f.to, f.addr, f.topics, l) {
			want = append(want, l)
		}
	}
	if !all {
		f.seen = len(x.c.State.Logs)
	}
	vc.Assert("as many logs as match", func() bool { return len(logs) == len(want) })
	for i := range logs {
		vc.Assert("matching logs in order", func() bool { return vcSameLog(&logs[i], want[i]) })
	}
}

//vc:property C19
//vc:gen VG_Chain
func VB_Chain(ops, pool []byte) {
	vc.Requires(len(pool) >= 64)
	x := vcSetup(pool)
	for ; len(ops) >= 8; ops = ops[8:] {
		op := ops[:8]
		switch op[0] % 8 {
		case 0, 1, 2:
			x.mine(vcTxOf(op, pool), false)
		case 3:
			x.mine(vcTxOf(op, pool), true)
		case 4:
			x.c.Seal()
			x.sealed()
		case 5:
			x.query(append(append([]byte{}, op[1:]...), 0), append(append([]byte{}, pool...), pool...))
		case 6:
			// a copy goes on like the original
			if op[1]%2 == 0 {
				x.c = x.c.Copy()
			}
		case 7:
			tx := vcTxOf(op, pool)
			if tx.To != nil {
				x.c.Send(tx.From, tx.To, tx.Value.Big())
			}
		}
		b := x.blocks[int(op[7])%len(x.blocks)]
		x.fail(x.checkBlock(b))
		x.fail(x.checkBlock(x.pending()))
	}
	for _, b := range x.blocks {
		x.fail(x.checkBlock(b))
	}
}

//vc:property C20
//vc:gen VG_Chain
func VB_Readonly(ops, pool []byte) {
	vc.Requires(len(pool) >= 64)
	x := vcSetup(pool)
	for ; len(ops) >= 8; ops = ops[8:] {
		op := ops[:8]
		switch op[0] % 8 {
		case 0:
			tx := vcTxOf(op, pool)
			x.mine(tx, op[7]%2 == 0)
		case 1:
			x.c.Seal()
			x.sealed()
		case 2:
			x.newFilter(op)
		default:
			before := x.dump()
			q := append([]byte{op[0] / 8}, op[1:]...)
			q = append(q, 0)
			x.query(q, append(append([]byte{}, pool...), pool...))
			after := x.dump()
			if before != after {
				x.fail(fmt.Sprintf("request kind %d changes the chain", q[0]%13))
			}
		}
	}
}

//vc:property C21
//vc:gen VG_Chain
func VB_Filters(ops, pool []byte) {
	vc.Requires(len(pool) >= 64)
	x := vcSetup(pool)
	for ; len(ops) >= 8; ops = ops[8:] {
		op := ops[:8]
		switch op[0] % 8 {
		case 0, 1, 2:
			x.mine(vcTxOf(op, pool), false)
		case 3:
			x.c.Seal()
			x.sealed()
		case 4:
			x.newFilter(op)
		case 5, 6:
			if len(x.filts) > 0 {
				x.poll(x.filts[int(op[1])%len(x.filts)], op[2]%3 == 0)
			}
		case 7:
			if len(x.filts) > 2 {
				i := int(op[1]) % len(x.filts)
				raw, ok := x.call("eth_uninstallFilter", seth.Uint64(x.filts[i].id))
				vc.Assert("filter is removed", func() bool { return ok && string(raw) == "true" })
				_, ok = x.call("eth_getFilterChanges", seth.Uint64(x.filts[i].id))
				vc.Assert("a removed filter is unknown", func() bool { return !ok })
				x.filts = append(x.filts[:i], x.filts[i+1:]...)
			}
		}
	}
	for _, f := range x.filts {
		x.poll(f, false)
		x.poll(f, true)
		x.poll(f, false)
	}
}
