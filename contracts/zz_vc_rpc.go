package seth

import (
	"encoding/json"
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C22: the requests of the client, proved over a transport that keeps what it
// is given.

type vcKeep struct {
	calls  int
	method string
	params []json.RawMessage
	result []byte
	err    error
}

func (w *vcKeep) Execute(req *RPCRequest, res *RPCResponse) error {
	w.calls++
	w.method = req.Method
	w.params = req.Params
	res.Result = w.result
	return w.err
}

// vcJSONText: raw is the JSON string of a text without special characters
func vcJSONText(raw, text []byte) bool {
	return len(raw) == len(text)+2 && raw[0] == '"' && raw[len(raw)-1] == '"' &&
		vc.Forall(0, len(text), func(i int) bool { return raw[1+i] == text[i] })
}

// vcHexOf: raw is the JSON string 0x and the digits of b
func vcHexOf(raw, b []byte) bool {
	return len(raw) == 2*len(b)+4 && raw[0] == '"' && raw[1] == '0' && raw[2] == 'x' && raw[len(raw)-1] == '"' &&
		vc.Forall(0, len(b), func(i int) bool {
			return raw[3+2*i] == "0123456789abcdef"[b[i]>>4] && raw[4+2*i] == "0123456789abcdef"[b[i]&15]
		})
}

// vcNames: raw names the block n
func vcNames(raw []byte, n int64) bool {
	switch n {
	case -2:
		return vcText(raw, `"pending"`)
	case -1:
		return vcText(raw, `"latest"`)
	}
	return n == 0 && vcText(raw, `"earliest"`) || vcBlockHex(raw, n)
}

func VG_Marshal(r *vc.Rand) interface{} {
	switch r.Intn(3) {
	case 0:
		a := new(Address)
		copy(a[:], r.Bytes(20))
		return a
	case 1:
		d := Data(r.Bytes(r.Intn(40)))
		return d
	}
	if r.Bool() {
		return vgOpts(r)
	}
	h := new(Hash)
	copy(h[:], r.Bytes(32))
	return h
}

// vcDescribes: raw is the JSON form of the call o
//
//vc:abstract
func vcDescribes(raw []byte, o *CallOpts) bool { return vcIsOpts(raw, o) }


// The JSON form of addresses, hashes and data. Assumed at call sites: the
// encoder of the standard library quotes what MarshalText returns.
//
//vc:for encoding/json.Marshal
//vc:property C22
//vc:gen VG_Marshal
func VB_json_Marshal(v interface{}) {
	out, err := json.Marshal(v)
	vc.Ensures("no error", func() bool { return err == nil })
	vc.Ensures("in hexadecimal", func() bool {
		switch x := v.(type) {
		case *Address:
			return vcHexOf(out, x[:])
		case *Hash:
			return vcHexOf(out, x[:])
		case Data:
			return vcHexOf(out, x)
		case *CallOpts:
			return vcDescribes(out, x)
		}
		return true
	})
}

func VG_Unmarshal(r *vc.Rand) ([]byte, interface{}) {
	return []byte(r.Pick("1", `"0x12"`, "null", "{}")), new(Int)
}

//vc:for encoding/json.Unmarshal
//vc:property C22
//vc:gen VG_Unmarshal
func VB_json_Unmarshal(data []byte, v interface{}) {
	vc.Modifies(v)
	err := json.Unmarshal(data, v)
	_ = err
}

func VG_Addr(r *vc.Rand) (*Address, []byte, int64) {
	a := new(Address)
	copy(a[:], r.Bytes(20))
	return a, []byte(r.Pick(`"0x1"`, "null", "7")), VG_BlockNum(r)
}

// vcClient is a client with a transport that keeps the request
func vcClient(reply []byte) (*vcKeep, *Client) {
	w := &vcKeep{result: reply}
	return w, NewClientTransport(w)
}

func (w *vcKeep) asked(method string, n int) bool {
	return w.calls == 1 && w.method == method && len(w.params) == n
}

func vcAskAddr(w *vcKeep, method string, a *Address, block int64) {
	vc.Assert("one request", func() bool { return w.asked(method, 2) })
	vc.Assert("for the account", func() bool { return vcHexOf(w.params[0], a[:]) })
	vc.Assert("at the block", func() bool { return vcNames(w.params[1], block) })
}

//vc:property C22
//vc:gen VG_Addr
func VT_GetBalanceAt(a *Address, reply []byte, block int64) {
	vc.Requires(block >= -2)
	w, c := vcClient(reply)
	c.GetBalanceAt(a, block)
	vcAskAddr(w, "eth_getBalance", a, block)
}

//vc:property C22
//vc:gen VG_AddrReply
func VT_GetBalance(a *Address, reply []byte) {
	w, c := vcClient(reply)
	c.GetBalance(a)
	vcAskAddr(w, "eth_getBalance", a, -1)
}

//vc:property C22
//vc:gen VG_Addr
func VT_GetNonceAt(a *Address, reply []byte, block int64) {
	vc.Requires(block >= -2)
	w, c := vcClient(reply)
	c.GetNonceAt(a, block)
	vcAskAddr(w, "eth_getTransactionCount", a, block)
}

//vc:property C22
//vc:gen VG_AddrReply
func VT_GetNonce(a *Address, reply []byte) {
	w, c := vcClient(reply)
	c.GetNonce(a)
	vcAskAddr(w, "eth_getTransactionCount", a, -1)
}

//vc:property C22
//vc:gen VG_Addr
func VT_GetCodeAt(a *Address, reply []byte, block int64) {
	vc.Requires(block >= -2)
	w, c := vcClient(reply)
	c.GetCodeAt(a, block)
	vcAskAddr(w, "eth_getCode", a, block)
}

//vc:property C22
//vc:gen VG_AddrReply
func VT_GetCode(a *Address, reply []byte) {
	w, c := vcClient(reply)
	c.GetCode(a)
	vcAskAddr(w, "eth_getCode", a, -1)
}


func VG_AddrReply(r *vc.Rand) (*Address, []byte) {
	a, b, _ := VG_Addr(r)
	return a, b
}

func VG_Storage(r *vc.Rand) (*Address, *Hash, []byte, int64) {
	a, b, n := VG_Addr(r)
	h := new(Hash)
	copy(h[:], r.Bytes(32))
	return a, h, b, n
}

//vc:property C22
//vc:gen VG_Storage
func VT_StorageAt(a *Address, h *Hash, reply []byte, block int64) {
	vc.Requires(block >= -2)
	w, c := vcClient(reply)
	c.StorageAt(a, h, block)
	vc.Assert("one request", func() bool { return w.asked("eth_getStorageAt", 3) })
	vc.Assert("for the account and slot", func() bool { return vcHexOf(w.params[0], a[:]) && vcHexOf(w.params[1], h[:]) })
	vc.Assert("at the block", func() bool { return vcNames(w.params[2], block) })
}

func VG_HashReply(r *vc.Rand) (*Hash, []byte) {
	_, h, b, _ := VG_Storage(r)
	return h, b
}

//vc:property C22
//vc:gen VG_HashReply
func VT_GetTransaction(h *Hash, reply []byte) {
	w, c := vcClient(reply)
	c.GetTransaction(h)
	vc.Assert("one request", func() bool { return w.asked("eth_getTransactionByHash", 1) })
	vc.Assert("for the hash", func() bool { return vcHexOf(w.params[0], h[:]) })
}

//vc:property C22
//vc:gen VG_HashReply
func VT_GetReceipt(h *Hash, reply []byte) {
	w, c := vcClient(reply)
	c.GetReceipt(h)
	vc.Assert("one request", func() bool { return w.asked("eth_getTransactionReceipt", 1) })
	vc.Assert("for the hash", func() bool { return vcHexOf(w.params[0], h[:]) })
}

func VG_BlockReply(r *vc.Rand) (int64, bool, []byte) {
	_, b, n := VG_Addr(r)
	return n, r.Bool(), b
}

func vcAskBlock(w *vcKeep, n int64, txs bool) {
	vc.Assert("one request", func() bool { return w.asked("eth_getBlockByNumber", 2) })
	vc.Assert("for the block", func() bool { return vcNames(w.params[0], n) })
	vc.Assert("with its transactions or not", func() bool { return txs && vcText(w.params[1], "true") || !txs && vcText(w.params[1], "false") })
}

//vc:property C22
//vc:gen VG_BlockReply
func VT_GetBlock(n int64, txs bool, reply []byte) {
	vc.Requires(n >= -2)
	w, c := vcClient(reply)
	c.GetBlock(n, txs)
	vcAskBlock(w, n, txs)
}

//vc:property C22
//vc:gen VG_BlockReply
func VT_Latest(n int64, txs bool, reply []byte) {
	w, c := vcClient(reply)
	c.Latest(txs)
	vcAskBlock(w, -1, txs)
}

func VG_Bytes2(r *vc.Rand) ([]byte, []byte) { return r.Data(80), []byte(r.Pick(`"0x1"`, "null")) }

//vc:property C22
//vc:gen VG_Bytes2
func VT_RawCall(raw, reply []byte) {
	w, c := vcClient(reply)
	c.RawCall(raw)
	vc.Assert("one request", func() bool { return w.asked("eth_sendRawTransaction", 1) })
	vc.Assert("with the bytes", func() bool { return vcHexOf(w.params[0], raw) })
}

func VG_Opts(r *vc.Rand) (*CallOpts, []byte, int64, bool) {
	_, b, n := VG_Addr(r)
	return vgOpts(r), b, n, r.Bool()
}

//vc:property C22
//vc:gen VG_Opts
func VT_Calls(o *CallOpts, reply []byte, block int64, pending bool) {
	vc.Requires(block >= -2)
	w, c := vcClient(reply)
	c.Call(o)
	vc.Assert("sends the call", func() bool { return w.asked("eth_sendTransaction", 1) && vcDescribes(w.params[0], o) })
	w, c = vcClient(reply)
	c.EstimateGas(o)
	vc.Assert("estimates the call in the pending block", func() bool {
		return w.asked("eth_estimateGas", 2) && vcDescribes(w.params[0], o) && vcText(w.params[1], `"pending"`)
	})
	w, c = vcClient(reply)
	var out Data
	c.ConstCallAt(o, &out, block)
	vc.Assert("calls at the block", func() bool {
		return w.asked("eth_call", 2) && vcDescribes(w.params[0], o) && vcNames(w.params[1], block)
	})
	w, c = vcClient(reply)
	c.ConstCall(o, &out, pending)
	vc.Assert("calls at the latest or pending block", func() bool {
		return w.asked("eth_call", 2) && vcDescribes(w.params[0], o) && (pending && vcText(w.params[1], `"pending"`) || !pending && vcText(w.params[1], `"latest"`))
	})
}

func VG_Transfer(r *vc.Rand) (*Receipt, *Log) {
	rx := &Receipt{BlockNumber: Uint64(r.Uint64() >> uint(1+r.Intn(60))), Index: Uint64(r.Intn(400))}
	l := &Log{Data: r.Bytes(r.Intn(40))}
	copy(l.Address[:], r.Bytes(20))
	for i := 0; i < 2+r.Intn(3); i++ {
		n := 32
		if r.P(10) {
			n = r.Intn(40)
		}
		l.Topics = append(l.Topics, r.Bytes(n))
	}
	if r.P(90) {
		l.Topics[0] = append(Data{}, ERC20Transfer[:]...)
	}
	return rx, l
}

//vc:for Receipt.ParseTransfer
//vc:property C22
//vc:gen VG_Transfer
func VC_Receipt_ParseTransfer(r *Receipt, l *Log) {
	tt, ok := r.ParseTransfer(l)
	vc.Ensures("exactly transfers", func() bool {
		return ok == (len(l.Topics) == 3 && len(l.Topics[1]) == 32 && len(l.Topics[2]) == 32 && vc.BytesEq(l.Topics[0], ERC20Transfer[:]))
	})
	vc.Ensures("the parties and the amount", func() bool {
		return !ok || vc.BytesEq(tt.From[:], l.Topics[1][12:]) && vc.BytesEq(tt.To[:], l.Topics[2][12:]) && vc.Eq((*big.Int)(&tt.Amount), vc.BE(l.Data))
	})
	vc.Ensures("the token and the place", func() bool {
		return !ok || vc.BytesEq(tt.Token[:], l.Address[:]) && tt.Block == int64(r.BlockNumber) && tt.TxHeight == int(r.Index)
	})
}
