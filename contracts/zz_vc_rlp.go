package seth

import (
	"errors"
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C06: RLP and signing hash

// vcMinimal: the minimal big-endian bytes of n
func vcMinimal(n *big.Int) []byte {
	var b []byte
	for x := vc.Copy(n); x.Sign() > 0; x.Rsh(x, 8) {
		b = append([]byte{byte(x.Uint64())}, b...)
	}
	return b
}

func vcRLPHead(n int, base byte) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	l := vcMinimal(vc.I(int64(n)))
	return append([]byte{base + 55 + byte(len(l))}, l...)
}

func vcRLPString(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(vcRLPHead(len(b), 0x80), b...)
}

func vcRLPInt(n *big.Int) []byte { return vcRLPString(vcMinimal(n)) }

func vcRLPList(items ...[]byte) []byte {
	var b []byte
	for _, i := range items {
		b = append(b, i...)
	}
	return append(vcRLPHead(len(b), 0xc0), b...)
}

func vcTxItems(t *Transaction) [][]byte {
	var to []byte
	if t.To != nil {
		to = t.To[:]
	}
	return [][]byte{
		vcRLPInt(vc.U(uint64(t.Nonce))),
		vcRLPInt((*big.Int)(&t.GasPrice)),
		vcRLPInt(vc.U(uint64(t.Gas))),
		vcRLPString(to),
		vcRLPInt((*big.Int)(&t.Value)),
		vcRLPString(t.Input),
	}
}

func vgTx(r *vc.Rand) *Transaction {
	t := &Transaction{}
	t.Nonce = Uint64(r.Big(64, false).Uint64())
	t.Gas = Uint64(r.Big(64, false).Uint64())
	t.GasPrice = Int(*r.Big(256, false))
	t.Value = Int(*r.Big(256, false))
	if !r.P(30) {
		t.To = VG_Address(r)
	}
	switch r.Intn(8) {
	case 0:
	case 1:
		t.Input = Data{byte(r.Uint64())}
	case 2:
		t.Input = r.Bytes(r.Intn(260))
	case 3:
		t.Input = r.Bytes([]int{54, 55, 56, 57, 254, 255, 256, 257, 300}[r.Intn(9)])
	case 4:
		if r.P(20) {
			t.Input = r.Bytes(65536 - 120 + r.Intn(240))
		}
		if r.P(1) && r.P(20) {
			t.Input = r.Bytes(1<<24 - 2 + r.Intn(4))
		}
	default:
		t.Input = r.Bytes(r.Intn(80))
	}
	t.Hash = *(*Hash)(vgHash(r))
	t.From = VG_Address(r)
	return t
}

func vgHash(r *vc.Rand) *Hash {
	h := new(Hash)
	copy(h[:], r.Bytes(32))
	return h
}

func VG_HashToSign(r *vc.Rand) *Transaction { return vgTx(r) }

//vc:property C06
//vc:gen VG_HashToSign
func VB_HashToSign(t *Transaction) {
	items := append(vcTxItems(t), vcRLPInt(vc.I(1)), vcRLPInt(vc.I(0)), vcRLPInt(vc.I(0)))
	want := vc.Keccak(vcRLPList(items...))
	in := vc.Snap(t.Input)
	h := t.HashToSign()
	vc.Ensures("hash of the nine-item list", func() bool { return vc.BytesEq(h[:], want[:]) })
	vc.Ensures("input unchanged", func() bool { return vc.BytesEq(t.Input, in) })
}

func VG_EncodeSigned(r *vc.Rand) (*Transaction, *Signature) {
	s := new(Signature)
	copy(s[:32], r.Bytes(32))
	copy(s[32:64], r.Bytes(32))
	for i := 0; i < 64; i += 32 {
		if r.P(20) { // short components
			for j := r.Intn(32); j > 0; j-- {
				s[i+j-1] = 0
			}
		}
	}
	s[64] = byte(r.Intn(2))
	return vgTx(r), s
}

//vc:property C06
//vc:gen VG_EncodeSigned
func VB_EncodeSigned(t *Transaction, s *Signature) {
	r, sv := vc.BE(s[:32]), vc.BE(s[32:64])
	vc.Requires(s[64] <= 1 && !vc.IsZero(r) && !vc.IsZero(sv))
	items := append(vcTxItems(t), vcRLPInt(vc.I(37+int64(s[64]))), vcRLPInt(r), vcRLPInt(sv))
	want := vcRLPList(items...)
	out := t.Encode(s)
	vc.Ensures("nine-item list", func() bool { return vc.BytesEq(out, want) })
	hash := t.HashToSign()
	calls := 0
	raw, err := SignTransaction(t, func(h *Hash) (*Signature, error) {
		calls++
		if *h != *hash {
			return nil, errors.New("asked to sign another hash")
		}
		return s, nil
	})
	vc.Ensures("signed once, over the hash to sign", func() bool { return err == nil && calls == 1 })
	vc.Ensures("raw transaction", func() bool { return vc.BytesEq(raw, want) })
	_, err = SignTransaction(t, func(h *Hash) (*Signature, error) { return nil, errors.New("no") })
	vc.Ensures("refusal of the signer is reported", func() bool { return err != nil })
}
