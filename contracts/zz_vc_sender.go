package seth

import (
	"math/big"

	"github.com/philhofer/seth/internal/vc"
)

// C23, proved: the gas that is offered and the transaction that is signed.

func VG_pad(r *vc.Rand) (*Sender, *Int) {
	s := &Sender{}
	s.GasRatio.Num, s.GasRatio.Denom = 1+r.Intn(20), 1+r.Intn(20)
	if r.P(10) {
		return s, nil
	}
	g := Int(*r.Big(70, false))
	return s, &g
}

//vc:for Sender.pad
//vc:property C23
//vc:gen VG_pad
func VC_pad(s *Sender, gas *Int) {
	vc.Requires(s.GasRatio.Num > 0 && s.GasRatio.Denom > 0)
	vc.Requires(gas == nil || (*big.Int)(gas).Sign() >= 0)
	g := s.pad(gas)
	vc.Ensures("nothing for nothing", func() bool { return (g == nil) == (gas == nil) })
	vc.Ensures("the estimate by the ratio, rounded down", func() bool {
		if gas == nil {
			return true
		}
		num, den := vc.I(int64(s.GasRatio.Num)), vc.I(int64(s.GasRatio.Denom))
		lo := vc.Mul((*big.Int)(g), den)
		of := vc.Mul((*big.Int)(gas), num)
		return vc.Le(lo, of) && vc.Lt(of, vc.Add(lo, den))
	})
}

func VG_Transaction(r *vc.Rand) *CallOpts {
	o := vgOpts(r)
	if o.Gas == nil {
		o.Gas = (*Int)(r.Big(60, false))
	}
	if o.GasPrice == nil {
		o.GasPrice = (*Int)(r.Big(90, false))
	}
	return o
}

// Gas of 2^64 and more is cut off (DESIGN, open defects).
//
//vc:property C06 C23
//vc:gen VG_Transaction
func VT_Transaction(o *CallOpts) {
	vc.Requires(o.Gas != nil && o.GasPrice != nil)
	vc.Requires((*big.Int)(o.Gas).Sign() >= 0 && vc.Lt((*big.Int)(o.Gas), vc.Pow2(64)))
	t := o.Transaction()
	vc.Assert("a transaction", func() bool { return t != nil })
	vc.Assert("sender and target", func() bool {
		return (t.From == nil) == (o.From == nil) && (o.From == nil || *t.From == *o.From) &&
			(t.To == nil) == (o.To == nil) && (o.To == nil || *t.To == *o.To)
	})
	vc.Assert("gas and price", func() bool {
		return vc.Eq(vc.U(uint64(t.Gas)), (*big.Int)(o.Gas)) && vc.Eq((*big.Int)(&t.GasPrice), (*big.Int)(o.GasPrice))
	})
	vc.Assert("value", func() bool {
		if o.Value == nil {
			return vc.IsZero((*big.Int)(&t.Value))
		}
		return vc.Eq((*big.Int)(&t.Value), (*big.Int)(o.Value))
	})
	vc.Assert("nonce", func() bool {
		if o.Nonce == nil {
			return t.Nonce == 0
		}
		return t.Nonce == *o.Nonce
	})
	vc.Assert("data", func() bool { return vc.BytesEq(t.Input, o.Data) })
}
