package keccak

import (
	"hash"

	"github.com/philhofer/seth/internal/vc"
)

func VG_Data(r *vc.Rand) []byte { return r.Data(700) }

// Sum256 hashes whole messages (bounded: executed).
//
//vc:for Sum256
//vc:property C11
//vc:gen VG_Data
func VB_Sum256(data []byte) {
	d0 := vc.Snap(data)
	r := Sum256(data)
	h := vc.Keccak(d0)
	vc.Ensures("Keccak-256 of the data", func() bool { return vc.BytesEq(r[:], h[:]) })
	vc.Ensures("data unchanged", func() bool { return vc.BytesEq(data, d0) })
}

// all digest sizes
//
//vc:property C11
//vc:gen VG_Data
func VB_Sums(data []byte) {
	a, b, c, d := Sum224(data), Sum256(data), Sum384(data), Sum512(data)
	vc.Ensures("224", func() bool { return vc.BytesEq(a[:], vc.Sponge(data, 144, 1, 28)) })
	vc.Ensures("256", func() bool { return vc.BytesEq(b[:], vc.Sponge(data, 136, 1, 32)) })
	vc.Ensures("384", func() bool { return vc.BytesEq(c[:], vc.Sponge(data, 104, 1, 48)) })
	vc.Ensures("512", func() bool { return vc.BytesEq(d[:], vc.Sponge(data, 72, 1, 64)) })
}

// histories of Write, Sum and Reset: op 0 writes the next piece, 1 takes a
// digest behind a prefix, 2 resets.
func VG_History(r *vc.Rand) (int, []byte, [][]byte) {
	n := r.Intn(12)
	ops := make([]byte, n)
	ps := make([][]byte, n)
	rate := []int{144, 136, 104, 72}
	k := r.Intn(4)
	for i := range ops {
		ops[i] = byte(r.Intn(7))
		if r.P(30) {
			ps[i] = r.Bytes(rate[k]*r.Intn(4) + r.Intn(3) - 1 + 1)
		} else {
			ps[i] = r.Data(400)
		}
		if len(ps[i]) > 0 && r.P(20) {
			ps[i] = ps[i][:r.Intn(len(ps[i]))]
		}
	}
	return k, ops, ps
}

//vc:property C11
//vc:gen VG_History
func VB_History(k int, ops []byte, ps [][]byte) {
	if k < 0 || k > 3 {
		return
	}
	rate, size := []int{144, 136, 104, 72}[k], []int{28, 32, 48, 64}[k]
	h := []func() hash.Hash{New224, New256, New384, New512}[k]()
	other := New256()
	var msg []byte
	vc.Ensures("sizes", func() bool { return h.Size() == size && h.BlockSize() == rate })
	check := func(prefix []byte) {
		p0 := vc.Snap(prefix)
		behind := vc.Snap(prefix[:cap(prefix)])
		out := h.Sum(prefix)
		vc.Ensures("nothing behind the digest written", func() bool {
			all := prefix[:cap(prefix)]
			return vc.BytesEq(prefix, p0) && (len(all) <= len(p0)+size || vc.BytesEq(all[len(p0)+size:], behind[len(p0)+size:]))
		})
		want := append(vc.Snap(p0), vc.Sponge(msg, rate, 1, size)...)
		vc.Ensures("digest behind the prefix", func() bool { return vc.BytesEq(out, want) })
	}
	for i, op := range ops {
		p := ps[i]
		switch op {
		case 5:
			check(p)
		case 6:
			h.Reset()
			msg = nil
		default:
			p0 := vc.Snap(p)
			n, err := h.Write(p)
			vc.Ensures("whole piece written", func() bool { return n == len(p) && err == nil && vc.BytesEq(p, p0) })
			for j := range p {
				p[j] ^= 0x55 // the hash keeps no reference to the piece
			}
			msg = append(msg, p0...)
			other.Write(p)
		}
	}
	check(nil)
	check(make([]byte, 3, 200))
	check(make([]byte, 3, 3+size))
	check(make([]byte, 3, 2+size))
	h.Write([]byte("tail"))
	msg = append(msg, "tail"...)
	check(nil)
	h.Reset()
	msg = nil
	check(nil)
}
