package vc

// Reference Keccak-f[1600] from the specification's round description,
// independent of the code under test.

var rc = func() [24]uint64 {
	var out [24]uint64
	// LFSR from the specification
	r := uint(1)
	for i := 0; i < 24; i++ {
		for j := uint(0); j <= 6; j++ {
			if r&1 != 0 {
				out[i] ^= uint64(1) << (uint(1)<<j - 1)
			}
			r <<= 1
			if r&0x100 != 0 {
				r ^= 0x171
			}
		}
	}
	return out
}()

func rotl(x uint64, n uint) uint64 { return x<<(n%64) | x>>((64-n%64)%64) }

// KeccakF is the permutation.
func KeccakF(s *[25]uint64) {
	var A [5][5]uint64
	for i := range s {
		A[i%5][i/5] = s[i]
	}
	var off [5][5]uint
	x, y := 1, 0
	for t := uint(0); t < 24; t++ {
		off[x][y] = ((t + 1) * (t + 2) / 2) % 64
		x, y = y, (2*x+3*y)%5
	}
	for r := 0; r < 24; r++ {
		var C, D [5]uint64
		for x := 0; x < 5; x++ {
			C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4]
		}
		for x := 0; x < 5; x++ {
			D[x] = C[(x+4)%5] ^ rotl(C[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				A[x][y] ^= D[x]
			}
		}
		var B [5][5]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				B[y][(2*x+3*y)%5] = rotl(A[x][y], off[x][y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				A[x][y] = B[x][y] ^ (^B[(x+1)%5][y] & B[(x+2)%5][y])
			}
		}
		A[0][0] ^= rc[r]
	}
	for i := range s {
		s[i] = A[i%5][i/5]
	}
}

// Sponge absorbs msg at the given rate (bytes) with the domain byte and
// squeezes n bytes.
func Sponge(msg []byte, rate int, dom byte, n int) []byte {
	var s [25]uint64
	p := append(append([]byte(nil), msg...), dom)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for len(p) > 0 {
		for i := 0; i < rate; i++ {
			s[i/8] ^= uint64(p[i]) << (8 * uint(i%8))
		}
		KeccakF(&s)
		p = p[rate:]
	}
	var out []byte
	for len(out) < n {
		for i := 0; i < rate && len(out) < n; i++ {
			out = append(out, byte(s[i/8]>>(8*uint(i%8))))
		}
		KeccakF(&s)
	}
	return out
}

// Keccak is Keccak-256 (uninterpreted for the verifier).
func Keccak(b []byte) [32]byte {
	var r [32]byte
	copy(r[:], Sponge(b, 136, 1, 32))
	return r
}
