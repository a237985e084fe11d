package main

import (
	"bytes"
	"encoding/hex"

	"github.com/philhofer/seth/internal/vc"
)

// C28, proved: no code at all crashes the listing, and what is listed is the
// longest run of entries that follows the first preamble found.

func vcWidth(code []byte, p int) int {
	if p < 0 || p+7 >= len(code) {
		return 0
	}
	return int(code[p+7]) - 0x5f
}

// vcIsEntry: an entry starts at p
func vcIsEntry(code []byte, p int) bool {
	if p < 0 || p+10 > len(code) {
		return false
	}
	n := vcWidth(code, p)
	return (code[p] == 0x63 && code[p+5] == 0x81 && code[p+6] == 0x14 || code[p] == 0x80 && code[p+1] == 0x63 && code[p+6] == 0x14) &&
		n >= 1 && n <= 4 && p+9+n <= len(code) && code[p+8+n] == 0x57
}

// vcDecodes: e is what the entry at p says
func vcDecodes(code []byte, p int, e *jmpentry) bool {
	q := p + 2
	if code[p] == 0x63 && code[p+5] == 0x81 && code[p+6] == 0x14 {
		q = p + 1
	}
	if e.prefix[0] != code[q] || e.prefix[1] != code[q+1] || e.prefix[2] != code[q+2] || e.prefix[3] != code[q+3] {
		return false
	}
	d := int(code[p+8])
	n := vcWidth(code, p)
	if n > 1 {
		d = d*256 + int(code[p+9])
	}
	if n > 2 {
		d = d*256 + int(code[p+10])
	}
	if n > 3 {
		d = d*256 + int(code[p+11])
	}
	return e.jmpdest == d
}

// vcJumpPos: where entry i starts, if the entries before it are ones
//
//vc:opaque
func vcJumpPos(code []byte, start, i int) int {
	if i == 0 {
		return start
	}
	p := vcJumpPos(code, start, i-1)
	return p + 9 + vcWidth(code, p)
}

// vcJumpStart: the end of the first preamble that occurs, or -1
func vcJumpStart(code []byte) int {
	for _, p := range prefixes {
		b, _ := hex.DecodeString(p)
		if i := bytes.Index(code, b); i >= 0 {
			return i + len(b)
		}
	}
	return -1
}

//vc:property C28
//vc:gen VG_AnyCode
func VT_JumpAny(code []byte) {
	code0 := vc.Snap(code)
	start := vcJumpStart(code)
	vc.Ghost("start", start)
	var got []jmpentry
	refused := vc.Exits(func() { got = jumpentries(code) })
	vc.Assert("refused exactly without a preamble", func() bool { return refused == (start < 0) })
	if refused {
		return
	}
	vc.Assert("code unchanged", func() bool { return vc.BytesEq(code, code0) })
	vc.Assert("the entries, in order", func() bool {
		return vc.Forall(0, len(got), func(i int) bool {
			p := vcJumpPos(code, start, i)
			return vcIsEntry(code, p) && vcDecodes(code, p, &got[i])
		})
	})
	vc.Assert("no entry is left out", func() bool { return !vcIsEntry(code, vcJumpPos(code, start, len(got))) })
}

//vc:in VT_JumpAny
func VI_jumpRest(entries []jmpentry, base, code []byte, start int) bool {
	return len(base) == len(code)-vcJumpPos(code, start, len(entries))
}

//vc:in VT_JumpAny
func VI_jumpEntries(entries []jmpentry, code []byte, start int) bool {
	return vc.Forall(0, len(entries), func(i int) bool {
		p := vcJumpPos(code, start, i)
		return vcIsEntry(code, p) && vcDecodes(code, p, &entries[i])
	})
}
