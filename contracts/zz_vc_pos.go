package seth

import "github.com/philhofer/seth/internal/vc"

// C24, proved: program counters, metadata.

func vcMetaAt(b []byte) bool {
	n := len(b) - 43
	return n >= 0 && vcText(b[n:n+9], "\xa1\x65bzzr0\x58\x20") && b[n+41] == 0 && b[n+42] == 0x29
}

func VG_MetaBytes(r *vc.Rand) []byte { return VG_Meta(r) }

//vc:for MetadataHash
//vc:view
//vc:property C24
//vc:gen VG_MetaBytes
func VC_MetadataHash(b []byte) {
	h := MetadataHash(b)
	vc.Ensures("none without a trailing section", func() bool { return vcMetaAt(b) || h == nil })
	vc.Ensures("the hash in a trailing section", func() bool {
		return !vcMetaAt(b) || h != nil && vc.BytesEq(h, b[len(b)-34:len(b)-2])
	})
}

//vc:for StripBytecode
//vc:view
//vc:property C24
//vc:gen VG_MetaBytes
func VC_StripBytecode(b []byte) {
	s := StripBytecode(b)
	vc.Ensures("unchanged without a trailing section", func() bool { return vcMetaAt(b) || vc.BytesEq(s, b) })
	vc.Ensures("exactly the section is removed", func() bool {
		return !vcMetaAt(b) || vc.BytesEq(s, b[:len(b)-43])
	})
}

// vcImm is the number of immediate bytes that follow the instruction op
func vcImm(op byte) int {
	if op >= 0x60 && op <= 0x7f {
		return int(op) - 0x5f
	}
	return 0
}

// vcLeft: how many immediate bytes are left at i
//
//vc:opaque
func vcLeft(code []byte, i int) int {
	if i == 0 {
		return 0
	}
	if l := vcLeft(code, i-1); l > 0 {
		return l - 1
	}
	return vcImm(code[i-1])
}

// vcNum: the number of the instruction that the byte i lies in
//
//vc:opaque
func vcNum(code []byte, i int) int {
	if i == 0 {
		return 0
	}
	if vcLeft(code, i) > 0 {
		return vcNum(code, i-1)
	}
	return vcNum(code, i-1) + 1
}

func vcNums(code []byte, out []int, n int) bool {
	return vc.Forall(0, n, func(k int) bool { return out[k] == vcNum(code, k) })
}

// vcNext: the number of an instruction that starts at i
func vcNext(code []byte, i int) int {
	if i == 0 {
		return 0
	}
	return vcNum(code, i-1) + 1
}

//vc:in VC_compilePos
func VI_pos_range(c *CompiledContract, i int, out []int) bool {
	return i >= 0 && i <= len(c.Code) && len(out) == i
}

//vc:in VC_compilePos
func VI_pos_done(c *CompiledContract, i int, out []int) bool {
	return vcNums(c.Code, out, i)
}

//vc:in VC_compilePos
func VI_pos_outer(c *CompiledContract, i, opnum int) bool {
	return opnum == vcNext(c.Code, i) && (i == len(c.Code) || vcLeft(c.Code, i) == 0)
}

//vc:in VC_compilePos
func VI_pos_inner(c *CompiledContract, i, opnum, width int) bool {
	first := i < len(c.Code) && vcLeft(c.Code, i) == 0 && width == 1+vcImm(c.Code[i]) && opnum == vcNext(c.Code, i)
	return first || i > 0 && width >= 0 && vcLeft(c.Code, i) == width && opnum == vcNum(c.Code, i-1)
}

func VG_compilePos(r *vc.Rand) *CompiledContract { return &CompiledContract{Code: vgCode(r)} }

//vc:for CompiledContract.compilePos
//vc:property C24
//vc:gen VG_compilePos
func VC_compilePos(c *CompiledContract) {
	vc.Modifies(&c.pos)
	c.compilePos()
	vc.Ensures("as many as bytes", func() bool { return len(c.pos) == len(c.Code) })
	vc.Ensures("each of its instruction", func() bool { return vcNums(c.Code, c.pos, len(c.Code)) })
}

func VG_pc2info(r *vc.Rand) (*CompiledContract, int) {
	c := &CompiledContract{Code: vgCode(r), Sourcemap: vgSourcemap(r)}
	c.compilePos()
	c.compileSourcemap()
	return c, r.Intn(len(c.Code)+4) - 2
}


//vc:property C24
//vc:gen VG_pc2info
func VT_pc2info(c *CompiledContract, pc int) {
	vc.Requires(vc.Forall(0, len(c.pos), func(i int) bool { return c.pos[i] >= 0 }))
	e := c.pc2info(pc)
	in := pc >= 0 && pc < len(c.pos) && c.pos[pc] < len(c.srcmap)
	vc.Ensures("none outside the code or the map", func() bool { return in || e == nil })
	vc.Ensures("the entry of the instruction", func() bool { return !in || e == &c.srcmap[c.pos[pc]] })
}

func VG_SourceText(r *vc.Rand) (*CompiledBundle, *CompiledContract, int) {
	src, _, _, _ := VG_SourceOf(r)
	c, pc := VG_pc2info(r)
	return &CompiledBundle{Sources: src}, c, pc
}

// VC_SourceOf: with the map already taken apart
//
//vc:for CompiledBundle.SourceOf
//vc:property C24
//vc:gen VG_SourceText
func VC_SourceOf(b *CompiledBundle, c *CompiledContract, pc int) {
	vc.Requires(len(c.srcmap) > 0 && vc.Forall(0, len(c.pos), func(i int) bool { return c.pos[i] >= 0 }))
	got := b.SourceOf(c, pc)
	in := pc >= 0 && pc < len(c.pos) && c.pos[pc] < len(c.srcmap)
	vc.Ensures("no text outside", func() bool { return in || got == "" })
	if in {
		e := c.srcmap[c.pos[pc]]
		ok := e.f >= 0 && e.f < len(b.Sources) && e.s >= 0 && e.l >= 0 && vc.Le(vc.Add(vc.I(int64(e.s)), vc.I(int64(e.l))), vc.I(int64(len(b.Sources[e.f]))))
		vc.Ensures("no text without a stretch", func() bool { return ok || got == "" })
		vc.Ensures("the stretch", func() bool { return !ok || got == b.Sources[e.f][e.s:e.s+e.l] })
	}
}
