package seth

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/philhofer/seth/internal/vc"
	"github.com/tinylib/msgp/msgp"
)

// C24: program counters, source maps, metadata

func vcEqualInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// vcPC is the number of the instruction each pc lies in
func vcPC(code []byte) []int {
	out := make([]int, len(code))
	left, n := 0, -1
	for i, b := range code {
		if left > 0 {
			left--
		} else {
			n++
			if b >= 0x60 && b <= 0x7f {
				left = int(b) - 0x5f
			}
		}
		out[i] = n
	}
	return out
}

type vcEntry [4]string

// vcMap resolves the entries of a source map
func vcMap(m string) []srcinfo {
	var out []srcinfo
	var cur srcinfo
	for _, e := range strings.Split(m, ";") {
		f := strings.Split(e, ":")
		if len(f) > 0 && f[0] != "" {
			cur.s, _ = strconv.Atoi(f[0])
		}
		if len(f) > 1 && f[1] != "" {
			cur.l, _ = strconv.Atoi(f[1])
		}
		if len(f) > 2 && f[2] != "" {
			cur.f, _ = strconv.Atoi(f[2])
		}
		if len(f) > 3 && f[3] != "" {
			cur.j = f[3][0]
		}
		out = append(out, cur)
	}
	return out
}

func vgSourcemap(r *vc.Rand) string {
	n := r.Intn(12)
	es := make([]string, n)
	for i := range es {
		var f []string
		for k := r.Intn(6); k > 0; k-- {
			s := ""
			if r.P(60) {
				switch len(f) {
				case 2:
					s = strconv.Itoa(r.Intn(4) - 1)
				case 3:
					s = r.Pick("i", "o", "-")
				default:
					s = strconv.Itoa(r.Intn(30) - r.Intn(2))
				}
			}
			f = append(f, s)
		}
		es[i] = strings.Join(f, ":")
	}
	return strings.Join(es, ";")
}

func vgCode(r *vc.Rand) []byte {
	var c []byte
	for i := r.Intn(24); i > 0; i-- {
		if r.Bool() {
			op := 0x60 + byte(r.Intn(32))
			c = append(append(c, op), r.Bytes(int(op)-0x5f)...)
		} else {
			c = append(c, byte(r.Uint64()))
		}
	}
	if len(c) > 0 && r.P(30) {
		c = c[:r.Intn(len(c))]
	}
	return c
}

func VG_PC(r *vc.Rand) ([]byte, string) { return vgCode(r), vgSourcemap(r) }

//vc:property C24
//vc:gen VG_PC
func VB_PC(code []byte, m string) {
	c := &CompiledContract{Code: code, Sourcemap: m}
	code0 := vc.Snap(code)
	c.compilePos()
	c.compileSourcemap()
	vc.Ensures("each pc has the number of its instruction", func() bool { return vcEqualInts(c.pos, vcPC(code)) })
	vc.Ensures("omitted fields are inherited", func() bool {
		want := vcMap(m)
		if len(c.srcmap) != len(want) {
			return false
		}
		for i := range want {
			if c.srcmap[i] != want[i] {
				return false
			}
		}
		return true
	})
	vc.Ensures("code unchanged", func() bool { return vc.BytesEq(code, code0) && c.Sourcemap == m })
}

func VG_SourceOf(r *vc.Rand) ([]string, []byte, string, int) {
	src := make([]string, r.Intn(4))
	for i := range src {
		src[i] = r.Str(40)
	}
	code := vgCode(r)
	return src, code, vgSourcemap(r), r.Intn(len(code)+4) - 2
}

// VB_SourceOf: the text of a pc is the stretch its entry names; positions
// without one have no text.
//
//vc:property C24
//vc:gen VG_SourceOf
func VB_SourceOf(src []string, code []byte, m string, pc int) {
	b := &CompiledBundle{Sources: src}
	c := &CompiledContract{Code: code, Sourcemap: m}
	want := ""
	if pc >= 0 && pc < len(code) {
		n, es := vcPC(code)[pc], vcMap(m)
		if n < len(es) {
			e := es[n]
			if e.f >= 0 && e.f < len(src) && e.s >= 0 && e.l >= 0 && e.s+e.l <= len(src[e.f]) {
				want = src[e.f][e.s : e.s+e.l]
			}
		}
	}
	got := b.SourceOf(c, pc)
	again := b.SourceOf(c, pc)
	vc.Ensures("its own text", func() bool { return got == want && again == want })
}

func VG_Meta(r *vc.Rand) []byte {
	var b []byte
	for i := r.Intn(3); i >= 0; i-- {
		if r.P(30) {
			b = append(b, r.Data(80)...)
		}
		if r.P(80) {
			m := append([]byte{0xa1, 0x65, 'b', 'z', 'z', 'r', '0', 0x58, 0x20}, r.Bytes(32)...)
			m = append(m, 0, 0x29)
			if r.P(20) {
				m[r.Intn(len(m))] ^= 1 << uint(r.Intn(8))
			}
			b = append(b, m...)
		}
	}
	if len(b) > 0 && r.P(15) {
		b = b[:r.Intn(len(b))]
	}
	if len(b) > 0 && r.P(15) {
		b = b[r.Intn(len(b)):]
	}
	return b
}

// VB_Meta: exactly a trailing metadata section is metadata.
//
//vc:property C24
//vc:gen VG_Meta
func VB_Meta(b []byte) {
	has := len(b) >= 43 && string(b[len(b)-43:len(b)-34]) == "\xa1\x65bzzr0\x58\x20" && b[len(b)-2] == 0 && b[len(b)-1] == 0x29
	b0 := vc.Snap(b)
	h := MetadataHash(b)
	s := StripBytecode(b)
	vc.Ensures("the hash in a trailing section", func() bool {
		if !has {
			return h == nil
		}
		return vc.BytesEq(h, b[len(b)-34:len(b)-2])
	})
	vc.Ensures("the code before it", func() bool {
		if !has {
			return vc.BytesEq(s, b)
		}
		return vc.BytesEq(s, b[:len(b)-43])
	})
	vc.Ensures("code unchanged", func() bool { return vc.BytesEq(b, b0) })
}

// ---- C25: the compilation cache

func vgSources(r *vc.Rand) []Source {
	out := make([]Source, r.Intn(4))
	seen := map[string]bool{}
	for i := range out {
		for {
			out[i].Filename = r.Pick("a", "b", "ab", "a.sol", "", "0", "1:a", "2:ab", "1:", r.Str(12))
			if !seen[out[i].Filename] {
				break
			}
		}
		seen[out[i].Filename] = true
		out[i].Body = r.Pick("", "x", "y", "xy", "1:x", "0:", "0:1:x", r.Str(200), string(r.Data(300)))
	}
	return out
}

// VG_SourcePair: sets that are likely to be confused
func VG_SourcePair(r *vc.Rand) ([]Source, []Source, int) {
	x := vgSources(r)
	if r.P(20) {
		return x, vgSources(r), r.Intn(1000)
	}
	y := append([]Source(nil), x...)
	n := len(y)
	switch r.Intn(7) {
	case 0: // shift between neighbours' bodies
		if n > 1 {
			i := r.Intn(n - 1)
			t := y[i].Body + y[i+1].Body
			k := r.Intn(len(t) + 1)
			y[i].Body, y[i+1].Body = t[:k], t[k:]
		}
	case 1: // and names
		if n > 1 {
			i := r.Intn(n - 1)
			t := y[i].Filename + y[i+1].Filename
			k := r.Intn(len(t) + 1)
			y[i].Filename, y[i+1].Filename = t[:k], t[k:]
		}
	case 2: // swap bodies
		if n > 1 {
			i, k := r.Intn(n), r.Intn(n)
			y[i].Body, y[k].Body = y[k].Body, y[i].Body
		}
	case 3: // one more, or less
		if r.Bool() && n > 0 {
			y = y[:n-1]
		} else {
			y = append(y, Source{r.Pick("", "z", "zz"), r.Pick("", "x")})
		}
	case 4: // between a name and a body
		if n > 0 && y[n-1].Body != "" {
			y[n-1].Filename += y[n-1].Body[:1]
			y[n-1].Body = y[n-1].Body[1:]
		}
	case 5:
		if n > 0 {
			i := r.Intn(n)
			b := []byte(y[i].Body)
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			}
			y[i].Body = string(b)
		}
	}
	return x, y, r.Intn(1000)
}

func vcSourceSet(s []Source) (map[string]string, bool) {
	m := map[string]string{}
	for i := range s {
		if _, ok := m[s[i].Filename]; ok {
			return nil, false
		}
		m[s[i].Filename] = s[i].Body
	}
	return m, true
}

// VB_CacheName: two sets share an entry exactly when they are the same set,
// in whatever order (of file names only the first is used once).
//
//vc:property C25
//vc:gen VG_SourcePair
func VB_CacheName(x, y []Source, seed int) {
	mx, okx := vcSourceSet(x)
	my, oky := vcSourceSet(y)
	vc.Assume(okx && oky)
	p := append([]Source(nil), x...)
	for i := range p {
		k := (seed + i*7) % len(p)
		p[i], p[k] = p[k], p[i]
	}
	nx, ny, np := cachename(append([]Source(nil), x...)), cachename(y), cachename(p)
	vc.Ensures("the order does not matter", func() bool { return nx == np })
	vc.Ensures("the same entry exactly for the same set", func() bool { return (nx == ny) == reflect.DeepEqual(mx, my) })
	pm, _ := vcSourceSet(p)
	vc.Ensures("the set is kept", func() bool { return len(p) == len(x) && reflect.DeepEqual(pm, mx) })
}

func VG_CacheNames(r *vc.Rand) (string, int, bool) {
	n := 2 + r.Intn(60)
	if r.P(2) {
		n = 20000
	}
	return r.Str(20), n, r.Bool()
}

// VB_CacheNames: the versions of a file (and files of many names) have
// entries of their own.
//
//vc:property C25
//vc:gen VG_CacheNames
func VB_CacheNames(base string, n int, names bool) {
	vc.Assume(n <= 20000)
	seen := make(map[string]bool, n)
	for i := 0; i < n; i++ {
		s := []Source{{Filename: base, Body: base}}
		if names {
			s[0].Filename += strconv.Itoa(i)
		} else {
			s[0].Body += strconv.Itoa(i)
		}
		seen[cachename(s)] = true
	}
	vc.Ensures("entries of their own", func() bool { return len(seen) == n })
}

// in a scratch directory, with relative names only
func vcScratch(f func(dir string)) {
	dir, err := ioutil.TempDir("", "vc-compile")
	if err != nil {
		panic(err)
	}
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	tmp, path := os.Getenv("TMPDIR"), os.Getenv("PATH")
	os.Setenv("TMPDIR", "tmp-d")
	os.Mkdir("tmp-d", 0777)
	defer func() {
		os.Setenv("TMPDIR", tmp)
		os.Setenv("PATH", path)
		os.Chdir(wd)
		if strings.Contains(dir, "vc-compile") {
			os.RemoveAll(dir)
		}
	}()
	f(dir)
}

func VG_Cache(r *vc.Rand) (*CompiledBundle, []string) {
	b := VG_Bundle(r)
	var other []string
	for i := r.Intn(6); i > 0; i-- {
		other = append(other, r.Pick("a-b.bundle", "a-c.bundle", "aa-b.bundle", "a", "x", "a-", "ab.bundle", "b-a.bundle", "d/a-b"))
	}
	return b, other
}

// VB_Cache: what is stored under a name is read back; a missing entry
// disturbs no file but those of other contents with the same names.
//
//vc:property C25 C26
//vc:gen VG_Cache
func VB_Cache(b *CompiledBundle, other []string) {
	vcScratch(func(dir string) {
		name := filepath.Join("tmp-d", "tevm", "a-b.bundle")
		os.MkdirAll(filepath.Join("tmp-d", "tevm", "d"), 0777)
		ioutil.WriteFile("tmp-x", []byte("x"), 0666)
		ioutil.WriteFile(filepath.Join("tmp-d", "y"), []byte("x"), 0666)
		for _, o := range other {
			if o != "a-b.bundle" {
				ioutil.WriteFile(filepath.Join("tmp-d", "tevm", o), []byte("x"), 0666)
			}
		}
		got, ok := cachedBundle(name)
		vc.Ensures("nothing stored", func() bool { return !ok && got == nil })
		files := []string{"../y", "../../tmp-x"}
		for _, o := range other {
			if !strings.HasPrefix(o, "a-") {
				files = append(files, o)
			}
		}
		vc.Ensures("other files are left alone", func() bool {
			for _, o := range files {
				c, err := ioutil.ReadFile(filepath.Join("tmp-d", "tevm", o))
				if err != nil || string(c) != "x" {
					return false
				}
			}
			return true
		})
		writeCache(name, b)
		got, ok = cachedBundle(name)
		vc.Ensures("the bundle stored", func() bool { return ok && vcMsgEq(reflect.ValueOf(got), reflect.ValueOf(b)) })
	})
}

type vcBuild struct {
	Sources []Source
	Perm    int
	Code    [][]byte
	Warn    bool
	Err     bool
}

func VG_Build(r *vc.Rand) (*vcBuild, *vcBuild) {
	x, y, _ := VG_SourcePair(r)
	mk := func(s []Source) *vcBuild {
		b := &vcBuild{Sources: s, Perm: r.Intn(100), Warn: r.P(20), Err: r.P(5)}
		for range s {
			if r.P(20) {
				b.Code = append(b.Code, nil)
			} else {
				b.Code = append(b.Code, r.Bytes(1+r.Intn(40)))
			}
		}
		return b
	}
	return mk(x), mk(y)
}

func vcSolc(b *vcBuild) {
	type m = map[string]interface{}
	srcs, cons := m{}, m{}
	var names []string
	for _, s := range b.Sources {
		names = append(names, s.Filename)
	}
	for i := range names { // sorted, as the compiler numbers them
		for k := i; k > 0 && names[k] < names[k-1]; k-- {
			names[k], names[k-1] = names[k-1], names[k]
		}
	}
	for i, n := range names {
		srcs[n] = m{"id": i}
		for k, s := range b.Sources {
			if s.Filename == n && b.Code[k] != nil {
				cons[n] = m{"C" + strconv.Itoa(k): m{"abi": []m{}, "evm": m{"bytecode": m{"object": hex.EncodeToString(b.Code[k]), "sourceMap": "0:0:" + strconv.Itoa(i)}}}}
			}
		}
	}
	out := m{"sources": srcs, "contracts": cons}
	var errs []m
	if b.Warn {
		errs = append(errs, m{"type": "Warning", "formattedMessage": "careful"})
	}
	if b.Err {
		errs = append(errs, m{"type": "Error", "formattedMessage": "wrong"})
	}
	out["errors"] = errs
	j, _ := json.Marshal(out)
	ioutil.WriteFile("out.json", j, 0666)
	os.Remove("in.json")
}

func vcUTF8(s []Source) bool {
	for i := range s {
		if strings.ToValidUTF8(s[i].Filename, "") != s[i].Filename || strings.ToValidUTF8(s[i].Body, "") != s[i].Body {
			return false
		}
	}
	return true
}

// VB_Compile: a set is compiled once, with the sources given, and each set
// gets its own bundle afterwards.
//
//vc:property C25 C24
//vc:gen VG_Build
func VB_Compile(x, y *vcBuild) {
	mx, okx := vcSourceSet(x.Sources)
	my, oky := vcSourceSet(y.Sources)
	vc.Assume(okx && oky && vcUTF8(x.Sources) && vcUTF8(y.Sources))
	same := reflect.DeepEqual(mx, my)
	vcScratch(func(dir string) {
		bin := filepath.Join(dir, "bin")
		os.Mkdir(bin, 0777)
		ioutil.WriteFile(filepath.Join(bin, "solc"), []byte("#!/bin/sh\n/bin/cat >in.json\n/bin/cat out.json\n"), 0777)
		os.Setenv("PATH", bin)
		one := func(b *vcBuild, m map[string]string) (*CompiledBundle, bool) {
			vcSolc(b)
			got, err := Compile(append([]Source(nil), b.Sources...))
			in, e := ioutil.ReadFile("in.json")
			ran := e == nil
			if ran {
				var req sourceblob
				json.Unmarshal(in, &req)
				vc.Ensures("compiled from the sources given", func() bool {
					if len(req.Sources) != len(m) {
						return false
					}
					for f, s := range m {
						if g, ok := req.Sources[f]; !ok || g.Content != s {
							return false
						}
					}
					return true
				})
				vc.Ensures("errors are reported", func() bool { return (err != nil) == b.Err })
			}
			return got, ran
		}
		bx, ranx := one(x, mx)
		vc.Ensures("compiled when new", func() bool { return ranx })
		if x.Err {
			return
		}
		vcBundleOf(bx, x)
		by, rany := one(y, my)
		vc.Ensures("another set is compiled, the same is not", func() bool { return rany == !same })
		if same {
			vc.Ensures("the stored bundle", func() bool { return vcMsgEq(reflect.ValueOf(bx), reflect.ValueOf(by)) })
		} else if !y.Err {
			vcBundleOf(by, y)
		}
	})
}

func vcBundleOf(b *CompiledBundle, x *vcBuild) {
	n := 0
	vc.Ensures("a bundle", func() bool {
		return b != nil && len(b.Filenames) == len(x.Sources) && len(b.Sources) == len(x.Sources) && (len(b.Warnings) > 0) == x.Warn
	})
	for k, s := range x.Sources {
		id := -1
		for i, f := range b.Filenames {
			if f == s.Filename {
				id = i
			}
		}
		vc.Ensures("each file under its number, with its text", func() bool { return id >= 0 && b.Sources[id] == s.Body })
		if x.Code[k] == nil {
			continue
		}
		n++
		c := b.Contract("C" + strconv.Itoa(k))
		vc.Ensures("each contract with its code", func() bool { return c != nil && vc.BytesEq(c.Code, x.Code[k]) })
		c.Sourcemap = "0:" + strconv.Itoa(len(s.Body)) + c.Sourcemap[3:]
		c.srcmap = nil
		vc.Ensures("its source is found", func() bool { return b.SourceOf(c, 0) == s.Body })
		c.Sourcemap = "0:0" + c.Sourcemap[strings.LastIndex(c.Sourcemap, ":"):]
		c.srcmap, c.pos = nil, nil
	}
	vc.Ensures("and no others", func() bool { return len(b.Contracts) == n })
}

// ---- C26: binary serialisation

type vcMsg interface {
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Encodable
	msgp.Decodable
}

var vcMsgTypes = []vcMsg{
	new(Block), new(Transaction), new(Receipt), new(Log), new(TokenTransfer), new(CompiledContract), new(CompiledBundle),
	new(ABIDescriptor), new(ABIParam), new(Address), new(Hash), new(Data), new(Uint64), new(Int), new(Source),
}

var vcIntT = reflect.TypeOf(Int{})

// vcAbs makes the quantities in v non-negative
func vcAbs(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			vcAbs(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len() && v.Type().Elem().Kind() != reflect.Uint8; i++ {
			vcAbs(v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == vcIntT {
			i := v.Addr().Interface().(*Int)
			i.Big().Abs(i.Big())
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				vcAbs(v.Field(i))
			}
		}
	}
}

// vcMsgEq: equal but for unexported fields, and nil slices are empty ones
func vcMsgEq(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return vcMsgEq(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !vcMsgEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if a.Type() == vcIntT {
			x, y := a.Interface().(Int), b.Interface().(Int)
			return x.Cmp(&y) == 0
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath == "" && !vcMsgEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

func vgMsg(r *vc.Rand, t reflect.Type) vcMsg {
	v := reflect.New(t.Elem())
	if !r.P(5) {
		v.Elem().Set(r.Value(t.Elem(), 1))
	}
	vcAbs(v)
	return v.Interface().(vcMsg)
}

func VG_Msg(r *vc.Rand) (vcMsg, vcMsg, []byte, []byte) {
	t := reflect.TypeOf(vcMsgTypes[r.Case()%len(vcMsgTypes)])
	return vgMsg(r, t), vgMsg(r, t), r.Data(20), r.Data(20)
}

func VG_Bundle(r *vc.Rand) *CompiledBundle {
	return vgMsg(r, reflect.TypeOf((*CompiledBundle)(nil))).(*CompiledBundle)
}

// VB_Msg: v written and read back, into a new value and into the used one
//
//vc:property C26
//vc:gen VG_Msg
func VB_Msg(v, used vcMsg, head, tail []byte) {
	t := reflect.TypeOf(v)
	isnil := v == nil
	vc.Assume(!isnil)
	enc, err := v.MarshalMsg(nil)
	vc.Ensures("written", func() bool { return err == nil && len(enc) > 0 })
	enc2, err2 := v.MarshalMsg(append([]byte(nil), head...))
	vc.Ensures("written behind what is there", func() bool {
		return err2 == nil && len(enc2) == len(head)+len(enc) && vc.BytesEq(enc2[:len(head)], head) && vc.BytesEq(enc2[len(head):], enc)
	})
	var buf bytes.Buffer
	w := msgp.NewWriter(&buf)
	err = v.EncodeMsg(w)
	if err == nil {
		err = w.Flush()
	}
	vc.Ensures("both interfaces write the same", func() bool { return err == nil && vc.BytesEq(buf.Bytes(), enc) })

	in := append(append([]byte(nil), enc...), tail...)
	for _, d := range []vcMsg{reflect.New(t.Elem()).Interface().(vcMsg), used} {
		rest, err := d.UnmarshalMsg(in)
		vc.Ensures("read back from the buffer", func() bool { return err == nil && vcMsgEq(reflect.ValueOf(d), reflect.ValueOf(v)) })
		vc.Ensures("exactly what was written", func() bool { return vc.BytesEq(rest, tail) })
	}
	vc.Ensures("input unchanged", func() bool { return vc.BytesEq(in[:len(enc)], enc) && vc.BytesEq(in[len(enc):], tail) })

	rd := msgp.NewReader(bytes.NewReader(append(append(append([]byte(nil), enc...), enc...), tail...)))
	for _, d := range []vcMsg{reflect.New(t.Elem()).Interface().(vcMsg), used} {
		err := d.DecodeMsg(rd)
		vc.Ensures("read back from the stream", func() bool { return err == nil && vcMsgEq(reflect.ValueOf(d), reflect.ValueOf(v)) })
	}
	rest, err := ioutil.ReadAll(rd)
	vc.Ensures("exactly what was written to the stream", func() bool { return err == nil && vc.BytesEq(rest, tail) })
	// the values read do not share memory with the input
	d := reflect.New(t.Elem()).Interface().(vcMsg)
	d.UnmarshalMsg(in)
	for i := range in {
		in[i] ^= 0xff
	}
	vc.Ensures("independent of the input", func() bool { return vcMsgEq(reflect.ValueOf(d), reflect.ValueOf(v)) })
}
