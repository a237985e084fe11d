package seth

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"strings"

	"github.com/philhofer/seth/internal/vc"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"
)

// C12: key files

func vcHashFn(name string) func() hash.Hash {
	switch strings.ToLower(name) {
	case "hmac-sha512":
		return sha512.New
	case "hmac-sha384":
		return sha512.New384
	case "hmac-sha256":
		return sha256.New
	case "hmac-sha224":
		return sha256.New224
	case "hmac-sha1":
		return sha1.New
	}
	return nil
}

type vcKDF struct {
	Dklen, C, N, R, P int
	Prf, Salt         string
}

// vcUnlock is what unlocking k with pass must give: the key when ok.
// Derived keys of other than 32 bytes may be refused.
func vcUnlock(k *Keyfile, pass []byte) (key []byte, ok, may bool) {
	defer func() {
		if recover() != nil {
			key, ok, may = nil, false, false
		}
	}()
	var d vcKDF
	if json.Unmarshal(k.Crypto.KDFParams, &d) != nil {
		return nil, false, false
	}
	salt, err := hex.DecodeString(d.Salt)
	if err != nil || d.Dklen < 16 || d.Dklen > 1000 {
		return nil, false, false
	}
	var dk []byte
	switch strings.ToLower(k.Crypto.KDF) {
	case "pbkdf2":
		h := vcHashFn(d.Prf)
		if h == nil {
			return nil, false, false
		}
		dk = pbkdf2.Key(pass, salt, d.C, d.Dklen, h)
	case "scrypt":
		if d.N > 1<<20 || d.R > 100 || d.P > 100 {
			return nil, false, false
		}
		if dk, err = scrypt.Key(pass, salt, d.N, d.R, d.P, d.Dklen); err != nil {
			return nil, false, false
		}
	default:
		return nil, false, false
	}
	ct, err := hex.DecodeString(k.Crypto.Ciphertext)
	if err != nil || len(ct) != 32 {
		return nil, false, false
	}
	mac, err := hex.DecodeString(k.Crypto.MAC)
	if err != nil {
		return nil, false, false
	}
	sum := vc.Keccak(append(append([]byte(nil), dk[len(dk)-16:]...), ct...))
	if string(mac) != string(sum[:]) || strings.ToLower(k.Crypto.Cipher) != "aes-128-ctr" {
		return nil, false, false
	}
	var c struct{ IV string }
	if json.Unmarshal(k.Crypto.CipherParams, &c) != nil {
		return nil, false, false
	}
	iv, err := hex.DecodeString(c.IV)
	if err != nil || len(iv) != 16 {
		return nil, false, false
	}
	b, _ := aes.NewCipher(dk[:16])
	key = make([]byte, 32)
	cipher.NewCTR(b, iv).XORKeyStream(key, ct)
	if k.Address != "" {
		want, err := hex.DecodeString(k.Address)
		x, y := vc.SecpBase(vc.BE(key))
		if err != nil || vc.SecpInf(x, y) {
			return nil, false, false
		}
		var xy [64]byte
		copy(xy[32-len(x.Bytes()):], x.Bytes())
		copy(xy[64-len(y.Bytes()):], y.Bytes())
		h := vc.Keccak(xy[:])
		if string(h[12:]) != string(want) {
			return nil, false, false
		}
	}
	return key, true, d.Dklen != 32
}

type vcKeyfile struct {
	ID, Name, Cipher, CipherParams, Ciphertext, KDF, KDFParams, MAC, Address string
	Pass                                                                     []byte
}

func VG_Keyfile(r *vc.Rand) *vcKeyfile {
	f := &vcKeyfile{Cipher: "aes-128-ctr", KDF: r.Pick("scrypt", "pbkdf2", "pbkdf2", "PBKDF2"), Pass: r.Data(20)}
	if r.P(4) {
		f.KDF = r.Pick("", "none", "Scrypt", "bcrypt")
	}
	if r.P(3) {
		f.Cipher = r.Pick("", "AES-128-CTR", "aes-256-ctr", "aes-128-cbc")
	}
	d := vcKDF{Dklen: 32, C: 1 + r.Intn(3), N: 2 << uint(r.Intn(3)), R: 1 + r.Intn(2), P: 1 + r.Intn(2), Prf: r.Pick("hmac-sha256", "hmac-sha512", "hmac-sha384", "hmac-sha224", "hmac-sha1", "HMAC-SHA256")}
	salt := r.Bytes(r.Intn(40))
	pass := f.Pass
	pick := func(xs ...int) int { return xs[r.Intn(len(xs))] }
	if r.P(25) {
		switch r.Intn(6) {
		case 0, 1:
			d.Dklen = pick(-1, 0, 1, 8, 15, 16, 17, 31, 33, 48, 64, 1<<62, -1<<62, 1<<40)
		case 2:
			d.N = pick(0, -2, 1, 3, 1<<50, 1<<62, -1<<63)
		case 3:
			d.R = pick(0, -1, 1<<40, 1<<62, -1<<63)
		case 4:
			d.P = pick(0, -1, 1<<40, 1<<62, -1<<63)
		case 5:
			d.C = pick(0, -1, -1<<63)
		}
	}
	if r.P(3) {
		d.Prf = r.Pick("", "sha256", "hmac-md5")
	}
	params := map[string]interface{}{"dklen": d.Dklen, "salt": hex.EncodeToString(salt)}
	if strings.ToLower(f.KDF) == "scrypt" {
		params["n"], params["r"], params["p"] = d.N, d.R, d.P
	} else {
		params["c"], params["prf"] = d.C, d.Prf
	}
	if r.P(5) {
		delete(params, r.Pick("dklen", "salt", "n", "r", "p", "c", "prf"))
	}
	if r.P(3) {
		params["salt"] = r.Pick("zz", "0", "0x00")
	}
	js, _ := json.Marshal(params)
	f.KDFParams = string(js)
	if r.P(3) {
		f.KDFParams = r.Pick("", "null", "[]", "{", "{}", `{"dklen":"32"}`)
	}
	dk := make([]byte, 32)
	if d.Dklen >= 16 && d.Dklen < 100 {
		func() {
			defer func() { recover() }()
			if strings.ToLower(f.KDF) == "scrypt" && d.N < 100 && d.R < 100 && d.P < 100 {
				dk, _ = scrypt.Key(pass, salt, d.N, d.R, d.P, d.Dklen)
			} else if h := vcHashFn(d.Prf); h != nil {
				dk = pbkdf2.Key(pass, salt, d.C, d.Dklen, h)
			}
		}()
	}
	if len(dk) < 16 {
		dk = make([]byte, 32)
	}
	key := r.Bytes(32)
	if r.P(10) {
		key = make([]byte, 32)
		key[31] = byte(r.Intn(2))
	}
	if r.P(10) {
		key = r.Bytes(pick(0, 1, 16, 31, 33, 64))
	}
	iv := r.Bytes(16)
	if r.P(8) {
		iv = r.Bytes(pick(0, 1, 8, 15, 17, 32))
	}
	ct := make([]byte, len(key))
	b, _ := aes.NewCipher(dk[:16])
	var block [16]byte
	copy(block[:], iv)
	cipher.NewCTR(b, block[:]).XORKeyStream(ct, key)
	f.Ciphertext = hex.EncodeToString(ct)
	f.CipherParams = fmt.Sprintf(`{"iv":"%x"}`, iv)
	if r.P(4) {
		f.CipherParams = r.Pick("", "null", "{}", `{"iv":"0"}`, `{"iv":"xx"}`, `{"iv":7}`)
	}
	sum := vc.Keccak(append(append([]byte(nil), dk[len(dk)-16:]...), ct...))
	mac := sum[:]
	switch {
	case r.P(6):
		mac[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	case r.P(6):
		mac = mac[:r.Intn(32)]
	case r.P(3):
		mac = append(mac, byte(r.Uint64()))
	}
	f.MAC = hex.EncodeToString(mac)
	if r.P(3) {
		f.MAC = r.Pick("", "0", "zz", "0x"+f.MAC)
	}
	if r.P(4) {
		f.Ciphertext = r.Pick("", "0", "zz", f.Ciphertext+"00", "0x"+f.Ciphertext)
	}
	if r.P(5) && len(f.Pass) > 0 {
		f.Pass = append([]byte(nil), f.Pass...)
		f.Pass[r.Intn(len(f.Pass))] ^= 1
	}
	switch r.Intn(4) {
	case 0:
		var k PrivateKey
		copy(k[:], key)
		if vcKeyOK(k[:]) {
			f.Address = hex.EncodeToString(k.Address()[:])
		}
		if r.P(15) && len(f.Address) > 4 {
			f.Address = f.Address[:2*r.Intn(20)]
		}
	case 1:
		if r.P(40) {
			f.Address = hex.EncodeToString(r.Bytes(20))
		} else if r.P(10) {
			f.Address = r.Pick("xx", "0", "00")
		}
	}
	return f
}

//vc:property C12
//vc:gen VG_Keyfile
//vc:exectime 15
func VB_Keyfile(f *vcKeyfile) {
	k := &Keyfile{Version: 3, Address: f.Address}
	k.Crypto.Cipher, k.Crypto.Ciphertext, k.Crypto.KDF, k.Crypto.MAC = f.Cipher, f.Ciphertext, f.KDF, f.MAC
	k.Crypto.CipherParams, k.Crypto.KDFParams = json.RawMessage(f.CipherParams), json.RawMessage(f.KDFParams)
	key, ok, may := vcUnlock(k, f.Pass)
	pass := vc.Snap(f.Pass)
	p, err := k.Private(f.Pass)
	vc.Ensures("a key or an error", func() bool { return (p == nil) == (err != nil) })
	vc.Ensures("a key only when authenticated", func() bool { return err != nil || ok })
	vc.Ensures("the key when authenticated", func() bool { return !ok || may && err != nil || p != nil && vc.BytesEq(p[:], key) })
	vc.Ensures("passphrase unchanged", func() bool { return vc.BytesEq(f.Pass, pass) })
	p2, err2 := k.Private(f.Pass)
	vc.Ensures("unlocks again", func() bool { return (err2 == nil) == (err == nil) && (p == nil || *p == *p2) })
}

func VG_ToKeyfile(r *vc.Rand) (*PrivateKey, string, []byte, int) {
	k := new(PrivateKey)
	copy(k[:], r.Bytes(32))
	return k, r.Str(12), r.Data(30), r.Intn(3)
}

// VB_ToKeyfile: scrypt with the library's parameters takes most of a second.
//
//vc:property C12
//vc:gen VG_ToKeyfile
//vc:exectime 10
func VB_ToKeyfile(k *PrivateKey, name string, pass []byte, how int) {
	k0 := *k
	f := k.ToKeyfile(name, pass)
	vc.Ensures("the name", func() bool { return f.Name == name && f.Version == 3 })
	vc.Ensures("no address", func() bool { return f.Address == "" })
	if how == 0 {
		key, ok, _ := vcUnlock(f, pass)
		vc.Ensures("a key file by the definition", func() bool { return ok && vc.BytesEq(key, k0[:]) })
		return
	}
	js, err := json.Marshal(f)
	vc.Ensures("has a JSON form", func() bool { return err == nil })
	g := new(Keyfile)
	err = json.Unmarshal(js, g)
	vc.Ensures("is read back", func() bool { return err == nil })
	if how == 1 {
		p, err := g.Private(pass)
		vc.Ensures("unlocks to the key", func() bool { return err == nil && *p == k0 })
		return
	}
	p, err := g.Private(append(append([]byte(nil), pass...), 'x'))
	vc.Ensures("not with another passphrase", func() bool { return err != nil && p == nil })
}
