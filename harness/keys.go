package main

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"
)

func init() { drivers["keys"] = driveKeys }

var (
	kOrder, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	kHalf     = new(big.Int).Rsh(kOrder, 1)
)

// a key file, as other programs write it
type kFile struct {
	ID      string `json:"id"`
	Version int    `json:"version"`
	Crypto  struct {
		Cipher       string                 `json:"cipher"`
		CipherParams map[string]string      `json:"cipherparams"`
		Ciphertext   string                 `json:"ciphertext"`
		KDF          string                 `json:"kdf"`
		KDFParams    map[string]interface{} `json:"kdfparams"`
		MAC          string                 `json:"mac"`
	} `json:"crypto"`
	Address string `json:"address,omitempty"`
	Name    string `json:"name"`
}

func (f *kFile) clone() *kFile {
	b, _ := json.Marshal(f)
	g := new(kFile)
	json.Unmarshal(b, g)
	return g
}

// what the file says
func (f *kFile) fields() M {
	p := f.Crypto.KDFParams
	str := func(k string) string {
		if s, ok := p[k].(string); ok {
			return strings.ToLower(s)
		}
		return fmt.Sprintf("bad:%v", p[k])
	}
	kdf := strings.ToLower(f.Crypto.KDF)
	params := ""
	switch kdf {
	case "scrypt":
		params = fmt.Sprintf("n=%v r=%v p=%v dklen=%v salt=%s", p["n"], p["r"], p["p"], p["dklen"], str("salt"))
	case "pbkdf2":
		params = fmt.Sprintf("c=%v dklen=%v prf=%s salt=%s", p["c"], p["dklen"], str("prf"), str("salt"))
	}
	// an address is written without a prefix
	addr := strings.ToLower(f.Address)
	if addr != "" {
		addr = "0x" + addr
	}
	return M{"kdf": kdf, "params": params, "cipher": strings.ToLower(f.Crypto.Cipher), "iv": strings.ToLower(f.Crypto.CipherParams["iv"]),
		"ct": strings.ToLower(f.Crypto.Ciphertext), "mac": strings.ToLower(f.Crypto.MAC), "addr": addr}
}

var kPRFs = map[string]func() hash.Hash{"hmac-sha256": sha256.New, "hmac-sha224": sha256.New224, "hmac-sha512": sha512.New,
	"hmac-sha384": sha512.New384, "hmac-sha1": sha1.New}

func (f *kFile) derive(pass []byte) ([]byte, bool) {
	p := f.Crypto.KDFParams
	num := func(k string) int {
		n, _ := p[k].(float64)
		return int(n)
	}
	s, _ := p["salt"].(string)
	salt, err := hex.DecodeString(s)
	if err != nil || num("dklen") < 32 {
		return nil, false
	}
	switch strings.ToLower(f.Crypto.KDF) {
	case "scrypt":
		if num("r") <= 0 || num("p") <= 0 {
			return nil, false
		}
		b, err := scrypt.Key(pass, salt, num("n"), num("r"), num("p"), num("dklen"))
		return b, err == nil
	case "pbkdf2":
		prf, _ := p["prf"].(string)
		h := kPRFs[strings.ToLower(prf)]
		if h == nil {
			return nil, false
		}
		return pbkdf2.Key(pass, salt, num("c"), num("dklen"), h), true
	}
	return nil, false
}

// open is another implementation of opening a key file
func (f *kFile) open(pass []byte) ([]byte, bool) {
	dk, ok := f.derive(pass)
	if !ok || strings.ToLower(f.Crypto.Cipher) != "aes-128-ctr" {
		return nil, false
	}
	ct, err := hex.DecodeString(f.Crypto.Ciphertext)
	mac, err2 := hex.DecodeString(f.Crypto.MAC)
	iv, err3 := hex.DecodeString(f.Crypto.CipherParams["iv"])
	if err != nil || err2 != nil || err3 != nil || len(iv) != 16 || len(ct) != 32 {
		return nil, false
	}
	if string(crypto.Keccak256(dk[len(dk)-16:], ct)) != string(mac) {
		return nil, false
	}
	b, _ := aes.NewCipher(dk[:16])
	cipher.NewCTR(b, iv).XORKeyStream(ct, ct)
	if f.Address != "" {
		if _, addr, ok := refKey(ct); !ok || addr[2:] != strings.ToLower(f.Address) {
			return nil, false
		}
	}
	return ct, true
}

// refKey gives the public key and address by go-ethereum
func refKey(k []byte) (pub, addr string, ok bool) {
	pk, err := crypto.ToECDSA(k)
	if err != nil {
		return "", "", false
	}
	return "0x" + hex.EncodeToString(crypto.FromECDSAPub(&pk.PublicKey)[1:]),
		strings.ToLower(crypto.PubkeyToAddress(pk.PublicKey).Hex()), true
}

type keyWorld struct {
	h     *Hist
	r     *rand.Rand
	keys  []*seth.PrivateKey
	files [3]*kFile
	pass  [3]string
	sigs  []seth.Signature
	hs    []seth.Hash
}

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

func (w *keyWorld) rnd(n int) []byte {
	b := make([]byte, n)
	w.r.Read(b)
	return b
}

func (w *keyWorld) hex(n int) string { return hex.EncodeToString(w.rnd(n)) }

func (w *keyWorld) meet(k *seth.PrivateKey) {
	pub, addr, ok := refKey(k[:])
	if !ok {
		panic("HARNESS BUG: bad key")
	}
	w.h.Emit(M{"op": "meet", "key": hx(k[:]), "pub": pub, "addr": addr})
	w.keys = append(w.keys, k)
}

// newKey makes a key that has a form of its own
func (w *keyWorld) newKey() *seth.PrivateKey {
	for {
		d := new(big.Int).SetBytes(w.rnd(32))
		switch w.r.Intn(8) {
		case 0:
			d.Rsh(d, uint(8*w.r.Intn(32)))
		case 1:
			d.Sub(kOrder, big.NewInt(int64(1+w.r.Intn(300))))
		case 2:
			d.SetInt64(int64(1 + w.r.Intn(300)))
		case 3:
			return seth.GenPrivateKey()
		case 4: // like another
			if len(w.keys) > 0 {
				k := *w.keys[w.r.Intn(len(w.keys))]
				k[w.r.Intn(32)] ^= byte(1 << w.r.Intn(8))
				d.SetBytes(k[:])
			}
		}
		if d.Sign() > 0 && d.Cmp(kOrder) < 0 {
			if w.r.Intn(2) == 0 {
				k := new(seth.PrivateKey)
				copy(k[:], pad32(d.Bytes()))
				return k
			}
			return seth.NewPrivateKey(d)
		}
	}
}

func (w *keyWorld) tell(k *seth.PrivateKey) {
	p := k.PublicKey()
	e := M{"op": "tell", "key": hx(k[:]), "pub": hx(p[:]), "addr": hx(p.Address()[:])}
	switch w.r.Intn(3) {
	case 0:
		e["addr"] = hx(k.Address()[:])
		x := k.ToECDSA()
		e["pub"] = hx(append(pad32(x.PublicKey.X.Bytes()), pad32(x.PublicKey.Y.Bytes())...))
		if x.D.Cmp(new(big.Int).SetBytes(k[:])) != 0 {
			e["pub"] = "wrong D"
		}
	case 1:
		x := p.ToECDSA()
		q := seth.NewPublicKey(x.X, x.Y)
		e["pub"], e["addr"] = q.String(), q.Address().String()
	}
	w.h.Emit(e)
}

func (w *keyWorld) setFile(i int, f *kFile, k *seth.PrivateKey, pass string) {
	w.files[i], w.pass[i] = f, pass
	w.h.Emit(M{"op": "make", "i": i + 1, "f": f.fields(), "key": hx(k[:]), "pass": hx([]byte(pass))})
}

// make writes a key file like other programs do
func (w *keyWorld) make(i int, kdf string, k *seth.PrivateKey, pass string, addr bool) {
	f := &kFile{ID: w.hex(16), Version: 3}
	f.Crypto.Cipher = "aes-128-ctr"
	f.Crypto.CipherParams = map[string]string{"iv": w.hex(16)}
	f.Crypto.KDF = kdf
	dklen := float64(32)
	if w.r.Intn(4) == 0 {
		dklen = float64(32 + w.r.Intn(40))
	}
	salt := w.hex([]int{32, 16, 1}[w.r.Intn(3)])
	if kdf == "scrypt" {
		f.Crypto.KDFParams = map[string]interface{}{"n": float64(int(2) << uint(w.r.Intn(6))), "r": float64(1 + w.r.Intn(8)),
			"p": float64(1 + w.r.Intn(3)), "dklen": dklen, "salt": salt}
	} else {
		prf := []string{"hmac-sha256", "hmac-sha256", "hmac-sha224", "hmac-sha512", "hmac-sha384", "hmac-sha1"}[w.r.Intn(6)]
		f.Crypto.KDFParams = map[string]interface{}{"c": float64(2 + w.r.Intn(20)), "prf": prf, "dklen": dklen, "salt": salt}
	}
	dk, ok := f.derive([]byte(pass))
	if !ok {
		panic("HARNESS BUG: derive")
	}
	iv, _ := hex.DecodeString(f.Crypto.CipherParams["iv"])
	b, _ := aes.NewCipher(dk[:16])
	ct := make([]byte, 32)
	cipher.NewCTR(b, iv).XORKeyStream(ct, k[:])
	f.Crypto.Ciphertext = hex.EncodeToString(ct)
	f.Crypto.MAC = hex.EncodeToString(crypto.Keccak256(dk[len(dk)-16:], ct))
	if addr {
		_, a, _ := refKey(k[:])
		f.Address = a[2:]
	}
	w.setFile(i, f, k, pass)
}

// export has the code write a key file
func (w *keyWorld) export(i int, k *seth.PrivateKey, pass string) {
	name := []string{"", "me", "a b\"c"}[w.r.Intn(3)]
	kf := k.ToKeyfile(name, []byte(pass))
	b, err := json.Marshal(kf)
	f := new(kFile)
	if err == nil {
		err = json.Unmarshal(b, f)
	}
	if err != nil {
		f.Version = -1
	}
	w.files[i], w.pass[i] = f, pass
	w.h.Emit(M{"op": "export", "i": i + 1, "f": f.fields(), "key": hx(k[:]), "pass": hx([]byte(pass)),
		"name": name, "gotname": f.Name, "id": f.ID, "version": f.Version})
}

func (w *keyWorld) change(i int, f *kFile) {
	w.files[i] = f
	w.h.Emit(M{"op": "change", "i": i + 1, "f": f.fields()})
}

func (w *keyWorld) open(i int, pass string, both bool) {
	b, _ := json.Marshal(w.files[i])
	kf := new(seth.Keyfile)
	err := json.Unmarshal(b, kf)
	e := M{"op": "open", "i": i + 1, "pass": hx([]byte(pass)), "st": "err", "key": ""}
	if err == nil {
		var k *seth.PrivateKey
		if k, err = kf.Private([]byte(pass)); err == nil {
			e["st"], e["key"] = "ok", hx(k[:])
			// again, from the same one
			if w.r.Intn(4) == 0 && both {
				k2, err := kf.Private([]byte(pass))
				if err != nil || *k2 != *k {
					e["st"] = "changed"
				}
			}
		}
	}
	w.h.Emit(e)
	if both { // the specification is about key files, not about this code
		e := M{"op": "open", "i": i + 1, "pass": hx([]byte(pass)), "st": "err", "key": ""}
		if k, ok := w.files[i].open([]byte(pass)); ok {
			e["st"], e["key"] = "ok", hx(k)
		}
		w.h.Emit(e)
	}
}

// damage changes one thing
func (w *keyWorld) damage(f *kFile) *kFile {
	g := f.clone()
	r := w.r
	flip := func(s string) string {
		b := []byte(s)
		if len(b) == 0 {
			return "00"
		}
		k := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			return string(b[:len(b)-2+len(b)%2])
		case 1:
			return s + "00"
		case 2:
			b[k] = 'g'
			return string(b)
		case 3:
			return s[1:]
		}
		c := "0123456789abcdef"[r.Intn(16)]
		for c == b[k] {
			c = "0123456789abcdef"[r.Intn(16)]
		}
		b[k] = c
		return string(b)
	}
	p := g.Crypto.KDFParams
	num := func(k string) {
		n, _ := p[k].(float64)
		switch r.Intn(5) {
		case 0:
			p[k] = n * 2
		case 1:
			p[k] = n + 1
		case 2:
			p[k] = -n
		case 3:
			if k != "c" {
				p[k] = float64(0)
			}
		case 4:
			delete(p, k)
		}
		if k == "dklen" && r.Intn(2) == 0 {
			p[k] = float64(r.Intn(32))
		}
		if k == "c" && p[k] == nil {
			p[k] = n + 2
		}
	}
	switch r.Intn(10) {
	case 0:
		g.Crypto.Ciphertext = flip(g.Crypto.Ciphertext)
	case 1:
		g.Crypto.MAC = flip(g.Crypto.MAC)
	case 2:
		g.Crypto.CipherParams["iv"] = flip(g.Crypto.CipherParams["iv"])
	case 3:
		s, _ := p["salt"].(string)
		p["salt"] = flip(s)
	case 4:
		num("dklen")
	case 5:
		if _, ok := p["n"]; ok {
			num([]string{"n", "r", "p"}[r.Intn(3)])
		} else {
			num("c")
		}
	case 6:
		if p["prf"] != nil {
			p["prf"] = []string{"hmac-sha256", "hmac-sha224", "hmac-sha512", "hmac-sha384", "hmac-sha1", "HMAC-SHA256", "md5", ""}[r.Intn(8)]
		}
	case 7:
		g.Crypto.KDF = []string{"scrypt", "pbkdf2", "SCRYPT", "argon2", ""}[r.Intn(5)]
	case 8:
		g.Crypto.Cipher = []string{"AES-128-CTR", "aes-128-cbc", "aes-256-ctr", "", "none"}[r.Intn(5)]
	case 9:
		switch r.Intn(5) {
		case 0:
			g.Address = w.hex(20)
		case 1:
			g.Address = "0x" + g.Address
		case 2:
			g.Address = strings.ToUpper(g.Address)
		case 3:
			if g.Address != "" {
				g.Address = flip(g.Address)
			}
		case 4:
			_, a, _ := refKey(w.keys[r.Intn(len(w.keys))][:])
			g.Address = a[2:]
		}
	}
	// none of this is worth waiting for
	if n, _ := p["n"].(float64); n > 1<<19 {
		return f
	}
	return g
}

var kPasses = []string{"", "a", "A", "passw\xc3\xb6rd", "aa", " a", "x y z 1234567890 1234567890 1234567890 1234567890"}

func (w *keyWorld) otherPass(p string) string {
	for {
		q := kPasses[w.r.Intn(len(kPasses))]
		if w.r.Intn(2) == 0 && p != "" {
			q = p[:len(p)-1]
		}
		if q != p {
			return q
		}
	}
}

func (w *keyWorld) hash() (h seth.Hash) {
	if len(w.hs) > 0 && w.r.Intn(2) == 0 { // like another, or the same
		h = w.hs[w.r.Intn(len(w.hs))]
		if w.r.Intn(4) > 0 {
			h[w.r.Intn(32)] ^= byte(1 << w.r.Intn(8))
		}
		return
	}
	switch w.r.Intn(8) {
	case 0:
		copy(h[:], pad32(new(big.Int).Sub(kOrder, big.NewInt(int64(w.r.Intn(2)))).Bytes()))
	case 1:
		h[31] = byte(w.r.Intn(3))
	case 2:
		for i := range h {
			h[i] = 0xff
		}
	default:
		w.r.Read(h[:])
	}
	return
}

// ref is the public key that a signature stands for, by go-ethereum
func refPub(s *seth.Signature, h *seth.Hash) string {
	if s[64] > 1 {
		return ""
	}
	b, err := crypto.Ecrecover(h[:], s[:])
	if err != nil {
		return ""
	}
	return "0x" + hex.EncodeToString(b[1:])
}

func (w *keyWorld) recover(s seth.Signature, h seth.Hash) {
	e := M{"op": "recover", "sig": ints(s[:]), "hash": hx(h[:]), "st": "ok", "pub": "", "ref": refPub(&s, &h)}
	s0 := s
	p, err := s.Recover(&h)
	if err != nil {
		e["st"] = "err"
	} else {
		e["pub"] = hx(p[:])
	}
	if s != s0 {
		e["st"] = "changed"
	}
	w.h.Emit(e)
}

func (w *keyWorld) sign(k *seth.PrivateKey) {
	h := w.hash()
	var s *seth.Signature
	k0, h0 := *k, h
	if w.r.Intn(2) == 0 {
		s = k.Sign(&h)
	} else {
		var err error
		if s, err = k.Signer()(&h); err != nil {
			s = new(seth.Signature)
		}
	}
	if k0 != *k || h0 != h {
		s = new(seth.Signature)
	}
	w.h.Emit(M{"op": "sign", "key": hx(k[:]), "hash": hx(h[:]), "sig": ints(s[:]), "ref": refPub(s, &h)})
	w.sigs = append(w.sigs, *s)
	w.hs = append(w.hs, h)
	w.recover(*s, h)
}

// bend changes a signature
func (w *keyWorld) bend(s seth.Signature) seth.Signature {
	r := w.r
	put := func(at int, n *big.Int) { copy(s[at:at+32], pad32(new(big.Int).And(n, big2256).Bytes())) }
	get := func(at int) *big.Int { return new(big.Int).SetBytes(s[at : at+32]) }
	at := 32 * r.Intn(2)
	switch r.Intn(11) {
	case 0:
		s[64] ^= 1
	case 1:
		s[64] = byte(2 + r.Intn(254))
	case 2:
		s[64] = 27 + s[64]
	case 3: // the other one of the two
		put(32, new(big.Int).Sub(kOrder, get(32)))
		s[64] ^= byte(r.Intn(2))
	case 4:
		put(at, new(big.Int))
	case 5:
		put(at, new(big.Int).Add(kOrder, big.NewInt(int64(r.Intn(3)-1))))
	case 6: // around the half
		put(32, new(big.Int).Add(kHalf, big.NewInt(int64(r.Intn(3)-1))))
	case 7:
		s[r.Intn(64)] ^= byte(1 << uint(r.Intn(8)))
	case 8:
		w.r.Read(s[:32])
	case 9:
		put(0, big.NewInt(int64(1+r.Intn(20))))
	case 10:
		put(at, big2256)
	}
	return s
}

var big2256 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func (w *keyWorld) sigStep() {
	r := w.r
	if len(w.sigs) == 0 || r.Intn(3) == 0 {
		w.sign(w.keys[r.Intn(len(w.keys))])
		return
	}
	i := r.Intn(len(w.sigs))
	s, h := w.sigs[i], w.hs[i]
	switch r.Intn(7) {
	case 0, 1, 2:
		t := w.bend(s)
		w.h.Emit(M{"op": "valid", "sig": ints(t[:]), "ok": t.Valid()})
		w.recover(t, h)
	case 3: // for another hash
		j := r.Intn(len(w.hs))
		if new(big.Int).Mod(new(big.Int).Sub(new(big.Int).SetBytes(h[:]), new(big.Int).SetBytes(w.hs[j][:])), kOrder).Sign() != 0 {
			w.recover(s, w.hs[j])
		}
	case 4: // by way of its numbers
		rr, ss, v := s.Parts()
		w.h.Emit(M{"op": "parts", "sig": ints(s[:]), "r": bigB(&rr), "s": bigB(&ss), "v": v})
		if r.Intn(2) == 0 {
			ss.Sub(kOrder, &ss)
			v ^= 1
		}
		r0, s0 := new(big.Int).Set(&rr), new(big.Int).Set(&ss)
		t := seth.NewSignature(&rr, &ss, v)
		if rr.Cmp(r0) != 0 || ss.Cmp(s0) != 0 {
			t = new(seth.Signature)
		}
		w.h.Emit(M{"op": "compose", "r": bigB(r0), "s": bigB(s0), "v": v, "out": ints(t[:])})
		w.recover(*t, h)
	case 5: // by way of its text
		t, err := seth.ParseSignature(s.String())
		if err != nil {
			t = new(seth.Signature)
		}
		w.recover(*t, h)
	case 6: // a signature that stands for no key: the sum is at infinity
		k := w.keys[r.Intn(len(w.keys))]
		x, err := crypto.ToECDSA(k[:])
		if err != nil {
			panic("HARNESS BUG: key")
		}
		e := new(big.Int).SetBytes(h[:])
		e.Mul(e, new(big.Int).ModInverse(x.D, kOrder))
		e.Mod(e, kOrder)
		if e.Sign() != 0 {
			t := seth.NewSignature(x.X, e, int(x.Y.Bit(0)))
			w.recover(*t, h)
		}
	}
}

func newKeyWorld(a *Args, n int) *keyWorld {
	w := &keyWorld{h: new(Hist), r: rand.New(rand.NewSource(a.Rng.Int63()))}
	w.h.Emit(M{"op": "reset"})
	for i := 0; i < n; i++ {
		k := w.newKey()
		for j := range w.keys {
			if *w.keys[j] == *k {
				k = seth.GenPrivateKey()
			}
		}
		w.meet(k)
		w.tell(k)
	}
	return w
}

// part puts a file together from two others
func (w *keyWorld) part(mix []int) *kFile {
	f := [4]*kFile{w.files[0].clone(), w.files[0].clone(), w.files[1].clone(), w.files[0].clone()}
	j := f[3]
	j.Crypto.KDF, j.Crypto.Cipher, j.Crypto.Ciphertext, j.Crypto.MAC, j.Address = "argon2", "aes-128-cbc", w.hex(32), w.hex(32), w.hex(20)
	j.Crypto.CipherParams["iv"] = w.hex(16)
	j.Crypto.KDFParams["salt"] = w.hex(32)
	g := new(kFile)
	g.ID, g.Version = "x", 3
	g.Crypto.KDF = f[mix[0]].Crypto.KDF
	g.Crypto.KDFParams = f[mix[1]].Crypto.KDFParams
	g.Crypto.CipherParams = f[mix[2]].Crypto.CipherParams
	g.Crypto.Ciphertext = f[mix[3]].Crypto.Ciphertext
	g.Crypto.MAC = f[mix[4]].Crypto.MAC
	if mix[5] > 0 {
		g.Address = f[mix[5]].Address
	}
	g.Crypto.Cipher = f[mix[6]].Crypto.Cipher
	return g
}

func driveKeys(t *Trace, a *Args) {
	type script struct {
		SameKDF  bool   `json:"samekdf"`
		SamePass bool   `json:"samepass"`
		Mix      []int  `json:"mix"`
		Pass     string `json:"pass"`
	}
	for s := 0; s < len(a.Scripts); s += 30 {
		w := newKeyWorld(a, 2)
		w.h.guard("keys", func() {
			var made *script
			for k := s; k < s+30 && k < len(a.Scripts); k++ {
				sc := new(script)
				json.Unmarshal(a.Scripts[k], sc)
				if made == nil || made.SameKDF != sc.SameKDF || made.SamePass != sc.SamePass {
					kdfs := []string{"scrypt", "pbkdf2"}
					x := w.r.Intn(2)
					y := 1 - x
					if sc.SameKDF {
						y = x
					}
					w.make(0, kdfs[x], w.keys[0], "p1", true)
					p := "p2"
					if sc.SamePass {
						p = "p1"
					}
					w.make(1, kdfs[y], w.keys[1], p, true)
					made = sc
				}
				w.change(2, w.part(sc.Mix))
				w.open(2, sc.Pass, false)
			}
		})
		t.Append(w.h)
	}
	for n := a.N; n > 0; n-- {
		w := newKeyWorld(a, 1+a.Rng.Intn(3))
		w.h.guard("keys", func() {
			// the code's own files take a second to make and to open
			slow := a.Profile != "" && n%100 == 1
			if slow {
				p := kPasses[w.r.Intn(len(kPasses))]
				w.export(0, w.keys[0], p)
				w.open(0, p, true)
				w.open(0, w.otherPass(p), false)
				w.change(0, w.damage(w.files[0]))
				w.open(0, p, false)
				w.export(1, w.keys[0], p)
				w.open(1, p, false)
				return
			}
			for k := 3 + w.r.Intn(a.Steps); k > 0; k-- {
				i := w.r.Intn(3)
				if w.r.Intn(2) == 0 {
					w.sigStep()
					continue
				}
				if w.files[i] == nil || w.r.Intn(5) == 0 {
					w.make(i, []string{"scrypt", "pbkdf2"}[w.r.Intn(2)], w.keys[w.r.Intn(len(w.keys))], kPasses[w.r.Intn(len(kPasses))], w.r.Intn(2) == 0)
				}
				switch w.r.Intn(4) {
				case 0:
					w.open(i, w.pass[i], true)
				case 1:
					w.open(i, w.otherPass(w.pass[i]), true)
				default:
					f := w.files[i]
					w.change(i, w.damage(f))
					w.open(i, w.pass[i], true)
					if w.r.Intn(3) > 0 {
						w.change(i, f)
						w.open(i, w.pass[i], true)
					}
				}
			}
		})
		t.Append(w.h)
	}
}
