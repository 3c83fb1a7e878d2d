package main

import (
	"encoding/json"
	"errors"
	"math/big"
	"math/rand"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/philhofer/seth"
)

func init() { drivers["rlp"] = driveRlp }

type rlpWorld struct {
	h  *Hist
	r  *rand.Rand
	tx seth.Transaction
}

func (w *rlpWorld) fields() M {
	to := []byte{}
	if w.tx.To != nil {
		to = w.tx.To[:]
	}
	u := func(n seth.Uint64) []int { return bigB(new(big.Int).SetUint64(uint64(n))) }
	return M{"nonce": u(w.tx.Nonce), "price": bigB(w.tx.GasPrice.Big()), "gas": u(w.tx.Gas), "to": ints(to),
		"value": bigB(w.tx.Value.Big()), "input": ints(w.tx.Input)}
}

func (w *rlpWorld) fill(f string, b []byte) {
	n := new(big.Int).SetBytes(b)
	switch f {
	case "nonce":
		w.tx.Nonce = seth.Uint64(n.Uint64())
	case "price":
		w.tx.GasPrice.Big().Set(n)
	case "gas":
		w.tx.Gas = seth.Uint64(n.Uint64())
	case "to":
		w.tx.To = nil
		if len(b) > 0 {
			w.tx.To = new(seth.Address)
			copy(w.tx.To[:], b)
		}
	case "value":
		w.tx.Value.Big().Set(n)
	case "input":
		w.tx.Input = append(seth.Data(nil), b...)
	}
	w.h.Emit(M{"op": "fill", "f": f, "b": w.fields()[f]})
}

// unsigned is what go-ethereum makes of the fields; the specification has to agree with it
func (w *rlpWorld) unsigned() []byte {
	to := []byte{}
	if w.tx.To != nil {
		to = w.tx.To[:]
	}
	b, err := rlp.EncodeToBytes([]interface{}{uint64(w.tx.Nonce), w.tx.GasPrice.Big(), uint64(w.tx.Gas), to, w.tx.Value.Big(),
		[]byte(w.tx.Input), uint(1), uint(0), uint(0)})
	if err != nil {
		panic("HARNESS BUG: " + err.Error())
	}
	return b
}

func (w *rlpWorld) sig() *seth.Signature {
	s := new(seth.Signature)
	w.r.Read(s[:])
	for _, p := range []int{0, 32} {
		switch w.r.Intn(5) {
		case 0: // a short number
			n := w.r.Intn(32)
			for j := 0; j < n; j++ {
				s[p+j] = 0
			}
		case 1:
			s[p] = 0
		}
	}
	s[31] |= 1
	s[63] |= 1
	s[64] = byte(w.r.Intn(2))
	return s
}

func (w *rlpWorld) ops(n int) {
	for ; n > 0; n-- {
		switch w.r.Intn(4) {
		case 0:
			h := w.tx.HashToSign()
			p := w.unsigned()
			w.h.Emit(M{"op": "hash", "pre": ints(p), "digest": ints(crypto.Keccak256(p)), "hash": ints(h[:])})
		case 1, 2:
			var got seth.Hash
			var s *seth.Signature
			fail, times := w.r.Intn(5) == 0, 0
			out, err := seth.SignTransaction(&w.tx, func(h *seth.Hash) (*seth.Signature, error) {
				got = *h
				times++
				if fail {
					return nil, errors.New("no")
				}
				s = w.sig()
				if w.r.Intn(3) == 0 {
					var k seth.PrivateKey
					w.r.Read(k[:])
					k[0] &= 0x7f
					s = k.Sign(h)
				}
				return s, nil
			})
			p := w.unsigned()
			e := M{"op": "sign", "pre": ints(p), "digest": ints(crypto.Keccak256(p)), "hash": ints(got[:]), "ok": !fail,
				"r": []int{}, "s": []int{}, "v": 0, "st": "ok", "out": ints(out)}
			if times != 1 {
				e["hash"] = []int{}
			}
			if err != nil {
				e["st"] = "err"
			}
			if s != nil {
				e["r"], e["s"], e["v"] = ints(s[:32]), ints(s[32:64]), int(s[64])
			}
			w.h.Emit(e)
		case 3:
			s := w.sig()
			out := w.tx.Encode(s)
			w.h.Emit(M{"op": "encode", "r": ints(s[:32]), "s": ints(s[32:64]), "v": int(s[64]), "out": ints(out)})
		}
	}
	w.h.Emit(M{"op": "look", "t": w.fields()})
}

func newRlpWorld(a *Args) *rlpWorld {
	w := &rlpWorld{h: new(Hist), r: rand.New(rand.NewSource(a.Rng.Int63()))}
	w.h.Emit(M{"op": "reset"})
	// these fields are no part of the serialized transaction
	w.r.Read(w.tx.Hash[:])
	w.r.Read(w.tx.Block[:])
	w.tx.BlockNumber = seth.Uint64(w.r.Uint64())
	if w.r.Intn(2) == 0 {
		i := seth.Uint64(w.r.Intn(3))
		w.tx.From, w.tx.TxIndex = new(seth.Address), &i
	}
	return w
}

var rlpFields = []string{"nonce", "price", "gas", "to", "value", "input"}

func (w *rlpWorld) class(f, c string) []byte {
	rnd := func(n int) []byte { b := make([]byte, n); w.r.Read(b); return b }
	switch c {
	case "0":
		return nil
	case "1":
		return []byte{1}
	case "127":
		return []byte{127}
	case "128":
		return []byte{128}
	case "255":
		return []byte{255}
	case "256":
		return []byte{1, 0}
	case "1000":
		return []byte{1, 0, 0, 0}
	case "half":
		return append([]byte{1}, rnd(16)...)
	case "full":
		n := 8
		if f == "price" || f == "value" {
			n = 32
		}
		return append([]byte{255}, rnd(n-1)...)
	case "none":
		return nil
	case "zero":
		return make([]byte, 20)
	case "some":
		return rnd(20)
	case "b0":
		return []byte{0}
	case "b127":
		return []byte{127}
	case "b128":
		return []byte{128}
	case "n2":
		return rnd(2)
	case "n55":
		return rnd(55)
	case "n56":
		return rnd(56)
	case "n255":
		return rnd(255)
	case "n256":
		return rnd(256)
	}
	panic("HARNESS BUG: class " + c)
}

func driveRlp(t *Trace, a *Args) {
	for s := 0; s < len(a.Scripts); s += 20 {
		w := newRlpWorld(a)
		w.h.guard("rlp", func() {
			for k := s; k < s+20 && k < len(a.Scripts); k++ {
				var c map[string]string
				json.Unmarshal(a.Scripts[k], &c)
				for _, f := range rlpFields {
					w.fill(f, w.class(f, c[f]))
				}
				w.ops(2)
			}
		})
		t.Append(w.h)
	}
	for n := a.N; n > 0; n-- {
		w := newRlpWorld(a)
		w.h.guard("rlp", func() {
			for k := 1 + w.r.Intn(a.Steps); k > 0; k-- {
				f := rlpFields[w.r.Intn(6)]
				var b []byte
				switch f {
				case "nonce", "gas":
					b = rbig(w.r, 64).Bytes()
				case "price", "value":
					b = rbig(w.r, 256).Bytes()
				case "to":
					if w.r.Intn(3) > 0 {
						b = make([]byte, 20)
						w.r.Read(b)
					}
				case "input":
					// so that the input or the whole list has a length around a boundary
					l := []int{0, 1, 1, 20, 40, 55, 200, 255, 256, 1000}[w.r.Intn(10)] + w.r.Intn(8) - 4
					if w.r.Intn(40) == 0 {
						l = 65536 - w.r.Intn(120)
					}
					if l < 0 {
						l = 0
					}
					b = make([]byte, l)
					w.r.Read(b)
					if l > 0 && w.r.Intn(2) == 0 {
						b[0] &= 0x80
					}
				}
				if len(b) > 8 && (f == "nonce" || f == "gas") {
					b = b[:8]
				}
				w.fill(f, b)
				w.ops(w.r.Intn(3))
			}
		})
		t.Append(w.h)
	}
}
