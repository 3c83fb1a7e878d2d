package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/philhofer/seth"
	"github.com/tinylib/msgp/msgp"
)

func init() { drivers["scalars"] = driveScalars }

var scTypes = []string{"int", "int", "u64", "u64", "data", "data", "bytes", "bytes", "addr", "addr", "hash", "hash", "sig", "priv", "pub"}

type scVal struct {
	Neg bool  `json:"neg"`
	B   []int `json:"b"`
}

type scWorld struct {
	h    *Hist
	r    *rand.Rand
	vars []interface{}
	set_ map[int]bool
}

func (w *scWorld) val(i int) scVal {
	b := func(x []byte) scVal { return scVal{false, ints(x)} }
	switch v := w.vars[i].(type) {
	case *seth.Int:
		return scVal{v.Big().Sign() < 0, ints(v.Big().Bytes())}
	case *seth.Uint64:
		return scVal{false, bigB(new(big.Int).SetUint64(uint64(*v)))}
	case *seth.Data:
		return b(*v)
	case *seth.Bytes:
		return b(*v)
	case *seth.Address:
		return b(v[:])
	case *seth.Hash:
		return b(v[:])
	case *seth.Signature:
		return b(v[:])
	case *seth.PrivateKey:
		return b(v[:])
	case *seth.PublicKey:
		return b(v[:])
	}
	panic("HARNESS BUG: scalar")
}

func (w *scWorld) set(i int, raw []byte) {
	switch v := w.vars[i].(type) {
	case *seth.Int:
		v.Big().SetBytes(raw)
	case *seth.Uint64:
		*v = seth.Uint64(new(big.Int).SetBytes(raw).Uint64())
	case *seth.Data:
		*v = append([]byte(nil), raw...)
	case *seth.Bytes:
		*v = append([]byte(nil), raw...)
	case *seth.Address:
		copy(v[:], raw)
	case *seth.Hash:
		copy(v[:], raw)
	case *seth.Signature:
		copy(v[:], raw)
	case *seth.PrivateKey:
		copy(v[:], raw)
	case *seth.PublicKey:
		copy(v[:], raw)
	}
	w.set_[i] = true
	w.h.Emit(M{"op": "set", "i": i + 1, "v": w.val(i)})
}

func (w *scWorld) rnd(i int) []byte {
	n := map[string]int{"addr": 20, "hash": 32, "priv": 32, "pub": 64, "sig": 65}[scTypes[i]]
	switch scTypes[i] {
	case "int":
		n = []int{0, 1, 1, 2, 7, 8, 9, 16, 32, 40}[w.r.Intn(10)]
	case "u64":
		n = w.r.Intn(9)
	case "data", "bytes":
		n = []int{0, 1, 1, 2, 3, 20, 31, 32, 33, 70}[w.r.Intn(10)]
	}
	b := make([]byte, n)
	w.r.Read(b)
	if n > 0 {
		switch w.r.Intn(6) {
		case 0:
			b[0] = 0
		case 1:
			b[0] = byte(w.r.Intn(16))
		case 2:
			for j := range b {
				b[j] = 0
			}
		case 3:
			for j := range b {
				b[j] = 0xff
			}
		case 4:
			b[n-1] = 0
		}
	}
	return b
}

func (w *scWorld) print(i int) string {
	hows := []string{"text", "json", "jsonp", "string"}
	how := hows[w.r.Intn(4)]
	var b []byte
	var err error
	switch how {
	case "text":
		m, ok := w.vars[i].(encoding.TextMarshaler)
		if !ok {
			return ""
		}
		b, err = m.MarshalText()
	case "string":
		s, ok := w.vars[i].(fmt.Stringer)
		if !ok {
			return ""
		}
		b = []byte(s.String())
	case "jsonp":
		b, err = json.Marshal(w.vars[i])
	case "json":
		switch v := w.vars[i].(type) {
		case *seth.Int:
			b, err = json.Marshal(*v)
		case *seth.Uint64:
			b, err = json.Marshal(*v)
		case *seth.Data:
			b, err = json.Marshal(*v)
		case *seth.Bytes:
			b, err = json.Marshal(*v)
		case *seth.Address:
			b, err = json.Marshal(*v)
		case *seth.Hash:
			b, err = json.Marshal(*v)
		default:
			return ""
		}
	}
	if err != nil {
		b = []byte("ERROR")
	}
	w.h.Emit(M{"op": "print", "i": i + 1, "how": how, "out": ints(b)})
	return string(b)
}

func (w *scWorld) parse(i int, how, x string) {
	var err error
	in := []byte(x)
	switch how {
	case "json":
		err = json.Unmarshal(in, w.vars[i])
	case "text":
		err = w.vars[i].(encoding.TextUnmarshaler).UnmarshalText(in)
	case "string":
		type froms interface{ FromString(string) error }
		switch v := w.vars[i].(type) {
		case froms:
			if w.r.Intn(2) == 0 {
				err = v.FromString(x)
				break
			}
			switch v := w.vars[i].(type) {
			case *seth.Int:
				var n *seth.Int
				if n, err = seth.ParseInt(x); err == nil {
					*v = *n
				}
			case *seth.Address:
				var n *seth.Address
				if n, err = seth.ParseAddress(x); err == nil {
					*v = *n
				}
			case *seth.Hash:
				var n *seth.Hash
				if n, err = seth.ParseHash(x); err == nil {
					*v = *n
				}
			case *seth.Signature:
				var n *seth.Signature
				if n, err = seth.ParseSignature(x); err == nil {
					*v = *n
				}
			case *seth.PrivateKey:
				var n *seth.PrivateKey
				if n, err = seth.ParsePrivateKey(x); err == nil {
					*v = *n
				}
			case *seth.PublicKey:
				var n *seth.PublicKey
				if n, err = seth.ParsePublicKey(x); err == nil {
					*v = *n
				}
			}
		default:
			return
		}
	}
	// what was parsed must not hang on to the text
	for j := range in {
		in[j] ^= 0x15
	}
	e := M{"op": "parse", "i": i + 1, "how": how, "x": ints([]byte(x)), "st": "ok", "v": scVal{B: []int{}}}
	w.set_[i] = err == nil
	if err != nil {
		e["st"] = "err"
	} else {
		e["v"] = w.val(i)
	}
	w.h.Emit(e)
}

// carry takes the value of i to j
func (w *scWorld) carry(i, j int) {
	var err error
	how := []string{"msgp", "msgps", "field", "list", "copy", "scan", "ptr"}[w.r.Intn(7)]
	switch how {
	case "msgp":
		m, ok := w.vars[i].(msgp.Marshaler)
		u, ok2 := w.vars[j].(msgp.Unmarshaler)
		if !ok || !ok2 {
			return
		}
		var b, rest []byte
		if b, err = m.MarshalMsg([]byte("pre")); err == nil {
			rest, err = u.UnmarshalMsg(append(b[3:], "post"...))
			if string(rest) != "post" {
				err = fmt.Errorf("rest")
			}
		}
	case "msgps":
		m, ok := w.vars[i].(msgp.Encodable)
		u, ok2 := w.vars[j].(msgp.Decodable)
		if !ok || !ok2 {
			return
		}
		var b bytes.Buffer
		if err = msgp.Encode(&b, m); err == nil {
			err = msgp.Decode(&b, u)
		}
	case "field", "list", "ptr":
		switch v := w.vars[i].(type) {
		case *seth.Int:
			if how == "list" {
				a, b := []seth.Int{*v}, []seth.Int{*w.vars[j].(*seth.Int)}
				err = again(a, &b)
				if err == nil {
					*w.vars[j].(*seth.Int) = b[0]
				}
				break
			}
			a, b := struct{ X *seth.Int }{v}, struct{ X *seth.Int }{w.vars[j].(*seth.Int)}
			err = again(a, &b)
		case *seth.Uint64:
			a, b := struct{ X *seth.Uint64 }{v}, struct{ X *seth.Uint64 }{w.vars[j].(*seth.Uint64)}
			err = again(a, &b)
		case *seth.Address:
			if how == "list" { // as the key of a map
				b := map[seth.Address]int{}
				err = again(map[seth.Address]int{*v: 1}, &b)
				for k := range b {
					*w.vars[j].(*seth.Address) = k
				}
				break
			}
			a, b := struct{ X *seth.Address }{v}, struct{ X *seth.Address }{w.vars[j].(*seth.Address)}
			err = again(a, &b)
		case *seth.Hash:
			a, b := struct{ X *seth.Hash }{v}, struct{ X *seth.Hash }{w.vars[j].(*seth.Hash)}
			err = again(a, &b)
		case *seth.Data:
			a, b := struct{ X *seth.Data }{v}, struct{ X *seth.Data }{w.vars[j].(*seth.Data)}
			err = again(a, &b)
		case *seth.Bytes:
			a, b := struct{ X *seth.Bytes }{v}, struct{ X *seth.Bytes }{w.vars[j].(*seth.Bytes)}
			err = again(a, &b)
		default:
			return
		}
	case "copy":
		v, ok := w.vars[i].(*seth.Int)
		if !ok {
			return
		}
		*w.vars[j].(*seth.Int) = v.Copy()
	case "scan":
		s, ok := w.vars[i].(fmt.Stringer)
		verb := map[string]string{"int": "%v", "addr": "%a", "hash": "%h"}[scTypes[i]]
		if !ok || verb == "" {
			return
		}
		if verb == "%v" && w.r.Intn(2) == 0 {
			verb = "%x"
		}
		_, err = fmt.Sscanf(s.String(), verb, w.vars[j])
	}
	st := "ok"
	if err != nil {
		st = "err:" + how + ":" + err.Error()
	}
	w.set_[j] = true
	w.h.Emit(M{"op": "carry", "i": i + 1, "j": j + 1, "how": how, "st": st})
	w.h.Emit(M{"op": "look", "i": j + 1, "v": w.val(j)})
	w.h.Emit(M{"op": "look", "i": i + 1, "v": w.val(i)})
}

func again(a, b interface{}) error {
	buf, err := json.Marshal(a)
	if err == nil {
		err = json.Unmarshal(buf, b)
	}
	return err
}

// garble damages a text
func (w *scWorld) garble(x string) string {
	r := w.r
	b := []byte(x)
	for n := 1 + r.Intn(2); n > 0; n-- {
		k := 0
		if len(b) > 0 {
			k = r.Intn(len(b))
		}
		c := "0189afAFgGxX\"-+_ \\n\x00\xe9z@`/:"[r.Intn(26)]
		switch r.Intn(8) {
		case 0: // drop one
			if len(b) > 0 {
				b = append(b[:k:k], b[k+1:]...)
			}
		case 1, 2: // another character
			if len(b) > 0 {
				b[k] = c
			}
		case 3: // one more
			b = append(b[:k:k], append([]byte{c}, b[k:]...)...)
		case 4: // case
			b = []byte(strings.ToUpper(string(b)))
			if len(b) > 1 && r.Intn(2) == 0 {
				b[1] = 'x'
			}
		case 5: // without its start
			b = b[k:]
		case 6: // without its end
			b = b[:k]
		case 7:
			b = append(b, c)
		}
	}
	return string(b)
}

func newScWorld(a *Args) *scWorld {
	w := &scWorld{h: new(Hist), r: rand.New(rand.NewSource(a.Rng.Int63())), set_: map[int]bool{}}
	for _, t := range scTypes {
		w.vars = append(w.vars, map[string]func() interface{}{
			"int": func() interface{} { return new(seth.Int) }, "u64": func() interface{} { return new(seth.Uint64) },
			"data": func() interface{} { return new(seth.Data) }, "bytes": func() interface{} { return new(seth.Bytes) },
			"addr": func() interface{} { return new(seth.Address) }, "hash": func() interface{} { return new(seth.Hash) },
			"sig": func() interface{} { return new(seth.Signature) }, "priv": func() interface{} { return new(seth.PrivateKey) },
			"pub": func() interface{} { return new(seth.PublicKey) },
		}[t]())
	}
	w.h.Emit(M{"op": "reset", "typ": scTypes})
	return w
}

func driveScalars(t *Trace, a *Args) {
	// every short text, as every type of any length
	for s := 0; s < len(a.Scripts); s += 40 {
		w := newScWorld(a)
		w.h.guard("scalars", func() {
			for k := s; k < s+40 && k < len(a.Scripts); k++ {
				var x []int
				json.Unmarshal(a.Scripts[k], &x)
				text := string(raw(x))
				for _, i := range []int{0, 2, 4, 7, 8} {
					if w.r.Intn(3) == 0 {
						w.set(i, w.rnd(i))
					}
					w.parse(i, []string{"text", "string"}[w.r.Intn(2)], text)
					w.parse(i, "json", `"`+text+`"`)
					w.parse(i, "json", text)
				}
			}
		})
		t.Append(w.h)
	}
	for n := a.N; n > 0; n-- {
		w := newScWorld(a)
		w.h.guard("scalars", func() {
			for k := 2 + w.r.Intn(a.Steps); k > 0; k-- {
				i := w.r.Intn(len(scTypes))
				if !w.set_[i] || w.r.Intn(3) == 0 {
					w.set(i, w.rnd(i))
				}
				if v := w.val(i); v.Neg {
					continue // negative quantities have no form
				}
				switch w.r.Intn(6) {
				case 0, 1, 2:
					x := w.print(i)
					if x == "" {
						continue
					}
					// into the other variable, or the same
					j := i
					if i < 12 && w.r.Intn(3) > 0 {
						j = i ^ 1
					}
					how := "text"
					if x[0] == '"' {
						how = "json"
					} else if w.r.Intn(2) == 0 {
						how = "string"
					}
					w.parse(j, how, x)
					if w.r.Intn(2) == 0 {
						y := w.garble(x)
						if how == "json" && w.r.Intn(2) == 0 {
							y = `"` + w.garble(x[1:len(x)-1]) + `"`
						}
						w.parse(j, how, y)
					}
				case 3: // decimal forms, small and around 2^64
					n := rbig(w.r, 80)
					if w.r.Intn(2) == 0 {
						n = new(big.Int).Lsh(big.NewInt(1), 64)
						n.Add(n, big.NewInt(int64(w.r.Intn(5)-2)))
					}
					x := n.String()
					if w.r.Intn(3) == 0 {
						x = "0x" + n.Text(16)
					}
					if w.r.Intn(4) == 0 {
						x = "-" + x
					}
					if w.r.Intn(4) == 0 {
						x = w.garble(x)
					}
					how := []string{"text", "string", "json"}[w.r.Intn(3)]
					if how == "json" && (w.r.Intn(2) == 0 || strings.HasPrefix(x, "0x")) {
						x = `"` + x + `"`
					}
					w.parse(w.r.Intn(4), how, x)
				default:
					if i < 12 {
						w.carry(i, i^1)
					}
				}
			}
		})
		t.Append(w.h)
	}
}
