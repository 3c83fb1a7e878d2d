package main

import (
	"encoding/json"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
)

func init() { drivers["abi"] = driveABI }

// a value as in Abi.tla
type abiEl struct {
	Neg bool  `json:"neg"`
	B   []int `json:"b"`
}
type abiVal struct {
	Neg bool    `json:"neg"`
	B   []int   `json:"b"`
	L   []abiEl `json:"l"`
}

func ints(b []byte) []int {
	o := make([]int, len(b))
	for i := range b {
		o[i] = int(b[i])
	}
	return o
}

func raw(v []int) []byte {
	o := make([]byte, len(v))
	for i := range v {
		o[i] = byte(v[i])
	}
	return o
}

func elInt(n *big.Int) abiEl { return abiEl{n.Sign() < 0, ints(n.Bytes())} }
func (e abiEl) big() *big.Int {
	n := new(big.Int).SetBytes(raw(e.B))
	if e.Neg {
		n.Neg(n)
	}
	return n
}
func one(e abiEl) abiVal { return abiVal{e.Neg, e.B, []abiEl{}} }

// the variables: a fixed pool of every type
var abiTypes = []string{"int", "int", "addr", "addr", "data", "data", "bytes", "bytes", "ints", "ints", "addrs", "addrs", "datas", "datas",
	"int", "addr", "data", "bytes", // further ones, for longer lists
	"big", "string", "raw", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u64", "i64"}

type abiWorld struct {
	h    *Hist
	r    *rand.Rand
	vars []interface{}
	last []byte
	lasT []string
}

func newAbiVars() []interface{} {
	var o []interface{}
	for i, t := range abiTypes {
		switch t {
		case "int":
			o = append(o, new(seth.Int))
		case "addr":
			o = append(o, new(seth.Address))
		case "data":
			o = append(o, new(seth.Data))
		case "bytes":
			o = append(o, new(seth.Bytes))
		case "ints":
			o = append(o, new(seth.IntSlice))
		case "addrs":
			o = append(o, new(seth.AddrSlice))
		case "datas":
			o = append(o, new(seth.DataSlice))
		case "big":
			o = append(o, new(big.Int))
		case "string":
			o = append(o, new(string))
		case "raw":
			o = append(o, new([]byte))
		case "bool":
			o = append(o, new(bool))
		case "u8":
			o = append(o, new(uint8))
		case "u16":
			o = append(o, new(uint16))
		case "u32":
			o = append(o, new(uint32))
		case "u64":
			if i == len(abiTypes)-2 {
				o = append(o, new(uint))
			} else {
				o = append(o, new(uint64))
			}
		case "i8":
			o = append(o, new(int8))
		case "i16":
			o = append(o, new(int16))
		case "i32":
			o = append(o, new(int32))
		case "i64":
			if i == len(abiTypes)-1 {
				o = append(o, new(int))
			} else {
				o = append(o, new(int64))
			}
		}
	}
	return o
}

func (w *abiWorld) val(i int) abiVal {
	u := func(n uint64) abiVal { return one(elInt(new(big.Int).SetUint64(n))) }
	s := func(n int64) abiVal { return one(elInt(big.NewInt(n))) }
	l := func(n int, f func(j int) abiEl) abiVal {
		v := abiVal{B: []int{}, L: []abiEl{}}
		for j := 0; j < n; j++ {
			v.L = append(v.L, f(j))
		}
		return v
	}
	switch v := w.vars[i].(type) {
	case *seth.Int:
		return one(elInt(v.Big()))
	case *big.Int:
		return one(elInt(v))
	case *seth.Address:
		return one(abiEl{B: ints(v[:])})
	case *seth.Data:
		return one(abiEl{B: ints(*v)})
	case *seth.Bytes:
		return one(abiEl{B: ints(*v)})
	case *[]byte:
		return one(abiEl{B: ints(*v)})
	case *string:
		return one(abiEl{B: ints([]byte(*v))})
	case *seth.IntSlice:
		return l(len(*v), func(j int) abiEl { return elInt((*v)[j].Big()) })
	case *seth.AddrSlice:
		return l(len(*v), func(j int) abiEl { return abiEl{B: ints((*v)[j][:])} })
	case *seth.DataSlice:
		return l(len(*v), func(j int) abiEl { return abiEl{B: ints((*v)[j])} })
	case *bool:
		if *v {
			return u(1)
		}
		return u(0)
	case *uint8:
		return u(uint64(*v))
	case *uint16:
		return u(uint64(*v))
	case *uint32:
		return u(uint64(*v))
	case *uint64:
		return u(*v)
	case *uint:
		return u(uint64(*v))
	case *int8:
		return s(int64(*v))
	case *int16:
		return s(int64(*v))
	case *int32:
		return s(int64(*v))
	case *int64:
		return s(*v)
	case *int:
		return s(int64(*v))
	}
	panic("HARNESS BUG: type")
}

func (w *abiWorld) bytesOf(n int) []int {
	b := make([]byte, n)
	w.r.Read(b)
	if n > 0 && w.r.Intn(3) == 0 {
		b[w.r.Intn(2)*(n-1)] = 0
	}
	return ints(b)
}

// class makes a value of a type and class
func (w *abiWorld) class(t, c string) abiVal {
	p := func(e uint, d int64) *big.Int {
		n := new(big.Int).Lsh(big.NewInt(1), e)
		return n.Add(n, big.NewInt(d))
	}
	n := func() int {
		k := 0
		for _, x := range c {
			k = k*10 + int(x-'0')
		}
		return k
	}
	switch t {
	case "int":
		var x *big.Int
		switch c {
		case "zero":
			x = big.NewInt(0)
		case "one":
			x = big.NewInt(1)
		case "byte":
			x = big.NewInt(int64(w.r.Intn(256)))
		case "top":
			x = p(255, int64(w.r.Intn(3)-1))
		case "max":
			x = p(256, -1)
		case "over":
			x = p(256, int64(w.r.Intn(2)))
		case "neg1":
			x = big.NewInt(-1 - int64(w.r.Intn(2)*w.r.Intn(1000)))
		case "min":
			x = p(255, 0)
			x.Neg(x)
		case "under":
			x = p(255, 1)
			x.Neg(x)
		default:
			x = rbig(w.r, 256)
			if x.BitLen() < 256 && w.r.Intn(3) == 0 {
				x.Neg(x)
			}
		}
		return one(elInt(x))
	case "addr":
		b := w.bytesOf(20)
		if c == "zero" {
			b = ints(make([]byte, 20))
		} else if c == "lead" {
			b[0], b[1] = 0, 0
		}
		return one(abiEl{B: b})
	case "data":
		if c == "lead" {
			b := w.bytesOf(7)
			b[0], b[6] = 0, 0
			return one(abiEl{B: b})
		}
		return one(abiEl{B: w.bytesOf(n())})
	case "bytes":
		return one(abiEl{B: w.bytesOf(n())})
	}
	v := abiVal{B: []int{}, L: []abiEl{}}
	et := map[string]string{"ints": "int", "addrs": "addr", "datas": "data"}[t]
	for k := n(); k > 0; k-- {
		e := w.class(et, w.anyClass(et))
		v.L = append(v.L, abiEl{e.Neg, e.B})
	}
	return v
}

func (w *abiWorld) anyClass(t string) string {
	cs := map[string][]string{
		"int":   {"zero", "one", "byte", "top", "max", "neg1", "min", "rnd", "rnd", "rnd"},
		"addr":  {"zero", "lead", "rnd"},
		"data":  {"0", "1", "31", "32", "lead", "4"},
		"bytes": {"0", "1", "31", "32", "33", "64", "100", "300"},
	}[t]
	if cs == nil {
		cs = []string{"0", "1", "2", "5", "9"}
	} else if t == "int" && w.r.Intn(60) == 0 {
		cs = []string{"over", "under"}
	} else if t == "data" && w.r.Intn(60) == 0 {
		cs = []string{"33", "40"}
	}
	return cs[w.r.Intn(len(cs))]
}

func (w *abiWorld) set(i int, v abiVal) {
	switch p := w.vars[i].(type) {
	case *seth.Int:
		*p = seth.Int(*abiEl{v.Neg, v.B}.big())
	case *seth.Address:
		copy(p[:], raw(v.B))
	case *seth.Data:
		*p = raw(v.B)
	case *seth.Bytes:
		*p = raw(v.B)
	case *seth.IntSlice:
		*p = nil
		for _, e := range v.L {
			*p = append(*p, seth.Int(*e.big()))
		}
	case *seth.AddrSlice:
		*p = nil
		for _, e := range v.L {
			var a seth.Address
			copy(a[:], raw(e.B))
			*p = append(*p, a)
		}
	case *seth.DataSlice:
		*p = nil
		for _, e := range v.L {
			*p = append(*p, raw(e.B))
		}
	}
	w.h.Emit(M{"op": "set", "i": i + 1, "v": v})
}

// free picks n distinct variables of the given types
func (w *abiWorld) free(ts []string) []int {
	used := map[int]bool{}
	var o []int
	for _, t := range ts {
		var c []int
		for i, x := range abiTypes {
			if x == t && !used[i] {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return nil
		}
		i := c[w.r.Intn(len(c))]
		used[i] = true
		o = append(o, i)
	}
	return o
}

func plus1(is []int) []int {
	o := []int{}
	for _, i := range is {
		o = append(o, i+1)
	}
	return o
}

// enc encodes the variables under a fitting signature, or sometimes another one
func (w *abiWorld) enc(is []int) {
	sig := []string{}
	for _, i := range is {
		c := map[string][]string{"int": {"uint256", "int256", "uint", "int", "bytes32", "uint8", "int64"}, "addr": {"address"}, "data": {"bytes32", "bytes4", "bytes7"},
			"bytes": {"bytes", "string"}, "ints": {"uint256[]", "uint8[]"}, "addrs": {"address[]"}, "datas": {"bytes32[]"}}[abiTypes[i]]
		sig = append(sig, c[w.r.Intn(len(c))])
	}
	if len(sig) > 1 && w.r.Intn(25) == 0 {
		switch w.r.Intn(3) {
		case 0:
			sig[w.r.Intn(len(sig))] = []string{"address", "uint256", "bytes32", "uint256[]"}[w.r.Intn(4)]
		case 1:
			sig = append(sig, "uint256")
		case 2:
			if len(sig) > 2 {
				sig = sig[1:]
			}
		}
	}
	fn := []string{"f", "transfer", "a_b", "F0"}[w.r.Intn(4)] + "(" + strings.Join(sig, ",") + ")"
	args := []seth.EtherType{}
	ts := []string{}
	for _, i := range is {
		args = append(args, w.vars[i].(seth.EtherType))
		ts = append(ts, abiTypes[i])
	}
	st, out := "ok", []byte{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(string); !ok || s == "" { // a documented refusal is a text
					panic(r)
				}
				st = "refused"
			}
		}()
		if w.r.Intn(2) == 0 {
			out = seth.ABIEncode(fn, args...)
		} else {
			var o seth.CallOpts
			if w.r.Intn(2) == 0 {
				o.Data = []byte("what was here before")
			}
			o.EncodeCall(fn, args...)
			out = []byte(o.Data)
		}
	}()
	w.h.Emit(M{"op": "enc", "sig": sig, "sel": ints(crypto.Keccak256([]byte(fn))[:4]), "is": plus1(is), "st": st, "out": ints(out)})
	if st == "ok" && len(out) >= 4 {
		w.last, w.lasT = append([]byte(nil), out[4:]...), ts
	}
}

func (w *abiWorld) app(i int) {
	pre := raw(w.bytesOf([]int{0, 1, 4, 32, 37}[w.r.Intn(5)]))
	b := append(make([]byte, 0, len(pre)+w.r.Intn(100)), pre...)
	out := w.vars[i].(seth.EtherType).EncodeABI(b)
	w.h.Emit(M{"op": "app", "pre": ints(pre), "i": i + 1, "out": ints(out)})
}

func (w *abiWorld) dec(d []byte, is []int) {
	args := []interface{}{}
	for _, i := range is {
		args = append(args, w.vars[i])
	}
	// what lies behind the data must not matter
	buf := append(append([]byte(nil), d...), []byte(strings.Repeat("\x00\x01\x05\x40", 40))...)[:len(d)]
	var err error
	if w.r.Intn(3) == 0 {
		text, _ := seth.Data(buf).MarshalText()
		if w.r.Intn(2) == 0 {
			err = seth.NewABIDecoder(args...).UnmarshalText(text)
		} else {
			err = json.Unmarshal([]byte(`"`+string(text)+`"`), seth.NewABIDecoder(args...))
		}
	} else {
		err = seth.DecodeABI(buf, args...)
	}
	st := "ok"
	if err != nil {
		st = "err"
	}
	vs := []abiVal{}
	for _, i := range is {
		v := w.val(i)
		if err != nil {
			v = abiVal{B: []int{}, L: []abiEl{}}
		}
		vs = append(vs, v)
	}
	w.h.Emit(M{"op": "dec", "d": ints(d), "is": plus1(is), "st": st, "vals": vs})
}

// types that the data for type t could be decoded as
func (w *abiWorld) as(t string) string {
	var c []string
	switch t {
	case "int":
		c = []string{"int", "int", "big", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "data"}
	case "addr":
		c = []string{"addr", "addr", "big", "int"}
	case "data":
		c = []string{"data", "data", "int", "addr"}
	case "bytes":
		c = []string{"bytes", "string", "raw"}
	case "ints":
		c = []string{"ints", "ints", "datas"}
	case "addrs":
		c = []string{"addrs", "addrs", "ints"}
	case "datas":
		c = []string{"datas", "datas", "ints"}
	}
	return c[w.r.Intn(len(c))]
}

func (w *abiWorld) decLast(exact bool) {
	ts := append([]string(nil), w.lasT...)
	d := append([]byte(nil), w.last...)
	if !exact {
		for i := range ts {
			ts[i] = w.as(ts[i])
		}
	}
	is := w.free(ts)
	if is == nil {
		return
	}
	w.dec(d, is)
	if exact {
		for n := w.r.Intn(3); n > 0; n-- {
			w.dec(w.spoil(d), is)
		}
		if w.r.Intn(2) == 0 {
			w.dec(d, is) // again, over the results of the failure
		}
	} else if w.r.Intn(2) == 0 {
		w.dec(w.spoil(d), is)
	}
}

func (w *abiWorld) spoil(d []byte) []byte {
	d = append([]byte(nil), d...)
	r := w.r
	word := func() int { return 32 * r.Intn(len(d)/32) }
	switch k := r.Intn(9); {
	case k == 0 || len(d) < 32:
		return d[:r.Intn(len(d)+1)]
	case k == 1:
		return append(d, raw(w.bytesOf(1+r.Intn(70)))...)
	case k == 2:
		d[r.Intn(len(d))] ^= 1 << uint(r.Intn(8))
	case k == 3: // a small number in place of a word
		o := word()
		copy(d[o:o+32], make([]byte, 32))
		d[o+31] = byte(r.Intn(256))
		d[o+30] = byte(r.Intn(8) / 7)
	case k == 4: // a huge one
		o := word()
		for i := 0; i < 32; i++ {
			d[o+i] = 0xff
		}
		d[o+31] = byte(r.Intn(256))
	case k == 5: // around powers of two
		o := word()
		n := new(big.Int).Lsh(big.NewInt(1), []uint{7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 255}[r.Intn(11)])
		n.Sub(n, big.NewInt(int64(r.Intn(40))))
		n.FillBytes(d[o : o+32])
		if r.Intn(3) == 0 {
			for i := 0; i < 32; i++ {
				d[o+i] ^= 0xff
			}
		}
	case k == 6: // near the end of the data
		o := word()
		n := len(d) - 32*r.Intn(3) + r.Intn(5) - 2
		if n < 0 {
			n = 0
		}
		big.NewInt(int64(n)).FillBytes(d[o : o+32])
	case k == 7: // a length that barely fits, or barely not
		o := word()
		rest := len(d) - o - 32
		n := rest
		if r.Intn(2) == 0 {
			n = rest / 32
		}
		n += r.Intn(3) - 1
		if n < 0 {
			n = 0
		}
		big.NewInt(int64(n)).FillBytes(d[o : o+32])
	case k == 8:
		o, p := word(), word()
		for i := 0; i < 32; i++ {
			d[o+i], d[p+i] = d[p+i], d[o+i]
		}
	}
	return d
}

func driveABI(t *Trace, a *Args) {
	type arg struct{ T, C string }
	run := func(fn func(w *abiWorld)) {
		w := &abiWorld{h: new(Hist), r: rand.New(rand.NewSource(a.Rng.Int63())), vars: newAbiVars()}
		w.h.Emit(M{"op": "reset", "typ": abiTypes})
		w.h.guard("abi", func() { fn(w) })
		t.Append(w.h)
	}
	for _, s := range a.Scripts {
		var args []arg
		if err := json.Unmarshal(s, &args); err != nil {
			panic("HARNESS BUG: " + err.Error())
		}
		run(func(w *abiWorld) {
			ts := []string{}
			for _, x := range args {
				ts = append(ts, x.T)
			}
			is := w.free(ts)
			if is == nil {
				return
			}
			for k, i := range is {
				w.set(i, w.class(args[k].T, args[k].C))
			}
			w.enc(is)
			if w.last != nil {
				w.decLast(true)
				w.decLast(false)
				for _, i := range is[:len(is)*w.r.Intn(2)] {
					if v := w.val(i); v.L != nil {
						w.dec(w.last[:w.r.Intn(len(w.last)+1)], []int{i})
					}
				}
			}
		})
	}
	ets := []string{"int", "addr", "data", "bytes", "ints", "addrs", "datas"}
	for n := a.N; n > 0; n-- {
		run(func(w *abiWorld) {
			known := map[int]bool{}
			for k := 2 + w.r.Intn(a.Steps); k > 0; k-- {
				ts := []string{}
				for j := w.r.Intn(6); j > 0; j-- {
					ts = append(ts, ets[w.r.Intn(len(ets))])
				}
				is := w.free(ts)
				if is == nil {
					continue
				}
				switch w.r.Intn(6) {
				case 0, 1, 2:
					for _, i := range is {
						if !known[i] || w.r.Intn(3) == 0 {
							w.set(i, w.class(abiTypes[i], w.anyClass(abiTypes[i])))
							known[i] = true
						}
					}
					w.enc(is)
				case 3:
					for _, i := range is[:len(is)/2] {
						v := w.class(abiTypes[i], w.anyClass(abiTypes[i]))
						over := func(e abiEl) bool {
							return len(e.B) > 32 || strings.HasPrefix(abiTypes[i], "int") && (e.big().BitLen() > 256 || e.Neg && e.big().BitLen() > 255)
						}
						bad := over(abiEl{v.Neg, v.B}) && abiTypes[i] != "bytes"
						for _, e := range v.L {
							bad = bad || over(e)
						}
						if bad {
							continue
						}
						w.set(i, v)
						known[i] = true
						w.app(i)
					}
				case 4:
					if w.last != nil {
						w.decLast(w.r.Intn(2) == 0)
						known = map[int]bool{} // whatever was decoded into may be unknown now
					}
				case 5:
					d := w.spoil(raw(w.bytesOf(w.r.Intn(200))))
					is := w.free([]string{w.as(ets[w.r.Intn(7)]), w.as(ets[w.r.Intn(7)])}[:1+w.r.Intn(2)])
					w.dec(d, is)
					known = map[int]bool{}
				}
			}
			for i := range known {
				w.h.Emit(M{"op": "look", "i": i + 1, "v": w.val(i)})
			}
		})
	}
}
