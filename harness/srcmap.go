package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/philhofer/seth"
)

func init() { drivers["srcmap"] = driveSrcmap }

const smNone = -9

type smEntry struct{ S, L, F int }

// num writes a number; those that are beyond a machine's are written as such
func smNum(x int, r *rand.Rand) string {
	switch x {
	case smNone:
		return ""
	case 1000000007:
		return []string{"9223372036854775807", "9223372036854775800", "4294967296", "2147483648", "1000000007"}[r.Intn(5)]
	}
	return strconv.Itoa(x)
}

// text writes a map, leaving out at random what may be left out
func smText(m []smEntry, r *rand.Rand, five bool) string {
	var ops []string
	for _, e := range m {
		fs := []string{smNum(e.S, r), smNum(e.L, r), smNum(e.F, r), []string{"", "i", "o", "-"}[r.Intn(4)]}
		if five {
			fs = append(fs, []string{"", "0", "1", "2"}[r.Intn(4)])
		}
		for len(fs) > 1 && fs[len(fs)-1] == "" && r.Intn(8) > 0 {
			fs = fs[:len(fs)-1]
		}
		ops = append(ops, strings.Join(fs, ":"))
	}
	return strings.Join(ops, ";")
}

type smContract struct {
	code []byte
	m    []smEntry
}

func smRun(t *Trace, r *rand.Rand, files [][]byte, cons []smContract, looks int) {
	b := &seth.CompiledBundle{}
	srcs, cs := A{}, A{}
	for i, f := range files {
		b.Filenames = append(b.Filenames, fmt.Sprintf("f%d.sol", i))
		b.Sources = append(b.Sources, string(f))
		srcs = append(srcs, ints(f))
	}
	for i, c := range cons {
		es := A{}
		for _, e := range c.m {
			es = append(es, M{"s": e.S, "l": e.L, "f": e.F})
		}
		if len(c.m) == 0 {
			// the empty text is an empty entry
			es = append(es, M{"s": smNone, "l": smNone, "f": smNone})
		}
		b.Contracts = append(b.Contracts, seth.CompiledContract{Name: fmt.Sprintf("C%d", i), Code: append([]byte(nil), c.code...), Sourcemap: smText(c.m, r, r.Intn(6) == 0)})
		cs = append(cs, M{"code": ints(c.code), "map": es})
	}
	t.Reset()
	t.Emit(M{"op": "load", "srcs": srcs, "cons": cs})
	look := func(c, pc int) {
		e := M{"op": "look", "c": c + 1, "pc": pc}
		if r.Intn(20) == 0 {
			// as from the cache
			t.try("msgp", func() {
				m, err := b.MarshalMsg(nil)
				n := new(seth.CompiledBundle)
				if err == nil {
					_, err = n.UnmarshalMsg(m)
				}
				if err != nil {
					t.Emit(M{"op": "PANIC", "msg": err.Error()})
				} else {
					b = n
				}
			})
		}
		if t.try("SourceOf", func() { e["text"] = ints([]byte(b.SourceOf(&b.Contracts[c], pc))) }) {
			t.Emit(e)
		}
	}
	for c := range cons {
		for pc := -2; pc < len(cons[c].code)+3; pc++ {
			if len(cons[c].code) < 24 || r.Intn(4) == 0 {
				look(c, pc)
			}
		}
		look(c, []int{-1 << 62, 1 << 62, len(cons[c].code) + 32, 65536, -256}[r.Intn(5)]%(1<<30))
	}
	for ; looks > 0 && len(cons) > 0; looks-- {
		c := r.Intn(len(cons))
		look(c, r.Intn(len(cons[c].code)+34)-1)
	}
}

func driveSrcmap(t *Trace, a *Args) {
	r := a.Rng
	for _, raw := range a.Scripts {
		var s struct {
			Code []int
			Map  []smEntry
		}
		cMust(json.Unmarshal(raw, &s))
		c := smContract{m: s.Map}
		for _, x := range s.Code {
			c.code = append(c.code, byte(x))
		}
		smRun(t, r, [][]byte{{10, 11, 12, 13}, {20, 21}}, []smContract{c}, 1)
	}
	for i := 0; i < a.N; i++ {
		var files [][]byte
		for j := r.Intn(4); j > 0; j-- {
			f := make([]byte, r.Intn(30))
			r.Read(f)
			files = append(files, f)
		}
		var cons []smContract
		for j := r.Intn(3) + 1; j > 0; j-- {
			var c smContract
			n := r.Intn(16)
			for k := 0; k < n; k++ {
				b := byte(r.Intn(256))
				if r.Intn(2) == 0 {
					b = []byte{0x5f, 0x60, 0x61, 0x62, 0x7e, 0x7f, 0x80, 0x6f, 0x70, 0x5b, 0}[r.Intn(11)]
				}
				c.code = append(c.code, b)
				if b >= 0x60 && b < 0x80 {
					w := int(b) - 0x5f
					if k == n-1 {
						w = r.Intn(w + 1)
					}
					for ; w > 0; w-- {
						c.code = append(c.code, byte(0x58+r.Intn(42)))
					}
				}
			}
			pick := func(lim int) int {
				switch r.Intn(20) {
				case 0:
					return -1
				case 1:
					return 1000000007
				case 2:
					return lim
				case 3:
					return lim + 1
				}
				return r.Intn(lim + 1)
			}
			for k := r.Intn(n + 4); k > 0; k-- {
				f := 0
				if len(files) > 0 {
					f = r.Intn(len(files))
				}
				if r.Intn(6) == 0 {
					f = []int{-1, len(files), 255, 1000000007, -2}[r.Intn(5)]
				}
				e := smEntry{smNone, smNone, smNone}
				size := 20
				if f >= 0 && f < len(files) {
					size = len(files[f])
				}
				if len(c.m) == 0 || r.Intn(3) > 0 {
					e.S = pick(size)
				}
				if len(c.m) == 0 || r.Intn(2) > 0 {
					e.L = pick(size)
					if e.S >= 0 && e.S <= size && r.Intn(4) > 0 {
						e.L = r.Intn(size - e.S + 1)
					}
				}
				if len(c.m) == 0 || r.Intn(3) == 0 {
					e.F = f
				}
				c.m = append(c.m, e)
			}
			cons = append(cons, c)
		}
		smRun(t, r, files, cons, a.Steps)
	}
}
