package main

import (
	"encoding/json"
	"math/rand"

	"github.com/philhofer/seth/tevm"
)

func init() { drivers["tree"] = driveTree }

// keys in bytewise order; key i of a script is treekeys[i-1]
var treekeys = [][]byte{
	{}, {0}, {0, 0}, {0, 1}, {0, 255}, {1}, []byte("a"), []byte("a\x00"), []byte("aa"), []byte("ab"),
	[]byte("abc"), []byte("b"), {0x7f}, {0x80}, {0xff}, {0xff, 0xff},
}

var treevals = [][]byte{
	nil, []byte("x"), []byte("y"), []byte("a longer value"), {0}, {0, 0}, []byte("z"), []byte("w"), {255},
}

type treeop struct {
	Op string `json:"op"`
	T  int    `json:"t"`
	K  int    `json:"k"`
	V  int    `json:"v"`
	S  int    `json:"s"`
	N  int    `json:"n"`
}

type treeobj struct {
	tr    *tevm.Tree
	snaps []int // handles of the live logical snapshots
}

func valno(b []byte, n int) int {
	if len(b) == 0 {
		return 0
	}
	for i, v := range treevals {
		if i > 0 && string(v) == string(b) {
			return i
		}
	}
	return 99
}

func keyno(b []byte) int {
	for i, k := range treekeys {
		if string(k) == string(b) {
			return i + 1
		}
	}
	return 99
}

func dumpTree(tr *tevm.Tree, limit int) A {
	out := A{}
	tr.Iterate(func(k, v []byte) bool {
		out = append(out, A{keyno(k), valno(v, 0)})
		return len(out) != limit && len(out) < 100
	})
	return out
}

func runTree(t *Trace, ops []treeop) {
	trees := []*treeobj{{tr: new(tevm.Tree)}}
	t.Reset()
	for _, o := range ops {
		if o.T < 1 || o.T > len(trees) {
			continue
		}
		x := trees[o.T-1]
		ok := t.try("tree "+o.Op, func() {
			switch o.Op {
			case "ins":
				k := append([]byte(nil), treekeys[o.K-1]...)
				v := append([]byte(nil), treevals[o.V]...)
				x.tr.Insert(k, v)
				// the caller re-uses its memory
				for i := range k {
					k[i] ^= 0x55
				}
				for i := range v {
					v[i] ^= 0x55
				}
				t.Emit(M{"op": "ins", "t": o.T, "k": o.K, "v": o.V})
			case "del":
				r := x.tr.Delete(treekeys[o.K-1])
				t.Emit(M{"op": "del", "t": o.T, "k": o.K, "r": r})
			case "get":
				r := x.tr.Get(treekeys[o.K-1])
				t.Emit(M{"op": "get", "t": o.T, "k": o.K, "r": valno(r, 0)})
			case "iter":
				t.Emit(M{"op": "iter", "t": o.T, "n": o.N, "r": dumpTree(x.tr, o.N)})
			case "snap":
				x.snaps = append(x.snaps, x.tr.Snapshot())
				t.Emit(M{"op": "snap", "t": o.T})
			case "rb":
				if o.S < 1 || o.S > len(x.snaps) {
					return
				}
				x.tr.Rollback(x.snaps[o.S-1])
				x.snaps = x.snaps[:o.S]
				t.Emit(M{"op": "rb", "t": o.T, "s": o.S})
			case "copy":
				if o.S < 1 || o.S > len(x.snaps) {
					return
				}
				c := x.tr.CopyAt(x.snaps[o.S-1])
				trees = append(trees, &treeobj{tr: &c, snaps: append([]int(nil), x.snaps[:o.S]...)})
				t.Emit(M{"op": "copy", "t": o.T, "s": o.S})
			case "json":
				b, err := json.Marshal(x.tr)
				if err != nil {
					t.Emit(M{"op": "PANIC", "in": "marshal"})
					return
				}
				n := new(tevm.Tree)
				if err := json.Unmarshal(b, n); err != nil {
					t.Emit(M{"op": "PANIC", "in": "unmarshal"})
					return
				}
				x.tr = n
			default:
				panic("HARNESS BUG: op " + o.Op)
			}
		})
		if !ok {
			return
		}
	}
	// look at everything that is still reachable: all of the trees,
	// and (by way of copies) all of their snapshots
	t.try("tree dump", func() {
		all := A{}
		for _, x := range trees {
			sn := A{}
			for _, s := range x.snaps {
				c := x.tr.CopyAt(s)
				sn = append(sn, dumpTree(&c, 0))
			}
			all = append(all, M{"cur": dumpTree(x.tr, 0), "snaps": sn})
		}
		t.Emit(M{"op": "obs", "trees": all})
	})
}

func randTree(r *rand.Rand, steps int) []treeop {
	nk := []int{3, 5, 9, len(treekeys)}[r.Intn(4)]
	nv := len(treevals)
	var ops []treeop
	nt, ns := 1, []int{0}
	// phases change the mix of operations
	w := [8]int{10, 4, 3, 1, 3, 2, 1, 0}
	for i := 0; i < steps; i++ {
		if i%8 == 0 {
			for j := range w {
				w[j] = 1 + r.Intn(4)
			}
			w[0] += 1 + r.Intn(8)
			w[7] = r.Intn(2)
			if nt > 5 {
				w[6] = 0
			}
		}
		sum := 0
		for _, x := range w {
			sum += x
		}
		x := r.Intn(sum)
		j := 0
		for x >= w[j] {
			x -= w[j]
			j++
		}
		o := treeop{T: 1 + r.Intn(nt), K: 1 + r.Intn(nk), V: r.Intn(nv)}
		if r.Intn(3) == 0 {
			o.T = nt
		}
		switch j {
		case 0:
			o.Op = "ins"
		case 1:
			o.Op = "del"
		case 2:
			o.Op = "get"
		case 3:
			o.Op = "iter"
			o.N = r.Intn(4)
		case 4:
			o.Op = "snap"
			ns[o.T-1]++
		case 5:
			if ns[o.T-1] == 0 {
				continue
			}
			o.Op = "rb"
			o.S = 1 + r.Intn(ns[o.T-1])
			if r.Intn(2) == 0 {
				o.S = ns[o.T-1]
			}
			ns[o.T-1] = o.S
		case 6:
			if ns[o.T-1] == 0 || nt > 5 {
				continue
			}
			o.Op = "copy"
			o.S = 1 + r.Intn(ns[o.T-1])
			nt++
			ns = append(ns, o.S)
		case 7:
			o.Op = "json"
		}
		ops = append(ops, o)
	}
	return ops
}

func driveTree(t *Trace, a *Args) {
	for _, s := range a.Scripts {
		var ops []treeop
		if err := json.Unmarshal(s, &ops); err != nil {
			panic("HARNESS BUG: " + err.Error())
		}
		runTree(t, ops)
	}
	for i := 0; i < a.N; i++ {
		runTree(t, randTree(a.Rng, 5+a.Rng.Intn(a.Steps)))
	}
}
