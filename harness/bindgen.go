package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
)

func init() { drivers["bindgen"] = driveBindgen }

// ---- the program around the generated bindings: tells what they offer and calls them

const bindMain = `package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"

	"github.com/philhofer/seth"
)

type M map[string]interface{}
type el struct {
	Neg bool  ` + "`json:\"neg\"`" + `
	B   []int ` + "`json:\"b\"`" + `
}
type val struct {
	Neg bool  ` + "`json:\"neg\"`" + `
	B   []int ` + "`json:\"b\"`" + `
	L   []el  ` + "`json:\"l\"`" + `
}

func raw(v []int) []byte {
	o := make([]byte, len(v))
	for i := range v {
		o[i] = byte(v[i])
	}
	return o
}
func ints(b []byte) []int {
	o := make([]int, len(b))
	for i := range b {
		o[i] = int(b[i])
	}
	return o
}
func (e el) big() *big.Int {
	n := new(big.Int).SetBytes(raw(e.B))
	if e.Neg {
		n.Neg(n)
	}
	return n
}
func elBig(n *big.Int) el { return el{n.Sign() < 0, ints(n.Bytes())} }

var kinds = map[string]string{
	"*seth.Int": "int", "*seth.Address": "addr", "*seth.Data": "data", "*seth.Bytes": "bytes",
	"*seth.IntSlice": "ints", "*seth.AddrSlice": "addrs", "*seth.DataSlice": "datas",
}
var outKinds = map[string]string{
	"seth.Int": "int", "seth.Address": "addr", "seth.Data": "data", "[]uint8": "raw", "seth.Bytes": "raw",
	"seth.IntSlice": "ints", "seth.AddrSlice": "addrs", "seth.DataSlice": "datas", "seth.Hash": "hash",
	"string": "string", "bool": "bool", "uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64",
	"int8": "i8", "int16": "i16", "int32": "i32", "int64": "i64",
}

func kind(m map[string]string, t reflect.Type) string {
	if k := m[t.String()]; k != "" {
		return k
	}
	return t.String()
}

func arg(t reflect.Type, v val) reflect.Value {
	switch t.String() {
	case "*seth.Int":
		return reflect.ValueOf((*seth.Int)(el{v.Neg, v.B}.big()))
	case "*seth.Address":
		a := new(seth.Address)
		copy(a[:], raw(v.B))
		return reflect.ValueOf(a)
	case "*seth.Data":
		d := seth.Data(raw(v.B))
		return reflect.ValueOf(&d)
	case "*seth.Bytes":
		d := seth.Bytes(raw(v.B))
		return reflect.ValueOf(&d)
	case "*seth.IntSlice":
		s := new(seth.IntSlice)
		for _, e := range v.L {
			*s = append(*s, seth.Int(*e.big()))
		}
		return reflect.ValueOf(s)
	case "*seth.AddrSlice":
		s := new(seth.AddrSlice)
		for _, e := range v.L {
			var a seth.Address
			copy(a[:], raw(e.B))
			*s = append(*s, a)
		}
		return reflect.ValueOf(s)
	case "*seth.DataSlice":
		s := new(seth.DataSlice)
		for _, e := range v.L {
			*s = append(*s, raw(e.B))
		}
		return reflect.ValueOf(s)
	}
	return reflect.Zero(t)
}

func num(n *big.Int) val { e := elBig(n); return val{e.Neg, e.B, []el{}} }
func bin(b []byte) val   { return val{false, ints(b), []el{}} }

func result(v interface{}) val {
	l := val{B: []int{}, L: []el{}}
	switch v := v.(type) {
	case seth.Int:
		return num(v.Big())
	case seth.Address:
		return bin(v[:])
	case seth.Hash:
		return bin(v[:])
	case seth.Data:
		return bin(v)
	case seth.Bytes:
		return bin(v)
	case []byte:
		return bin(v)
	case string:
		return bin([]byte(v))
	case bool:
		if v {
			return num(big.NewInt(1))
		}
		return num(big.NewInt(0))
	case seth.IntSlice:
		for i := range v {
			l.L = append(l.L, elBig(v[i].Big()))
		}
		return l
	case seth.AddrSlice:
		for i := range v {
			l.L = append(l.L, el{false, ints(v[i][:])})
		}
		return l
	case seth.DataSlice:
		for i := range v {
			l.L = append(l.L, el{false, ints(v[i])})
		}
		return l
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return num(new(big.Int).SetUint64(r.Uint()))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return num(big.NewInt(r.Int()))
	}
	return l
}

type node struct {
	reqs []M
	ans  []string
}

func (n *node) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	p := map[string]string{}
	if len(req.Params) > 0 {
		var m map[string]interface{}
		json.Unmarshal(req.Params[0], &m)
		for k, v := range m {
			p[k] = fmt.Sprint(v)
		}
	}
	data := []int{-1}
	if len(p["data"]) >= 2 {
		if b, err := hex.DecodeString(p["data"][2:]); err == nil {
			data = ints(b)
		}
	}
	n.reqs = append(n.reqs, M{"m": req.Method, "to": p["to"], "from": p["from"], "data": data})
	res.ID = req.ID
	switch req.Method {
	case "eth_estimateGas":
		res.Result = json.RawMessage("\"0x5208\"")
	default:
		if len(n.ans) == 0 {
			res.Error.Code = -32000
			res.Error.Message = "refused"
		} else {
			res.Result, _ = json.Marshal(n.ans[0])
		}
	}
	return nil
}

func main() {
	var plan struct {
		To, From string
		Calls    []struct {
			C, M string
			Args []val
			Ans  []string
		}
	}
	if err := json.NewDecoder(os.Stdin).Decode(&plan); err != nil {
		panic(err)
	}
	out := json.NewEncoder(os.Stdout)
	to, _ := seth.ParseAddress(plan.To)
	from, _ := seth.ParseAddress(plan.From)
	n := new(node)
	s := seth.NewSender(seth.NewClientTransport(n), from)
	objs := map[string]reflect.Value{}
	for _, c := range order {
		v := reflect.ValueOf(ctors[c]).Call([]reflect.Value{reflect.ValueOf(to), reflect.ValueOf(s)})[0]
		objs[c] = v
		ms := []M{}
		for i := 0; i < v.Type().NumMethod(); i++ {
			t := v.Method(i).Type()
			ins, outs := []string{}, []string{}
			for j := 0; j < t.NumIn(); j++ {
				ins = append(ins, kind(kinds, t.In(j)))
			}
			for j := 0; j < t.NumOut(); j++ {
				outs = append(outs, kind(outKinds, t.Out(j)))
			}
			if len(outs) == 0 || outs[len(outs)-1] != "error" {
				outs = append(outs, "no error")
			} else {
				outs = outs[:len(outs)-1]
			}
			ms = append(ms, M{"name": v.Type().Method(i).Name, "ins": ins, "outs": outs})
		}
		out.Encode(M{"op": "methods", "c": c, "ms": ms})
		if codes != nil {
			out.Encode(M{"op": "code", "c": c, "code": ints(codes[c])})
		}
	}
	for _, k := range plan.Calls {
		m := objs[k.C].MethodByName(k.M)
		n.reqs, n.ans = []M{}, k.Ans
		e := M{"op": "invoke", "st": "ok", "vals": []val{}, "reqs": []M{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					e["st"] = "panic: " + fmt.Sprint(r)
				}
			}()
			var args []reflect.Value
			for i := range k.Args {
				args = append(args, arg(m.Type().In(i), k.Args[i]))
			}
			res := m.Call(args)
			if err := res[len(res)-1]; !err.IsNil() {
				e["st"] = "err"
				return
			}
			vals := []val{}
			for _, r := range res[:len(res)-1] {
				vals = append(vals, result(r.Interface()))
			}
			e["vals"] = vals
		}()
		e["reqs"] = n.reqs
		out.Encode(e)
	}
}
`

var (
	bindInts       = []string{"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "int24", "uint24", "uint112", "int128", "uint128", "int256", "uint256"}
	bindFixed      = []string{"bytes1", "bytes4", "bytes20", "bytes32"}
	bindIntLists   = []string{"bool[]", "uint8[]", "uint64[]", "uint128[]", "uint256[]", "int256[]"}
	bindFixedLists = []string{"bytes4[]", "bytes32[]"}
	bindOther      = []string{"address", "address", "address[]", "bytes", "string"}
	bindNames      = []string{"get", "set", "transfer", "balanceOf", "x", "type", "func", "range", "addr", "s", "send", "err", "ret0", "arg0", "Capital", "aB", "f1", "f2", "f3", "string", "nil", "d", "z", "seth", "error"}
)

func bindKind(t string) string {
	in := func(l []string) bool {
		for _, x := range l {
			if x == t {
				return true
			}
		}
		return false
	}
	switch {
	case in(bindInts):
		return "int"
	case in(bindFixed):
		return "data"
	case in(bindIntLists):
		return "ints"
	case in(bindFixedLists):
		return "datas"
	case t == "address":
		return "addr"
	case t == "address[]":
		return "addrs"
	}
	return "bytes"
}

type bindFn struct {
	Kind string
	Name string
	Ins  []string
	Outs []string
	View bool
}

func (f *bindFn) goName() string { return strings.ToUpper(f.Name[:1]) + f.Name[1:] }
func (f *bindFn) sig() string    { return f.Name + "(" + strings.Join(f.Ins, ",") + ")" }

type bindContract struct {
	name string
	code []byte
	fns  []*bindFn
}

type bindWorld struct {
	t    *Trace
	r    *rand.Rand
	dir  string
	exe  string
	av   *abiWorld
	cs   []*bindContract
	made int
}

func (w *bindWorld) typ() string {
	switch w.r.Intn(7) {
	case 0, 1:
		return bindInts[w.r.Intn(len(bindInts))]
	case 2:
		return bindFixed[w.r.Intn(len(bindFixed))]
	case 3:
		return bindIntLists[w.r.Intn(len(bindIntLists))]
	case 4:
		return bindFixedLists[w.r.Intn(len(bindFixedLists))]
	}
	return bindOther[w.r.Intn(len(bindOther))]
}

func (w *bindWorld) types(n int) []string {
	o := []string{}
	for ; n > 0; n-- {
		o = append(o, w.typ())
	}
	return o
}

// what every contract has besides the functions of a script
func (w *bindWorld) contract(i int, fns []*bindFn) *bindContract {
	r := w.r
	c := &bindContract{name: []string{"Token", "tok", "C", "Wallet_", "A1"}[r.Intn(5)] + fmt.Sprint(i), fns: fns}
	if len(w.cs) > 0 && r.Intn(2) == 0 {
		// a name that is almost that of another one
		if n := w.near(); !w.named(n) {
			c.name = n
		}
	}
	c.code = make([]byte, r.Intn(60))
	r.Read(c.code)
	used := map[string]bool{}
	for _, f := range fns {
		used[f.goName()] = true
	}
	for n := r.Intn(5); n > 0; n-- {
		f := &bindFn{Kind: "function", Name: bindNames[r.Intn(len(bindNames))], Ins: w.types(r.Intn(5)), Outs: w.types(r.Intn(4)), View: r.Intn(2) == 0}
		if !used[f.goName()] {
			used[f.goName()] = true
			c.fns = append(c.fns, f)
		}
	}
	if r.Intn(2) == 0 {
		c.fns = append(c.fns, &bindFn{Kind: "event", Name: "Transfer", Ins: []string{"address", "address", "uint256"}, Outs: []string{}})
	}
	if r.Intn(3) == 0 {
		c.fns = append(c.fns, &bindFn{Kind: "constructor", Name: "", Ins: w.types(r.Intn(2)), Outs: []string{}})
	}
	if r.Intn(3) == 0 {
		c.fns = append(c.fns, &bindFn{Kind: "fallback", Name: "", Ins: []string{}, Outs: []string{}})
	}
	if len(c.fns) > 0 && r.Intn(4) == 0 {
		// an event with the name and inputs of a function
		f := c.fns[r.Intn(len(c.fns))]
		c.fns = append(c.fns, &bindFn{Kind: "event", Name: f.Name, Ins: f.Ins, Outs: []string{}})
	}
	r.Shuffle(len(c.fns), func(i, j int) { c.fns[i], c.fns[j] = c.fns[j], c.fns[i] })
	return c
}

func (w *bindWorld) named(n string) bool {
	for _, c := range w.cs {
		if c.name == n {
			return true
		}
	}
	return false
}

// a name like that of a contract
func (w *bindWorld) near() string {
	n := w.cs[w.r.Intn(len(w.cs))].name
	switch w.r.Intn(6) {
	case 0:
		return n + "2"
	case 1:
		return n[:len(n)-1] + "_"
	case 2:
		if u := strings.ToUpper(n[:1]) + n[1:]; u != n {
			return u
		}
		return strings.ToLower(n[:1]) + n[1:]
	case 3:
		if len(n) > 2 {
			return n[:len(n)-1]
		}
	}
	return "My" + n
}

// what the compiler prints
func (w *bindWorld) solc() []byte {
	cons, srcs := M{}, M{}
	per := M{}
	for _, c := range w.cs {
		l := A{}
		for _, f := range c.fns {
			d := M{"type": f.Kind, "payable": false}
			ps := func(ts []string, pre string) A {
				o := A{}
				for i, t := range ts {
					p := M{"name": fmt.Sprint(pre, i), "type": t}
					if f.Kind == "event" {
						p["indexed"] = i < 2
					}
					o = append(o, p)
				}
				return o
			}
			d["inputs"] = ps(f.Ins, []string{"", "arg", "a"}[w.r.Intn(3)])
			if f.Kind == "function" {
				d["name"] = f.Name
				d["outputs"] = ps(f.Outs, []string{"", "ret"}[w.r.Intn(2)])
				mut := []string{"nonpayable", "payable"}[w.r.Intn(2)]
				if f.View {
					mut = []string{"view", "pure"}[w.r.Intn(2)]
				}
				d["stateMutability"] = mut
				// newer compilers only give the mutability
				if w.r.Intn(3) > 0 {
					d["constant"] = f.View
				} else {
					delete(d, "payable")
				}
			} else if f.Kind == "event" {
				d["name"] = f.Name
				d["anonymous"] = false
			}
			l = append(l, d)
		}
		per[c.name] = M{"abi": l, "evm": M{"bytecode": M{"object": hex.EncodeToString(c.code), "sourceMap": ""}}}
	}
	srcs["a.sol"] = M{"id": 0}
	cons["a.sol"] = per
	b, err := json.Marshal(M{"sources": srcs, "contracts": cons})
	cMust(err)
	return b
}

func (w *bindWorld) given() A {
	l := A{}
	for _, c := range w.cs {
		fs := A{}
		for _, f := range c.fns {
			g := ""
			if f.Name != "" {
				g = f.goName()
			}
			fs = append(fs, M{"kind": f.Kind, "name": f.Name, "go": g, "ins": f.Ins, "outs": f.Outs, "view": f.View})
		}
		l = append(l, M{"name": c.name, "code": ints(c.code), "abi": fs})
	}
	return l
}

// encode makes what a node returns for values of types
func (w *bindWorld) encode(ts []string) []byte {
	word := func(k string, e abiEl) []byte {
		b := make([]byte, 32)
		switch k {
		case "int":
			n := e.big()
			if n.Sign() < 0 {
				n.Add(n, new(big.Int).Lsh(big.NewInt(1), 256))
			}
			x := n.Bytes()
			copy(b[32-len(x):], x)
		case "addr":
			copy(b[12:], raw(e.B))
		default:
			copy(b, raw(e.B))
		}
		return b
	}
	num := func(n int) []byte { return word("int", elInt(big.NewInt(int64(n)))) }
	var head, tail []byte
	for _, t := range ts {
		k := bindKind(t)
		v := w.value(k)
		switch k {
		case "int", "addr", "data":
			e := abiEl{v.Neg, v.B}
			if k == "int" && w.r.Intn(4) > 0 {
				e = elInt(w.within(t))
			}
			head = append(head, word(k, e)...)
		case "bytes":
			head = append(head, num(32*len(ts)+len(tail))...)
			b := raw(v.B)
			tail = append(tail, num(len(b))...)
			tail = append(tail, b...)
			tail = append(tail, make([]byte, (32-len(b)%32)%32)...)
		default:
			head = append(head, num(32*len(ts)+len(tail))...)
			tail = append(tail, num(len(v.L))...)
			for _, e := range v.L {
				tail = append(tail, word(strings.TrimSuffix(k, "s"), e)...)
			}
		}
	}
	return append(head, tail...)
}

// okClass is a class of values that can be encoded
func (w *bindWorld) okClass(k string) string {
	for {
		c := w.av.anyClass(k)
		if c != "over" && c != "under" && !(k == "data" && (c == "33" || c == "40")) {
			return c
		}
	}
}

func (w *bindWorld) value(k string) abiVal {
	for {
		if v := w.av.class(k, w.okClass(k)); encodable(k, v) {
			return v
		}
	}
}

// within gives a number of a type
func (w *bindWorld) within(t string) *big.Int {
	bits := 1
	fmt.Sscanf(strings.TrimLeft(t, "uint"), "%d", &bits)
	n := new(big.Int).Rand(w.r, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	if w.r.Intn(4) == 0 {
		n = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(int64(w.r.Intn(2)+1)))
	}
	if t[0] == 'i' {
		n.Sub(n, new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
	}
	return n
}

func encodable(k string, v abiVal) bool {
	fit := func(e abiEl) bool {
		n := e.big()
		if n.Sign() < 0 {
			return n.Cmp(new(big.Int).Lsh(big.NewInt(-1), 255)) >= 0
		}
		return n.BitLen() <= 256
	}
	switch k {
	case "int":
		return fit(abiEl{v.Neg, v.B})
	case "ints":
		for _, e := range v.L {
			if !fit(e) {
				return false
			}
		}
	case "data":
		return len(v.B) <= 32
	case "datas":
		for _, e := range v.L {
			if len(e.B) > 32 {
				return false
			}
		}
	}
	return true
}

func (w *bindWorld) bind(names []string, code bool, gopath string) (string, bool) {
	w.made++
	out := filepath.Join(w.dir, fmt.Sprintf("gen%d.go", w.made))
	src := filepath.Join(w.dir, "a.sol")
	args := []string{"-c=" + strings.Join(names, ",")}
	env := os.Environ()
	if code {
		args = append(args, "-b")
	}
	if w.r.Intn(2) == 0 {
		args = append(args, "-p", "main")
	} else {
		env = append(env, "GOPACKAGE=main")
	}
	toStdout := w.r.Intn(3) == 0
	if !toStdout {
		args = append(args, "-o", out)
	}
	c := exec.Command(w.exe, append(args, src)...)
	c.Dir = w.dir
	c.Env = env
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	st := "ok"
	if err != nil {
		st = "err"
		if _, exit := err.(*exec.ExitError); !exit {
			panic("HARNESS BUG: bindgen: " + err.Error())
		}
		if strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "goroutine ") {
			st = "panic: " + se.String()
		}
	}
	if toStdout && so.Len() > 0 {
		cMust(ioutil.WriteFile(out, so.Bytes(), 0600))
	}
	_, ferr := os.Stat(out)
	ns := A{}
	for _, n := range names {
		ns = append(ns, n)
	}
	w.t.Emit(M{"op": "bind", "names": ns, "code": code, "st": st, "wrote": ferr == nil})
	return out, st == "ok" && ferr == nil
}

func driveBindgen(t *Trace, a *Args) {
	root, err := ioutil.TempDir(os.Getenv("VSCRATCH"), "bindgen")
	cMust(err)
	root, _ = filepath.Abs(root)
	bin := filepath.Join(root, "bin")
	cMust(os.Mkdir(bin, 0700))
	cMust(ioutil.WriteFile(filepath.Join(bin, "solc"), []byte(solcScript), 0700))
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	defer os.RemoveAll(root)
	var shapes []*bindFn
	for _, s := range a.Scripts {
		f := new(bindFn)
		cMust(json.Unmarshal(s, f))
		f.Kind = "function"
		shapes = append(shapes, f)
	}
	a.Rng.Shuffle(len(shapes), func(i, j int) { shapes[i], shapes[j] = shapes[j], shapes[i] })
	for i := 0; i < a.N; i++ {
		n := len(shapes) / (a.N - i)
		w := &bindWorld{t: t, r: a.Rng, exe: a.Bin, dir: filepath.Join(root, fmt.Sprint("w", i))}
		w.av = &abiWorld{r: a.Rng}
		cMust(os.Mkdir(w.dir, 0700))
		w.run(shapes[:n], a.Steps, a.Data)
		shapes = shapes[n:]
		os.RemoveAll(w.dir)
	}
}

func (w *bindWorld) run(shapes []*bindFn, steps int, mod string) {
	r, t := w.r, w.t
	t.Emit(M{"op": "reset"})
	for i := 0; len(shapes) > 0 || i < 4; i++ {
		n := r.Intn(8)
		if n > len(shapes) {
			n = len(shapes)
		}
		for j, f := range shapes[:n] {
			f.Name = fmt.Sprintf("fn%d", j)
		}
		w.cs = append(w.cs, w.contract(i, shapes[:n:n]))
		shapes = shapes[n:]
	}
	os.Setenv("VSOLC", w.dir)
	os.Setenv("TMPDIR", filepath.Join(w.dir, "tmp"))
	cMust(os.Mkdir(filepath.Join(w.dir, "tmp"), 0700))
	cMust(ioutil.WriteFile(filepath.Join(w.dir, "plan"), w.solc(), 0600))
	cMust(ioutil.WriteFile(filepath.Join(w.dir, "code"), []byte("0\n"), 0600))
	cMust(ioutil.WriteFile(filepath.Join(w.dir, "a.sol"), []byte(fmt.Sprint("contract ", r.Int63())), 0600))
	t.Emit(M{"op": "given", "cs": w.given()})

	// descriptors and metadata
	w.lookups()

	// a package of some of them, and one of what isn't there
	var names []string
	by := map[string]*bindContract{}
	for _, c := range w.cs {
		if r.Intn(8) > 0 {
			names = append(names, c.name)
			by[c.name] = c
		}
	}
	if len(names) == 0 {
		names = []string{w.cs[0].name}
		by[names[0]] = w.cs[0]
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	none := "Nothing"
	for i := 0; i < 4; i++ {
		if n := w.near(); !w.named(n) && i%2 == 0 {
			none = n
		}
	}
	bad := append(append([]string{}, names...), none)
	r.Shuffle(len(bad), func(i, j int) { bad[i], bad[j] = bad[j], bad[i] })
	w.bind(bad, r.Intn(2) == 0, "")
	code := r.Intn(3) > 0
	gen, ok := w.bind(names, code, "")
	if !ok {
		return
	}

	// the program
	dir := filepath.Join(w.dir, "prog")
	cMust(os.Mkdir(dir, 0700))
	cMust(os.Rename(gen, filepath.Join(dir, "gen.go")))
	cMust(ioutil.WriteFile(filepath.Join(dir, "main.go"), []byte(bindMain), 0600))
	reg := "package main\n\nvar order = []string{"
	for _, n := range names {
		reg += fmt.Sprintf("%q, ", n)
	}
	reg += "}\nvar ctors = map[string]interface{}{\n"
	for _, n := range names {
		reg += fmt.Sprintf("%q: New%s,\n", n, n)
	}
	reg += "}\nvar codes map[string][]byte\n"
	if code {
		reg += "func init() { codes = map[string][]byte{\n"
		for _, n := range names {
			reg += fmt.Sprintf("%q: %sCode,\n", n, n)
		}
		reg += "} }\n"
	}
	cMust(ioutil.WriteFile(filepath.Join(dir, "reg.go"), []byte(reg), 0600))
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := ioutil.ReadFile(filepath.Join(mod, f))
		cMust(err)
		cMust(ioutil.WriteFile(filepath.Join(dir, f), b, 0600))
	}
	os.Setenv("TMPDIR", "/tmp")
	c := exec.Command("go", "build", "-mod=mod", "-o", "prog", ".")
	c.Dir = dir
	o, err := c.CombinedOutput()
	if err != nil {
		os.Stderr.Write(o)
		if !bytes.Contains(o, []byte("gen.go:")) && !bytes.Contains(o, []byte("reg.go:")) {
			panic("HARNESS BUG: the program doesn't build: " + string(o))
		}
	}
	t.Emit(M{"op": "built", "ok": err == nil})
	if err != nil {
		return
	}

	// the calls
	addr := func() string {
		b := make([]byte, 20)
		r.Read(b)
		return "0x" + hex.EncodeToString(b)
	}
	to, from := addr(), addr()
	calls, events := A{}, []M{}
	for _, n := range names {
		for _, f := range by[n].fns {
			if f.Kind != "function" || f.View && len(f.Outs) == 0 {
				continue
			}
			for k := 0; k < steps; k++ {
				args := A{}
				for _, ty := range f.Ins {
					kd := bindKind(ty)
					args = append(args, w.value(kd))
				}
				ans, evans := A{}, A{}
				if r.Intn(12) > 0 {
					b := make([]byte, 32)
					r.Read(b)
					if f.View {
						b = w.encode(f.Outs)
						switch r.Intn(10) {
						case 0:
							b = b[:r.Intn(len(b)+1)]
						case 1:
							b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
						case 2:
							b = append(b, make([]byte, r.Intn(40))...)
						}
					}
					ans = A{"0x" + hex.EncodeToString(b)}
					evans = A{ints(b)}
				}
				calls = append(calls, M{"C": n, "M": f.goName(), "Args": args, "Ans": ans})
				events = append(events, M{"c": n, "m": f.goName(), "sel": M{f.sig(): ints(crypto.Keccak256([]byte(f.sig()))[:4])}, "to": to, "from": from, "args": args, "ans": evans})
			}
		}
	}
	plan, err := json.Marshal(M{"To": to, "From": from, "Calls": calls})
	cMust(err)
	c = exec.Command(filepath.Join(dir, "prog"))
	c.Stdin = bytes.NewReader(plan)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Run(); err != nil {
		t.Emit(M{"op": "CRASH", "what": se.String()})
		return
	}
	dec := json.NewDecoder(&so)
	for i := 0; dec.More(); {
		e := M{}
		cMust(dec.Decode(&e))
		if e["op"] == "invoke" {
			for k, v := range events[i] {
				e[k] = v
			}
			i++
		}
		t.Emit(e)
	}
}

func (w *bindWorld) lookups() {
	r, t := w.r, w.t
	for n := 0; n < 6; n++ {
		c := w.cs[r.Intn(len(w.cs))]
		cc := &seth.CompiledContract{}
		var sigs []string
		for _, f := range c.fns {
			d := seth.ABIDescriptor{Type: f.Kind, Name: f.Name}
			for _, ty := range f.Ins {
				d.Inputs = append(d.Inputs, seth.ABIParam{Type: ty})
			}
			cc.ABI = append(cc.ABI, d)
			sigs = append(sigs, f.sig(), f.Name+"("+strings.Join(f.Ins, ", ")+")", f.Name+"()", f.Name)
		}
		sigs = append(sigs, "nothing()", "()", "")
		s := sigs[r.Intn(len(sigs))]
		i := 0
		if d := cc.Find(s); d != nil {
			i = -1
			for k := range cc.ABI {
				if d == &cc.ABI[k] {
					i = k + 1
				}
			}
		}
		t.Emit(M{"op": "find", "c": c.name, "desc": s, "i": i})
	}
	pre := []byte{0xa1, 0x65, 'b', 'z', 'z', 'r', '0', 0x58, 0x20}
	for n := 0; n < 4; n++ {
		code := make([]byte, r.Intn(4)*r.Intn(30))
		r.Read(code)
		meta := append(append([]byte{}, pre...), make([]byte, 32)...)
		r.Read(meta[9:])
		meta = append(meta, 0, 0x29)
		switch r.Intn(6) {
		case 0:
			meta = meta[r.Intn(len(meta)):]
		case 1:
			meta[r.Intn(len(meta))] ^= 1
		case 2:
			meta = append(meta, 0)
		case 3:
			meta = append(meta, meta...)
		}
		code = append(code, meta...)
		in := append([]byte{}, code...)
		h := seth.MetadataHash(code)
		out := seth.StripBytecode(code)
		if !bytes.Equal(in, code) {
			t.Emit(M{"op": "CHANGED"})
		}
		t.Emit(M{"op": "strip", "code": ints(in), "out": ints(out), "hash": ints(h)})
	}
}
