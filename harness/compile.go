package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/philhofer/seth"
)

func init() { drivers["compile"] = driveCompile }

// ---- the compiler: notes what it is given and prints what it is told to

const solcScript = `#!/bin/sh
{ echo "$*"; /bin/cat; } > "$VSOLC/log.$$"
/bin/cat "$VSOLC/plan"
read c < "$VSOLC/code"
exit $c
`

type solcPlan struct {
	Out  []byte
	Code int
}

// ---- ABI descriptors, apart from the code under test

type cParam struct {
	Name, Type string
	Indexed    bool
	Components []cParam
}

type cDesc struct {
	Type, Name      string
	Inputs, Outputs []cParam
	Payable         bool
	Mutability      string
	Constant        bool
	Anonymous       bool
}

func (p *cParam) m() M {
	e := M{"name": p.Name, "type": p.Type, "indexed": p.Indexed, "internalType": "x"}
	if len(p.Components) > 0 {
		var l A
		for i := range p.Components {
			l = append(l, p.Components[i].m())
		}
		e["components"] = l
	}
	return e
}

func (d *cDesc) m() M {
	in, out := A{}, A{}
	for i := range d.Inputs {
		in = append(in, d.Inputs[i].m())
	}
	for i := range d.Outputs {
		out = append(out, d.Outputs[i].m())
	}
	return M{"type": d.Type, "name": d.Name, "inputs": in, "outputs": out, "payable": d.Payable, "stateMutability": d.Mutability,
		"constant": d.Constant, "anonymous": d.Anonymous}
}

func cParams(ps []cParam) string {
	var s []string
	for _, p := range ps {
		s = append(s, fmt.Sprintf("%s %s %v (%s)", p.Name, p.Type, p.Indexed, cParams(p.Components)))
	}
	return strings.Join(s, ",")
}

func cText(ds []cDesc) string {
	var s []string
	for _, d := range ds {
		s = append(s, fmt.Sprintf("%s %s [%s] [%s] %v %s %v %v", d.Type, d.Name, cParams(d.Inputs), cParams(d.Outputs), d.Payable, d.Mutability, d.Constant, d.Anonymous))
	}
	return strings.Join(s, ";")
}

func cFromParams(ps []seth.ABIParam) (out []cParam) {
	for _, p := range ps {
		out = append(out, cParam{p.Name, p.Type, p.Indexed, cFromParams(p.Components)})
	}
	return
}

func cFromABI(ds []seth.ABIDescriptor) (out []cDesc) {
	for _, d := range ds {
		out = append(out, cDesc{d.Type, d.Name, cFromParams(d.Inputs), cFromParams(d.Outputs), d.Payable, d.Mutability, d.Constant, d.Anonymous})
	}
	return
}

// ---- the world of one history

type cKey map[string]string

func (k cKey) list() A {
	var ns []string
	for n := range k {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	l := A{}
	for _, n := range ns {
		l = append(l, M{"name": n, "body": k[n]})
	}
	return l
}

func (k cKey) id() string { b, _ := json.Marshal(k.list()); return string(b) }

type compWorld struct {
	t     *Trace
	r     *rand.Rand
	dir   string // of this history
	tmps  []string
	src   string
	solc  string
	bin   string
	keys  map[string]cKey              // every key seen
	files map[string]map[string]string // file of a cache -> id of keys kept in it
	block map[string]bool
	made  int
	last  M
}

func cMust(err error) {
	if err != nil {
		panic("HARNESS BUG: " + err.Error())
	}
}

func (w *compWorld) path(tmp string) string { return filepath.Join(w.dir, tmp) }

// digest of everything that compilations have no business with
func (w *compWorld) rest() string {
	skip := map[string]bool{w.solc: true, w.path("src"): true, w.path("lib"): true}
	for _, t := range w.tmps {
		if !w.block[t] {
			skip[filepath.Join(w.path(t), "tevm")] = true
		}
	}
	h := sha256.New()
	filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		cMust(err)
		if skip[p] {
			if fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		fmt.Fprintf(h, "%q %v\n", p, fi.Mode())
		if fi.Mode().IsRegular() {
			b, err := ioutil.ReadFile(p)
			cMust(err)
			fmt.Fprintf(h, "%x\n", sha256.Sum256(b))
		}
		return nil
	})
	return hex.EncodeToString(h.Sum(nil)[:12])
}

// the files of a cache
func (w *compWorld) listing(tmp string) map[string]string {
	m := map[string]string{}
	d := filepath.Join(w.path(tmp), "tevm")
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := ioutil.ReadFile(p)
			m[p] = fmt.Sprintf("%x %v", sha256.Sum256(b), fi.ModTime().UnixNano())
		}
		return nil
	})
	return m
}

func (w *compWorld) other() { w.t.Emit(M{"op": "other", "rest": w.rest()}) }

var cTypes = []string{"uint256", "address", "bytes", "bool[3]", "string", "bytes32[]"}

func (w *compWorld) params(n int) []cParam {
	ps := []cParam{}
	for i := w.r.Intn(n); i > 0; i-- {
		p := cParam{Name: []string{"", "a", "to", "_x"}[w.r.Intn(4)], Type: cTypes[w.r.Intn(len(cTypes))], Indexed: w.r.Intn(4) == 0}
		if w.r.Intn(6) == 0 && n > 1 {
			p.Type = "tuple"
			p.Components = w.params(n - 1)
		}
		ps = append(ps, p)
	}
	return ps
}

func (w *compWorld) abi() []cDesc {
	ds := []cDesc{}
	for i := w.r.Intn(4); i > 0; i-- {
		d := cDesc{Type: []string{"function", "constructor", "event", "fallback"}[w.r.Intn(4)], Name: []string{"f", "g", ""}[w.r.Intn(3)],
			Inputs: w.params(4), Outputs: w.params(3), Payable: w.r.Intn(2) == 0, Constant: w.r.Intn(2) == 0, Anonymous: w.r.Intn(5) == 0,
			Mutability: []string{"pure", "view", "payable", "nonpayable", ""}[w.r.Intn(5)]}
		ds = append(ds, d)
	}
	w.made++
	ds = append(ds, cDesc{Type: "function", Name: fmt.Sprintf("f%d", w.made)})
	return ds
}

// output plans a run of the compiler on sources
func (w *compWorld) output(key cKey, good bool) (M, solcPlan) {
	r := w.r
	names := []string{}
	for _, e := range key.list() {
		names = append(names, e.(M)["name"].(string))
	}
	if r.Intn(4) == 0 {
		names = append(names, "imported.sol")
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	if r.Intn(5) == 0 {
		i := r.Intn(len(names) + 1)
		names = append(names[:i:i], append([]string{""}, names[i:]...)...)
		for len(names) > 0 && names[len(names)-1] == "" {
			names = names[:len(names)-1]
		}
	}
	srcs, cons := M{}, M{}
	clist := A{}
	spoilt := !good && r.Intn(6) == 0
	for i, n := range names {
		if n == "" {
			continue
		}
		srcs[n] = M{"id": i}
		cs := M{}
		for _, c := range []string{"C", "D", "Token"} {
			if r.Intn(3) > 0 && !(spoilt && len(clist) == 0) {
				continue
			}
			code := make([]byte, r.Intn(40))
			r.Read(code)
			obj := hex.EncodeToString(code)
			smap := []string{"", "0:1:0:-", ";;1:2;", "10:20:-1:i;:::o"}[r.Intn(4)]
			abi := w.abi()
			var l A
			for i := range abi {
				l = append(l, abi[i].m())
			}
			if spoilt && len(clist) == 0 {
				obj += "__" + n + ":Lib______"
			}
			cs[c] = M{"abi": l, "evm": M{"bytecode": M{"object": obj, "sourceMap": smap, "opcodes": "STOP", "linkReferences": M{}}}}
			clist = append(clist, M{"name": c, "code": hex.EncodeToString(code), "map": smap, "abi": cText(abi)})
		}
		if len(cs) > 0 || r.Intn(2) == 0 {
			cons[n] = cs
		}
	}
	errs, warn := A{}, A{}
	warnings := func(n int) {
		for ; n > 0; n-- {
			w.made++
			m := fmt.Sprintf("Warning: %d", w.made)
			errs = append(errs, M{"type": "Warning", "formattedMessage": m, "message": "m", "component": "general",
				"sourceLocation": M{"file": "a", "start": 0, "end": 5}})
			warn = append(warn, m)
		}
	}
	warnings(r.Intn(3))
	st := "ok"
	p := solcPlan{}
	how := r.Intn(5)
	if !good {
		st = "err"
		if !spoilt && how == 0 {
			errs = append(errs, M{"type": []string{"ParserError", "TypeError", "InternalCompilerError"}[r.Intn(3)], "formattedMessage": "bad", "message": "m",
				"component": "general"})
			warnings(r.Intn(2))
		}
	}
	out := M{"errors": errs, "sources": srcs, "contracts": cons}
	if len(errs) == 0 && r.Intn(2) == 0 {
		delete(out, "errors")
	}
	b, _ := json.Marshal(out)
	b = append(b, '\n')
	if !good && !spoilt {
		switch how {
		case 1:
			p.Code = 1
		case 2:
			b = []byte("solc: no such option\n")
		case 3:
			b = b[:r.Intn(len(b)-1)]
		case 4:
			b = b[:r.Intn(len(b)-1)]
			p.Code = 1
		}
	}
	p.Out = b
	ids := A{}
	for _, n := range names {
		ids = append(ids, n)
	}
	return M{"st": st, "ids": ids, "contracts": clist, "warnings": warn}, p
}

func cBundle(b *seth.CompiledBundle) M {
	fs, ss, cs, ws := A{}, A{}, A{}, A{}
	if b != nil {
		for _, s := range b.Filenames {
			fs = append(fs, s)
		}
		for _, s := range b.Sources {
			ss = append(ss, s)
		}
		for _, c := range b.Contracts {
			cs = append(cs, M{"name": c.Name, "code": hex.EncodeToString(c.Code), "map": c.Sourcemap, "abi": cText(cFromABI(c.ABI))})
		}
		for _, s := range b.Warnings {
			ws = append(ws, s)
		}
	}
	return M{"files": fs, "sources": ss, "contracts": cs, "warnings": ws}
}

// the runs of the compiler since the last look
func (w *compWorld) runs() (A, string) {
	runs := A{}
	set := ""
	logs, _ := filepath.Glob(filepath.Join(w.solc, "log.*"))
	for _, p := range logs {
		b, err := ioutil.ReadFile(p)
		cMust(err)
		os.Remove(p)
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			continue
		}
		args := string(b[:i])
		var in map[string]interface{}
		if json.Unmarshal(b[i:], &in) != nil {
			in = M{}
		}
		k := cKey{}
		if m, ok := in["sources"].(map[string]interface{}); ok {
			for n, v := range m {
				if v, ok := v.(map[string]interface{}); ok {
					k[n], _ = v["content"].(string)
				}
			}
		}
		delete(in, "sources")
		x, _ := json.Marshal(in)
		set = fmt.Sprintf("%q %s", args, x)
		runs = append(runs, k.list())
	}
	return runs, set
}

// run does one compilation; ev has the fields of its event
func (w *compWorld) run(ev M, tmp string, key cKey, good bool, fn func() (*seth.CompiledBundle, error)) {
	out, plan := w.output(key, good)
	cMust(ioutil.WriteFile(filepath.Join(w.solc, "plan"), plan.Out, 0600))
	cMust(ioutil.WriteFile(filepath.Join(w.solc, "code"), []byte(fmt.Sprintln(plan.Code)), 0600))
	present := w.r.Intn(20) > 0
	os.Setenv("TMPDIR", w.path(tmp))
	os.Setenv("VSOLC", w.solc)
	if present {
		os.Setenv("PATH", w.bin)
	} else {
		os.Setenv("PATH", w.path("src"))
		out["st"] = "err"
	}
	before := w.listing(tmp)
	ev["out"], ev["present"], ev["st"], ev["tmp"] = out, present, "ok", tmp
	var got *seth.CompiledBundle
	if !w.t.try("compile", func() {
		b, err := fn()
		got = b
		if err != nil {
			ev["st"] = "err"
			if b != nil {
				ev["st"] = "both"
			}
		} else if b == nil {
			ev["st"] = "nothing"
		}
	}) {
		return
	}
	ev["got"] = cBundle(got)
	runs, set := w.runs()
	ev["runs"], ev["set"], ev["rest"] = runs, set, w.rest()
	w.t.Emit(ev)
	after := w.listing(tmp)
	id := key.id()
	for p := range w.files {
		if _, ok := after[p]; !ok && strings.HasPrefix(p, w.path(tmp)+"/") {
			delete(w.files, p)
		}
	}
	for p, v := range after {
		if before[p] != v {
			if w.files[p] == nil {
				w.files[p] = map[string]string{}
			}
			w.files[p][id] = tmp
		}
	}
	w.keys[id] = key
	if got == nil {
		return
	}
	if w.r.Intn(4) == 0 {
		name := []string{"C", "D", "Token", "c", ""}[w.r.Intn(5)]
		e := M{"op": "find", "name": name, "got": ev["got"], "i": 0}
		if w.t.try("Contract", func() {
			c := got.Contract(name)
			for i := range got.Contracts {
				if c == &got.Contracts[i] {
					e["i"] = i + 1
				}
			}
			if c != nil && e["i"] == 0 {
				e["i"] = -1
			}
		}) {
			w.t.Emit(e)
		}
	}
	// what the caller does with its bundle is its own business
	for i := range got.Sources {
		got.Sources[i] += "!"
	}
	for i := range got.Contracts {
		for j := range got.Contracts[i].Code {
			got.Contracts[i].Code[j]++
		}
		got.Contracts[i].Name = "?"
	}
}

func (w *compWorld) compile(tmp string, key cKey, good bool) {
	var l []seth.Source
	for n, b := range key {
		l = append(l, seth.Source{Filename: n, Body: b})
	}
	w.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	w.run(M{"op": "compile", "srcs": key.list()}, tmp, key, good, func() (*seth.CompiledBundle, error) { return seth.Compile(l) })
}

func (w *compWorld) str(tmp, code string, good bool) {
	w.run(M{"op": "string", "code": code}, tmp, cKey{"<stdin>": code}, good, func() (*seth.CompiledBundle, error) { return seth.CompileString(code) })
}

func (w *compWorld) glob(tmp, dir, let string, good bool) {
	key := cKey{}
	fs, _ := ioutil.ReadDir(filepath.Join(w.dir, dir))
	for _, f := range fs {
		if let == "*" || f.Name()[:1] == let {
			b, _ := ioutil.ReadFile(filepath.Join(w.dir, dir, f.Name()))
			key[dir+"/"+f.Name()] = string(b)
		}
	}
	pat := dir + "/" + let + "*.sol"
	if let == "*" {
		pat = dir + "/*.sol"
	}
	w.run(M{"op": "glob", "dir": dir, "let": let}, tmp, key, good, func() (*seth.CompiledBundle, error) { return seth.CompileGlob(pat) })
}

func (w *compWorld) write(dir, name, body string) {
	p := filepath.Join(w.dir, dir, name)
	os.RemoveAll(p)
	if body == "/" {
		cMust(os.Mkdir(p, 0700))
	} else {
		cMust(ioutil.WriteFile(p, []byte(body), 0600))
	}
	w.t.Emit(M{"op": "write", "file": M{"path": dir + "/" + name, "dir": dir, "let": name[:1], "body": body}})
}

func (w *compWorld) unlink(dir, name string) {
	os.RemoveAll(filepath.Join(w.dir, dir, name))
	w.t.Emit(M{"op": "unlink", "path": dir + "/" + name})
}

// spoil damages the files of a cache in which a key is kept
func (w *compWorld) spoil(id string, tmp string) {
	var ps []string
	for p, ids := range w.files {
		if ids[id] == tmp && (id != "" || strings.HasPrefix(p, w.path(tmp)+"/")) {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	if len(ps) == 0 {
		return
	}
	p := ps[w.r.Intn(len(ps))]
	b, err := ioutil.ReadFile(p)
	if err != nil || len(b) == 0 {
		return
	}
	r := w.r
	switch k := r.Intn(12); {
	case k < 2:
		b = b[:r.Intn(len(b))]
	case k == 2:
		m := r.Intn(12)
		if m > len(b) {
			m = len(b)
		}
		b = b[:len(b)-m]
	case k == 3:
		b = b[:r.Intn(12)%len(b)]
	case k < 7:
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	case k == 7:
		for i := r.Intn(len(b)); i < len(b); i++ {
			b[i] = 0
		}
	case k == 8:
		i := r.Intn(len(b))
		b[i] = byte(r.Intn(256))
	case k == 9:
		b = append(b, b...)
	case k == 10:
		b = []byte("not a bundle")
	case k == 11:
		b = nil
		cMust(os.Remove(p))
	}
	if b != nil {
		cMust(ioutil.WriteFile(p, b, 0600))
	}
	keys := A{}
	var ids []string
	for k := range w.files[p] {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		keys = append(keys, w.keys[k].list())
	}
	w.t.Emit(M{"op": "spoil", "tmp": tmp, "keys": keys})
}

// keep is some key that is kept, and where
func (w *compWorld) kept() (string, string) {
	var l [][2]string
	for _, ids := range w.files {
		for id, tmp := range ids {
			l = append(l, [2]string{id, tmp})
		}
	}
	if len(l) == 0 {
		return "", ""
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0]+l[i][1] < l[j][0]+l[j][1] })
	x := l[w.r.Intn(len(l))]
	return x[0], x[1]
}

func (w *compWorld) toggle(tmp string) {
	p := filepath.Join(w.path(tmp), "tevm")
	os.RemoveAll(p)
	for f := range w.files {
		if strings.HasPrefix(f, w.path(tmp)+"/") {
			delete(w.files, f)
		}
	}
	if w.block[tmp] {
		delete(w.block, tmp)
		w.t.Emit(M{"op": "unblock", "tmp": tmp})
	} else {
		w.block[tmp] = true
		cMust(ioutil.WriteFile(p, []byte("in the way"), 0600))
		w.t.Emit(M{"op": "block", "tmp": tmp})
	}
	w.other()
}

// decoy puts copies of cached files elsewhere
func (w *compWorld) decoy() {
	var ps []string
	for p := range w.files {
		ps = append(ps, p)
	}
	if len(ps) == 0 {
		return
	}
	sort.Strings(ps)
	p := ps[w.r.Intn(len(ps))]
	b, err := ioutil.ReadFile(p)
	if err != nil {
		return
	}
	base := filepath.Base(p)
	for _, d := range []string{"gxy/tevm", "t1", "t", "t-2", "t-2/tevm-x", "elsewhere/tevm", "g[x]y/sub"} {
		d = filepath.Join(w.dir, d)
		cMust(os.MkdirAll(d, 0700))
		cMust(ioutil.WriteFile(filepath.Join(d, base), b, 0600))
		if i := strings.IndexByte(base, '-'); i >= 0 {
			cMust(ioutil.WriteFile(filepath.Join(d, base[:i+1]+"000000000000.bundle"), b, 0600))
		}
	}
	w.other()
}

func newCompWorld(t *Trace, r *rand.Rand, root, bin string) *compWorld {
	dir, err := ioutil.TempDir(root, "h")
	cMust(err)
	w := &compWorld{t: t, r: r, dir: dir, bin: bin, keys: map[string]cKey{}, files: map[string]map[string]string{}, block: map[string]bool{}}
	w.tmps = []string{"t1", "t-2/x", "g[x]y"}
	for _, d := range append([]string{"src", "lib", "gxy/tevm", "solc"}, w.tmps...) {
		cMust(os.MkdirAll(filepath.Join(dir, d), 0700))
	}
	for _, f := range []string{"gxy/tevm/abc-def.bundle", "t1/abc-def.bundle", "t-2/abc-def.bundle", "t-1"} {
		cMust(ioutil.WriteFile(filepath.Join(dir, f), []byte("mine"), 0600))
	}
	w.solc = filepath.Join(dir, "solc")
	cMust(os.Chdir(dir))
	t.Reset("rest", w.rest())
	return w
}

var (
	cNames  = []string{"a", "b", "ab", "aa", "ba", "1:a", "11:a", "src/a.sol", "src/b.sol", "a1:b"}
	cBodies = []string{"", "x", "y", "xy", "yx", "x1:y", "1:x", "contract C {}", "contract \"D\" { /* <&> \u00e9 */ }\n", "0:", "1:1:"}
)

func (w *compWorld) key() cKey {
	k := cKey{}
	for i := 1 + w.r.Intn(3); i > 0; i-- {
		b := cBodies[w.r.Intn(len(cBodies))]
		if w.r.Intn(8) == 0 {
			b = strings.Repeat(b+"z", 1+w.r.Intn(3000))
		}
		k[cNames[w.r.Intn(len(cNames))]] = b
	}
	return k
}

// vary makes a key that is nearly another one
func (w *compWorld) vary(k cKey) cKey {
	n := cKey{}
	var ns []string
	for a, b := range k {
		n[a] = b
		ns = append(ns, a)
	}
	sort.Strings(ns)
	a := ns[w.r.Intn(len(ns))]
	b := ns[w.r.Intn(len(ns))]
	switch w.r.Intn(6) {
	case 0:
		n[a], n[b] = n[b], n[a]
	case 1:
		n[a] += " "
	case 2:
		// the boundary between two texts moves
		if s := n[b]; len(s) > 0 && a < b && s[0] < 0x80 {
			n[a], n[b] = n[a]+s[:1], s[1:]
		}
	case 3:
		if s := n[a]; len(s) > 0 {
			i := w.r.Intn(len(s))
			if s[i] < 0x80 {
				n[a] = s[:i] + string(rune('A'+w.r.Intn(26))) + s[i+1:]
			}
		}
	case 4:
		v := n[a]
		delete(n, a)
		n[a+"b"] = v
	case 5:
		n[cNames[w.r.Intn(len(cNames))]] = cBodies[w.r.Intn(len(cBodies))]
	}
	return n
}

func driveCompile(t *Trace, a *Args) {
	root, err := ioutil.TempDir(os.Getenv("VSCRATCH"), "compile")
	cMust(err)
	root, _ = filepath.Abs(root)
	bin := filepath.Join(root, "bin")
	cMust(os.Mkdir(bin, 0700))
	cMust(ioutil.WriteFile(filepath.Join(bin, "solc"), []byte(solcScript), 0700))
	wd, _ := os.Getwd()
	defer func() { os.Chdir(wd); os.RemoveAll(root) }()
	for _, s := range a.Scripts {
		w := newCompWorld(t, a.Rng, root, bin)
		w.script(s)
		os.RemoveAll(w.dir)
	}
	for i := 0; i < a.N; i++ {
		w := newCompWorld(t, a.Rng, root, bin)
		w.random(a.Steps)
		os.RemoveAll(w.dir)
	}
}

func (w *compWorld) script(raw json.RawMessage) {
	var ops []struct {
		Op, Tmp, Name, Body, Let string
		Key                      map[string]string
		Good                     bool
	}
	cMust(json.Unmarshal(raw, &ops))
	r := w.r
	i := r.Intn(3)
	tmp := map[string]string{"t": w.tmps[i], "u": w.tmps[(i+1)%3]}
	x := cBodies[1:][r.Intn(len(cBodies)-1)]
	body := map[string]string{"x": x, "y": w.vary(cKey{"q": x})["q"]}
	if body["y"] == x || body["y"] == "" {
		body["y"] = x + "\n"
	}
	key := func(k map[string]string) cKey {
		m := cKey{}
		for a, b := range k {
			m["src/"+a+".sol"] = body[b]
		}
		return m
	}
	for _, o := range ops {
		switch o.Op {
		case "compile":
			w.compile(tmp[o.Tmp], key(o.Key), o.Good)
		case "glob":
			w.glob(tmp[o.Tmp], "src", o.Let, true)
		case "spoil":
			w.spoil(key(o.Key).id(), tmp[o.Tmp])
		case "write":
			w.write("src", o.Name+".sol", body[o.Body])
		case "unlink":
			w.unlink("src", o.Name+".sol")
		default:
			panic("HARNESS BUG: " + o.Op)
		}
	}
}

func (w *compWorld) random(steps int) {
	r := w.r
	pool := []cKey{w.key(), w.key()}
	for len(pool) < 5 {
		pool = append(pool, w.vary(pool[r.Intn(len(pool))]))
	}
	cur := w.tmps[r.Intn(3)]
	fns := []string{"a.sol", "b.sol", "ab.sol", "c.sol"}
	dirs := []string{"src", "lib"}
	for ; steps > 0; steps-- {
		if r.Intn(12) == 0 {
			cur = w.tmps[r.Intn(3)]
		}
		good := r.Intn(5) > 0
		switch k := r.Intn(24); {
		case k < 12:
			i := r.Intn(len(pool))
			w.compile(cur, pool[i], good)
			if r.Intn(6) == 0 {
				pool[i] = w.vary(pool[i])
			}
		case k < 14:
			w.glob(cur, dirs[r.Intn(2)], []string{"*", "*", "a", "b", "z"}[r.Intn(5)], good)
		case k == 14:
			w.str(cur, cBodies[r.Intn(len(cBodies))], good)
		case k < 17:
			b := cBodies[r.Intn(len(cBodies))]
			if r.Intn(12) == 0 {
				b = "/"
			}
			w.write(dirs[r.Intn(2)], fns[r.Intn(4)], b)
		case k == 17:
			w.unlink(dirs[r.Intn(2)], fns[r.Intn(4)])
		case k < 22:
			id, tmp := w.kept()
			if id != "" {
				w.spoil(id, tmp)
				if r.Intn(2) == 0 {
					w.compile(tmp, w.keys[id], good)
				}
			}
		case k == 22:
			if r.Intn(3) == 0 {
				w.toggle(cur)
			}
		case k == 23:
			w.decoy()
		}
	}
}
