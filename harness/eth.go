package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/philhofer/seth"
)

func init() { drivers["eth"] = driveEth }

// ---- terminals: passphrases are only read from one

func openTerminal() (master, slave *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	cMust(err)
	ctl := func(req uintptr, p *uint32) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), req, uintptr(unsafe.Pointer(p))); e != 0 {
			panic("HARNESS BUG: pty: " + e.Error())
		}
	}
	var lock, num uint32
	ctl(0x40045431, &lock)
	ctl(0x80045430, &num)
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", num), os.O_RDWR|syscall.O_NOCTTY, 0)
	cMust(err)
	return m, s
}

// ---- the node

type ethNode struct {
	mu     sync.Mutex
	srv    *httptest.Server
	mode   string // up, down, reject
	takes  int    // how many raw transactions it takes; -1: all
	nonce  int
	code   map[string][]byte
	ret    []byte
	bal    *big.Int
	sent   []M
	raw    [][]byte
	hashes []string
	calls  []M
	asked  []string
}

func (n *ethNode) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	body, _ := ioutil.ReadAll(req.Body)
	var q struct {
		ID     json.RawMessage   `json:"id"`
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if json.Unmarshal(body, &q) != nil {
		n.asked = append(n.asked, "garbage")
		rw.WriteHeader(400)
		return
	}
	n.asked = append(n.asked, q.Method)
	str := func(i int) string {
		var s string
		if i < len(q.Params) {
			json.Unmarshal(q.Params[i], &s)
		}
		return s
	}
	var res interface{}
	fail := n.mode == "down"
	switch q.Method {
	case "eth_getCode":
		res = hx(n.code[strings.ToLower(str(0))])
	case "eth_getTransactionCount":
		res = fmt.Sprintf("0x%x", n.nonce)
	case "eth_estimateGas":
		res = "0x5208"
	case "eth_gasPrice":
		res = "0x77"
	case "eth_getBalance":
		res = "0x" + n.bal.Text(16)
	case "eth_call":
		var o struct{ From, To, Data string }
		if len(q.Params) > 0 {
			json.Unmarshal(q.Params[0], &o)
		}
		n.calls = append(n.calls, M{"to": ints(unhexMust(o.To)), "data": ints(unhexMust(o.Data))})
		res = hx(n.ret)
	case "eth_sendRawTransaction":
		b, err := hex.DecodeString(strings.TrimPrefix(str(0), "0x"))
		if err != nil {
			b = []byte("not hex")
		}
		h := hx(crypto.Keccak256(b, []byte{byte(len(n.raw))}))
		if n.mode == "reject" || n.takes >= 0 && len(n.raw) >= n.takes {
			fail = true
		}
		n.raw = append(n.raw, b)
		n.hashes = append(n.hashes, h)
		n.sent = append(n.sent, ethTx(b, h))
		res = h
	default:
		if strings.HasPrefix(q.Method, "eth_send") || strings.Contains(q.Method, "sign") || strings.HasPrefix(q.Method, "personal") {
			n.sent = append(n.sent, M{"from": "node", "to": A{}, "data": A{}, "value": A{}, "gp": A{}, "nonce": 0, "hash": q.Method})
		}
		fail = true
	}
	rw.Header().Set("content-type", "application/json")
	out := M{"jsonrpc": "2.0", "id": q.ID}
	if fail {
		out["error"] = M{"code": -32000, "message": "no"}
	} else {
		out["result"] = res
	}
	b, _ := json.Marshal(out)
	rw.Write(b)
}

func unhexMust(s string) []byte {
	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil {
		return []byte("not hex")
	}
	return b
}

// ethTx is a raw transaction read by other code
func ethTx(b []byte, hash string) M {
	bad := M{"from": "garbled", "to": A{}, "data": A{}, "value": A{}, "gp": A{}, "nonce": 0, "hash": hash}
	tx := new(types.Transaction)
	if rlp.DecodeBytes(b, tx) != nil {
		return bad
	}
	from, err := types.Sender(types.NewEIP155Signer(big.NewInt(1)), tx)
	if err != nil || tx.Nonce() > 1<<30 {
		return bad
	}
	to := []int{}
	if tx.To() != nil {
		to = ints(tx.To()[:])
	}
	return M{"from": strings.ToLower(from.Hex()), "to": to, "data": ints(tx.Data()), "value": ints(tx.Value().Bytes()),
		"gp": ints(tx.GasPrice().Bytes()), "nonce": int(tx.Nonce()), "hash": hash}
}

// ---- the world of one history

type ethFile struct {
	Valid bool   `json:"valid"`
	Shown string `json:"shown"`
	ID    string `json:"id"`
	Addr  string `json:"addr"`
	Key   string `json:"key"`
	Pass  string `json:"pass"`
	Opens bool   `json:"opens"`
}

type ethAlt struct {
	LS   bool     `json:"ls"`
	Toks []string `json:"toks"`
	RS   bool     `json:"rs"`
}

type ethEntry struct {
	Sel []int `json:"sel"`
	PC  int   `json:"pc"`
}

type ethWorld struct {
	h     *Hist
	r     *rand.Rand
	bin   string
	dir   string
	node  *ethNode
	kw    *keyWorld // makes key files
	keys  [][]byte
	addrs []string
	files map[string]map[string]ethFile
	cons  []string // contracts
	sels  map[string][]string
}

const ethChars = "0123456789abcdefghijklmnopqrstuvwxyz"

func newEthWorld(h *Hist, r *rand.Rand, bin string) *ethWorld {
	dir, err := ioutil.TempDir("", "veth")
	cMust(err)
	w := &ethWorld{h: h, r: r, bin: bin, dir: dir, files: map[string]map[string]ethFile{}, sels: map[string][]string{}}
	w.node = &ethNode{mode: "up", takes: -1, code: map[string][]byte{}, bal: new(big.Int)}
	w.node.srv = httptest.NewUnstartedServer(w.node)
	if w.node.srv.Listener == nil {
		w.node.srv.Listener, err = net.Listen("tcp", "127.0.0.1:0")
		cMust(err)
	}
	w.node.srv.Start()
	w.kw = &keyWorld{h: new(Hist), r: r}
	h.Emit(M{"op": "reset"})
	for i := 0; i < 3; i++ {
		b := w.kw.rnd(32)
		b[0] &= 0x7f
		w.keys = append(w.keys, b)
		_, a, _ := refKey(b)
		w.addrs = append(w.addrs, a)
	}
	return w
}

func (w *ethWorld) close() {
	w.node.srv.Close()
	os.RemoveAll(w.dir)
}

// the directories: two of them are where other programs keep their keys
func (w *ethWorld) path(d string) string {
	switch d {
	case "h1":
		return filepath.Join(w.dir, "home/.parity/keys/ethereum")
	case "h2":
		return filepath.Join(w.dir, "home/.ethereum/keystore")
	}
	return filepath.Join(w.dir, d)
}

func (w *ethWorld) mkdir(d string) {
	cMust(os.MkdirAll(w.path(d), 0700))
	if w.files[d] == nil {
		w.files[d] = map[string]ethFile{}
	}
	w.h.Emit(M{"op": "mkdir", "d": d})
}

func (w *ethWorld) rmdir(d string) {
	cMust(os.RemoveAll(w.path(d)))
	delete(w.files, d)
	w.h.Emit(M{"op": "rmdir", "d": d})
}

type ethPut struct {
	Form, Name, ID, Pass string
	K                    int    // the key in the file
	Ad                   string // own, none, other, upper
}

func (w *ethWorld) put(d, name string, p ethPut) {
	if w.files[d] == nil {
		w.mkdir(d)
	}
	at := filepath.Join(w.path(d), name)
	cMust(os.RemoveAll(at))
	k := new(seth.PrivateKey)
	copy(k[:], w.keys[p.K])
	w.kw.make(0, []string{"pbkdf2", "pbkdf2", "scrypt"}[w.r.Intn(3)], k, p.Pass, false)
	kf := w.kw.files[0]
	kf.Name, kf.ID = p.Name, p.ID
	f := ethFile{Valid: true, Shown: p.Name, ID: p.ID, Key: w.addrs[p.K], Pass: p.Pass, Opens: true}
	if p.Name == "" {
		f.Shown = p.ID
	}
	switch p.Ad {
	case "own", "upper":
		f.Addr = w.addrs[p.K]
	case "other":
		f.Addr = w.addrs[[3]int{1, 0, 0}[p.K]]
	}
	if f.Addr != "" {
		kf.Address = f.Addr[2:]
		if p.Ad == "upper" {
			kf.Address = strings.ToUpper(kf.Address)
		}
	}
	f.Valid = false
	switch p.Form {
	case "good":
		f.Valid = true
	case "broken":
		f.Valid, f.Opens = true, false
		b := []byte(kf.Crypto.MAC)
		i := w.r.Intn(len(b))
		if b[i] == '0' {
			b[i] = '1'
		} else {
			b[i] = '0'
		}
		kf.Crypto.MAC = string(b)
	case "noid":
		kf.ID = ""
	case "nocipher":
		kf.Crypto.Cipher = ""
	case "nomac":
		kf.Crypto.MAC = ""
	case "nokdf":
		kf.Crypto.KDF = ""
	case "nover":
		kf.Version = 0
	}
	b, _ := json.Marshal(kf)
	switch p.Form {
	case "truncated":
		b = b[:len(b)/2]
	case "array":
		b = append(append([]byte("["), b...), ']')
	case "empty":
		b = nil
	case "text":
		b = []byte("not a key " + w.addrs[p.K])
	}
	switch p.Form {
	case "subdir":
		cMust(os.MkdirAll(at, 0700))
		cMust(ioutil.WriteFile(filepath.Join(at, "key.json"), b, 0600))
	case "dangling":
		cMust(os.Symlink(filepath.Join(w.dir, "nowhere"), at))
	default:
		cMust(ioutil.WriteFile(at, b, 0600))
	}
	w.files[d][name] = f
	w.h.Emit(M{"op": "put", "d": d, "name": name, "f": f})
}

func (w *ethWorld) remove(d, name string) {
	cMust(os.RemoveAll(filepath.Join(w.path(d), name)))
	delete(w.files[d], name)
	w.h.Emit(M{"op": "remove", "d": d, "name": name})
}

// ---- running the command

// ethSel is how a key is to be chosen
type ethSel struct {
	Paths []string
	Pat   []ethAlt
	Bad   bool
	Typed string
}

func (s *ethSel) spec() string {
	if s.Bad {
		return []string{"a[", "(", "*a", "a(b"}[len(s.Typed)%4]
	}
	var as []string
	for _, a := range s.Pat {
		t := strings.Join(a.Toks, "")
		if a.LS {
			t = "^" + t
		}
		if a.RS {
			t += "$"
		}
		as = append(as, t)
	}
	return strings.Join(as, "|")
}

func (s *ethSel) into(e M) M {
	e["paths"], e["pat"], e["bad"], e["spec"], e["typed"] = s.Paths, s.Pat, s.Bad, s.spec(), s.Typed
	if s.Pat == nil {
		e["pat"] = A{}
	}
	return e
}

type ethRun struct {
	exit     int
	out, err string
	crashed  bool
}

func (w *ethWorld) run(s *ethSel, cmd string, args ...string) *ethRun {
	n := w.node
	n.mu.Lock()
	n.sent, n.raw, n.calls, n.asked, n.hashes = nil, nil, nil, nil, nil
	n.mu.Unlock()
	if w.r.Intn(8) == 0 {
		args = append([]string{"-v"}, args...)
	}
	c := exec.Command(w.bin, append([]string{cmd}, args...)...)
	home := filepath.Join(w.dir, "home")
	c.Env = []string{"HOME=" + home, "SETH_URL=" + n.srv.URL, "PATH=/usr/bin:/bin"}
	if s != nil {
		c.Env = append(c.Env, "ETHER_ADDR="+s.spec())
		if len(s.Paths) > 0 && s.Paths[0][0] != 'h' {
			var ps []string
			for _, p := range s.Paths {
				ps = append(ps, w.path(p))
			}
			c.Env = append(c.Env, "KEY_PATH="+strings.Join(ps, ":"))
		}
	}
	m, sl := openTerminal()
	defer m.Close()
	defer sl.Close()
	if s != nil {
		m.WriteString(s.Typed + "\n")
	}
	var out, errb bytes.Buffer
	c.Stdin, c.Stdout, c.Stderr = sl, &out, &errb
	c.Dir = w.dir
	cMust(c.Start())
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		r := &ethRun{out: out.String(), err: errb.String()}
		if err != nil {
			r.exit = c.ProcessState.ExitCode()
			if r.exit == 0 {
				r.exit = -1
			}
		}
		r.crashed = strings.Contains(r.err, "goroutine ") || r.exit < 0
		return r
	case <-time.After(60 * time.Second):
		c.Process.Kill()
		<-done
		w.h.Emit(M{"op": "HANG", "cmd": cmd, "args": args})
		return &ethRun{exit: -1, crashed: true}
	}
}

// emit adds what was seen to the event
func (w *ethWorld) emit(e M, r *ethRun) {
	n := w.node
	n.mu.Lock()
	defer n.mu.Unlock()
	if r.crashed {
		w.h.Emit(M{"op": "CRASH", "event": e, "stderr": r.err})
		return
	}
	e["exit"], e["out"] = r.exit, strings.TrimSuffix(r.out, "\n")
	e["sent"] = A{}
	if len(n.sent) > 0 {
		e["sent"] = n.sent
	}
	if s := r.err; len(s) > 300 {
		e["stderr"] = s[:300]
	} else {
		e["stderr"] = s
	}
	w.h.Emit(e)
}

func codes(s string) []int { return ints([]byte(s)) }

type ethCall struct {
	To, Sig string
	Args    []string
	Force   bool
	N       int
	G       *big.Int
}

func ethSelector(sig string) []int { return ints(crypto.Keccak256([]byte(sig))[:4]) }

func (w *ethWorld) call(s *ethSel, c *ethCall, node string) {
	var fl []string
	if c.Force {
		fl = append(fl, "-f")
	}
	if c.N != -1 {
		fl = append(fl, fmt.Sprintf("-n=%d", c.N))
	}
	g := big.NewInt(4)
	if c.G != nil {
		g = c.G
		fl = append(fl, "-g="+g.String())
	}
	w.node.mode, w.node.takes, w.node.nonce = node, -1, w.r.Intn(300)
	r := w.run(s, "call", append(append(fl, c.To, c.Sig), c.Args...)...)
	args := A{}
	for _, a := range c.Args {
		args = append(args, codes(a))
	}
	w.emit(s.into(M{"op": "call", "to": codes(c.To), "sig": c.Sig, "sel": ethSelector(c.Sig), "args": args, "force": c.Force,
		"n": c.N, "g": M{"neg": g.Sign() < 0, "b": ints(g.Bytes())}, "nonce": w.node.nonce, "node": node}), r)
}

func (w *ethWorld) sign(s *ethSel) {
	r := w.r
	content := w.kw.rnd([]int{0, 1, 31, 32, 32, 33, 200}[r.Intn(7)])
	in := filepath.Join(w.dir, "input")
	cMust(ioutil.WriteFile(in, content, 0600))
	e := M{"op": "sign", "input": true, "hashed": false, "exact": len(content) == 32, "prefix": false, "both": false}
	var fl []string
	hash := crypto.Keccak256(content)
	if r.Intn(3) == 0 {
		e["prefix"] = true
		p := "\x19Ethereum Signed Message:\n" + strconv.Itoa(len(content))
		fl = append(fl, "-prefix", p)
		hash = crypto.Keccak256([]byte(p), content)
	}
	if r.Intn(3) == 0 {
		e["hashed"] = true
		fl = append(fl, "-h")
		hash = content
	}
	form := r.Intn(7)
	if form >= 2 && form <= 3 || form == 6 {
		fl = append(fl, "-x")
	}
	if form >= 4 {
		fl = append(fl, "-j")
	}
	e["both"] = form == 6
	if r.Intn(10) == 0 {
		e["input"] = false
		in += ".missing"
	}
	w.node.mode = "up"
	run := w.run(s, "sign", append(fl, in)...)
	sig := []byte(run.out)
	switch {
	case form == 2 || form == 3:
		sig, _ = hex.DecodeString(strings.TrimSuffix(strings.TrimPrefix(run.out, "0x"), "\n"))
	case form == 4 || form == 5:
		var p struct{ R, S, V string }
		json.Unmarshal([]byte(run.out), &p)
		sig = nil
		a, ok := new(big.Int).SetString(p.R, 0)
		b, ok2 := new(big.Int).SetString(p.S, 0)
		v, ok3 := new(big.Int).SetString(p.V, 0)
		if ok && ok2 && ok3 && v.IsInt64() && a.BitLen() <= 256 && b.BitLen() <= 256 && a.Sign() >= 0 && b.Sign() >= 0 {
			x := v.Int64()
			if x >= 27 {
				x -= 27
			}
			sig = append(append(pad32(a.Bytes()), pad32(b.Bytes())...), byte(x))
		}
	}
	by := "nobody"
	if len(sig) == 65 && len(hash) == 32 {
		if pub, err := crypto.SigToPub(hash, sig); err == nil {
			by = strings.ToLower(crypto.PubkeyToAddress(*pub).Hex())
		}
	}
	e["by"] = by
	if form < 2 && run.exit == 0 {
		run.out = "signature"
	}
	w.emit(s.into(e), run)
	if run.exit == 0 && len(sig) == 65 && r.Intn(3) == 0 {
		w.recover(hash, sig)
	}
}

func (w *ethWorld) recover(hash, sig []byte) {
	sig = append([]byte(nil), sig...)
	if w.r.Intn(3) == 0 {
		sig[w.r.Intn(64)] ^= 1 << uint(w.r.Intn(8))
	}
	ref := ""
	half := new(big.Int).SetBytes(sig[32:64])
	if half.Cmp(kHalf) <= 0 {
		if pub, err := crypto.SigToPub(hash, sig); err == nil {
			ref = strings.ToLower(crypto.PubkeyToAddress(*pub).Hex())
		}
	}
	r := w.run(nil, "recover", hx(sig), hx(hash))
	w.emit(M{"op": "recover", "ref": ref}, r)
}

func (w *ethWorld) list(paths []string) {
	r := w.run(&ethSel{Paths: paths}, "keys")
	l := A{}
	for _, line := range strings.Split(strings.TrimSuffix(r.out, "\n"), "\n") {
		if i := strings.LastIndexByte(line, ' '); i >= 0 {
			l = append(l, M{"shown": strings.TrimLeft(line[:i], " "), "addr": line[i+1:]})
		} else if line != "" {
			l = append(l, M{"shown": "?", "addr": line})
		}
	}
	w.emit(M{"op": "list", "paths": paths, "list": l}, r)
}

func (w *ethWorld) keygen(d, name string, toFile bool) {
	typed := kPasses[w.r.Intn(len(kPasses))]
	if strings.ContainsAny(typed, "\x00\n\r\x03\x04\x15\x16\x17\x12\x1a\x1c\x7f\x08\x11\x13\x0f") || typed == "" {
		typed = "pass word"
	}
	if w.files[d] == nil {
		w.mkdir(d)
	}
	fname := "generated" + strconv.Itoa(w.r.Intn(100))
	at := filepath.Join(w.path(d), fname)
	var args []string
	if toFile {
		args = append(args, "-o", at)
	}
	if name != "" {
		args = append(args, name)
	}
	r := w.run(&ethSel{Typed: typed}, "keygen", args...)
	if !toFile {
		cMust(ioutil.WriteFile(at, []byte(r.out), 0600))
	}
	b, _ := ioutil.ReadFile(at)
	kf := new(kFile)
	f := ethFile{Pass: typed}
	if json.Unmarshal(b, kf) == nil {
		f.ID, f.Shown, f.Valid = kf.ID, kf.Name, kf.ID != "" && kf.Version == 3
		if f.Shown == "" {
			f.Shown = f.ID
		}
		if kf.Address != "" {
			f.Addr = "0x" + strings.ToLower(kf.Address)
		}
		if k, ok := kf.open([]byte(typed)); ok {
			f.Opens = true
			_, f.Key, _ = refKey(k)
		}
	}
	w.emit(M{"op": "keygen", "name": name, "typed": typed, "f": f}, r)
	w.files[d][fname] = f
	w.h.Emit(M{"op": "put", "d": d, "name": fname, "f": f})
}

// ---- contracts

var ethPreambles = []string{
	"6000357c0100000000000000000000000000000000000000000000000000000000900463ffffffff16",
	"63ffffffff6000357c0100000000000000000000000000000000000000000000000000000000900416",
	"63ffffffff7c01000000000000000000000000000000000000000000000000000000006000350416",
	"6000357c01000000000000000000000000000000000000000000000000000000009004",
	"63ffffffff60e060020a6000350416",
	"60e060020a60003504",
}

// deploy gives an address code that dispatches on the methods; others are
// mentioned in it, but are no part of the table
func (w *ethWorld) deploy(addr, kind string, sigs, decoys []string) {
	r := w.r
	var code []byte
	es := []ethEntry{}
	noise := func(n int) {
		for ; n > 0; n-- {
			code = append(code, []byte{0x60, 0x40, 0x52, 0x34, 0x15, 0x5b, 0x80, 0x63, 0x00}[r.Intn(9)])
		}
	}
	if kind != "none" {
		code = append(code, 0x60, 0x60, 0x60, 0x40, 0x52)
		noise(r.Intn(8))
		for _, s := range decoys {
			code = append(append(code, 0x80, 0x63), crypto.Keccak256([]byte(s))[:4]...)
			code = append(code, 0x14, 0x61, 1, 2, 0x57)
		}
		if kind == "table" {
			b, _ := hex.DecodeString(ethPreambles[r.Intn(len(ethPreambles))])
			code = append(code, b...)
			for _, s := range sigs {
				sel := crypto.Keccak256([]byte(s))[:4]
				if r.Intn(2) == 0 {
					code = append(append(code, 0x80, 0x63), sel...)
				} else {
					code = append(append(code, 0x63), append(append([]byte(nil), sel...), 0x81)...)
				}
				n := 2
				if r.Intn(5) == 0 {
					n = 1 + r.Intn(4)
				}
				pc := w.kw.rnd(n)
				if n == 4 {
					pc[0] &= 0x7f
				}
				code = append(append(append(code, 0x14, 0x60+byte(n)-1), pc...), 0x57)
				es = append(es, ethEntry{ints(sel), int(new(big.Int).SetBytes(pc).Int64())})
			}
			code = append(code, 0x5b, 0x60, 0x00, 0x80, 0xfd)
		}
		for _, s := range decoys {
			code = append(append(code, 0x63), crypto.Keccak256([]byte(s))[:4]...)
			code = append(code, 0x81, 0x14, 0x61, 1, 2, 0x57)
		}
		code = append(code, make([]byte, 16)...)
	}
	w.node.mu.Lock()
	w.node.code[addr] = code
	w.node.mu.Unlock()
	w.sels[addr] = sigs
	w.h.Emit(M{"op": "deploy", "addr": ints(unhexMust(addr)), "kind": kind, "entries": es, "raw": hex.EncodeToString(code)})
}

func (w *ethWorld) code(to string) {
	w.node.mode = "up"
	r := w.run(nil, "code", to)
	w.emit(M{"op": "code", "to": codes(to)}, r)
}

func (w *ethWorld) jumptab(to string) {
	w.node.mode = "up"
	r := w.run(nil, "jumptab", to)
	l := A{}
	for _, line := range strings.Split(strings.TrimSuffix(r.out, "\n"), "\n") {
		if line == "" {
			continue
		}
		var sel string
		var pc int
		if i := strings.Index(line, " pc:"); i == 8 {
			sel = line[:8]
			fmt.Sscanf(line[12:], "%d", &pc)
		}
		l = append(l, ethEntry{ints(unhexMust(sel)), pc})
	}
	w.emit(M{"op": "jumptab", "to": codes(to), "list": l}, r)
}

func (w *ethWorld) post() {
	r := w.r
	w.node.mode, w.node.takes = "up", -1
	n := 1 + r.Intn(3)
	if r.Intn(4) == 0 {
		w.node.takes = r.Intn(n + 1)
	}
	takes := w.node.takes
	var args []string
	parts := A{}
	for i := 0; i < n; i++ {
		at := filepath.Join(w.dir, "raw"+strconv.Itoa(i))
		s := hex.EncodeToString(w.kw.rnd(1 + r.Intn(80)))
		switch r.Intn(16) {
		case 0:
			s = ""
		case 1:
			s = s[1:]
		case 2:
			s = "zz" + s
		case 3:
			s = "0x" + s
		case 4:
			s = strings.ToUpper(s)
		case 5:
			s += "\n\n"
		}
		if r.Intn(2) == 0 && s != "" {
			s += "\n"
		}
		there := r.Intn(12) > 0
		os.Remove(at)
		if there {
			cMust(ioutil.WriteFile(at, []byte(s), 0600))
		}
		args = append(args, at)
		parts = append(parts, M{"there": there, "x": codes(s)})
	}
	run := w.run(nil, "post", args...)
	raw, hashes, l := A{}, A{}, A{}
	for i, b := range w.node.raw {
		raw = append(raw, ints(b))
		hashes = append(hashes, w.node.hashes[i])
	}
	for _, line := range strings.Split(run.out, "\n") {
		if line != "" {
			l = append(l, line)
		}
	}
	w.node.sent = nil // they are someone else's
	w.emit(M{"op": "post", "parts": parts, "takes": takes, "raw": raw, "hashes": hashes, "list": l}, run)
}

// ---- arguments

var ethTypes = []string{"uint256", "uint256", "int256", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "uint128", "int128",
	"address", "address", "bool", "bytes", "string", "bytes32", "bytes4", "bytes1", "bytes20", "uint256[]", "int8[]", "uint8[]", "address[]", "bool[]"}
var ethOddTypes = []string{"uint24", "int40", "uint", "int", "bytes33", "bytes0", "uint7", "uint264", "foo", "", " uint256", "bytes32[]", "bytes[]",
	"string[]", "uint256[][]", "uint24[]", "foo[]", "uint256[2]", "bytes32 ", "fixed128x18", "function", "Uint8", "int08", "bytes01"}
var ethClasses = []string{"in", "in", "max", "over", "min", "under", "minus1", "zero", "hex", "odd", "junk", "empty"}

func (w *ethWorld) hexText(n int) string {
	s := hex.EncodeToString(w.kw.rnd(n))
	if w.r.Intn(4) == 0 {
		s = strings.ToUpper(s)
	}
	return s
}

func (w *ethWorld) intText(bits uint, signed bool, class string) string {
	r := w.r
	one := big.NewInt(1)
	lo, hi := new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits-1), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, bits-1))
	}
	v := new(big.Int)
	switch class {
	case "max":
		v = hi
	case "min":
		v = lo
	case "over":
		v.Add(hi, big.NewInt(int64(1+r.Intn(2)*r.Intn(300))))
		if r.Intn(4) == 0 {
			v.Add(v, new(big.Int).Lsh(hi, 8))
		} else if r.Intn(4) == 0 {
			v.Lsh(one, bits)
		} else if r.Intn(5) == 0 {
			v.Lsh(one, 256)
			v.Add(v, big.NewInt(5))
		}
	case "under":
		v.Sub(lo, big.NewInt(int64(1+r.Intn(2)*r.Intn(300))))
		if r.Intn(5) == 0 {
			v.Neg(new(big.Int).Lsh(one, 255+uint(r.Intn(2))))
		}
	case "minus1":
		v.SetInt64(-1)
	case "zero":
	case "junk":
		return []string{"abc", "1.5", "5 ", " 5", "1e3", "0xg", "--5", "five", "0x", "+", "-", "5,6"}[r.Intn(12)]
	case "odd":
		return []string{"+5", "010", "0b11", "1_000", "0X10", "-0x10", "0o7", "007", "-0", "0x"}[r.Intn(10)]
	case "empty":
		return ""
	default:
		v.Rand(r, new(big.Int).Add(new(big.Int).Sub(hi, lo), one))
		if k := uint(r.Intn(int(bits))); r.Intn(2) == 0 {
			v.Rsh(v, k)
		}
		v.Add(v, lo)
		if signed && r.Intn(3) == 0 {
			v.Rsh(v, uint(r.Intn(int(bits))))
		}
	}
	if v.Sign() >= 0 && (class == "hex" || r.Intn(3) == 0) {
		s := v.Text(16)
		if r.Intn(4) == 0 {
			s = strings.ToUpper(s)
		}
		if r.Intn(6) == 0 {
			s = "00" + s
		}
		return "0x" + s
	}
	return v.String()
}

func (w *ethWorld) argText(t, class string) string {
	r := w.r
	if strings.HasSuffix(t, "[]") {
		et := strings.TrimSuffix(t, "[]")
		if class == "junk" {
			return []string{"5", "[5", "5]", "[", "]", "[]]", "[[]]", "(5)", "{}"}[r.Intn(9)]
		}
		if class == "empty" {
			return []string{"[]", "", "[]", "[ ]", "[,]"}[r.Intn(5)]
		}
		var es []string
		for i := r.Intn(4); i >= 0; i-- {
			c := "in"
			if i == 0 && r.Intn(2) == 0 {
				c = class
			} else if r.Intn(8) == 0 {
				c = ethClasses[r.Intn(len(ethClasses))]
			}
			es = append(es, w.argText(et, c))
		}
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		return "[" + strings.Join(es, ",") + "]"
	}
	var bits uint
	if n, err := strconv.Atoi(strings.TrimPrefix(strings.TrimPrefix(t, "u"), "int")); err == nil && n > 0 && n < 300 && strings.Contains(t, "int") {
		bits = uint(n)
	} else if t == "int" || t == "uint" {
		bits = 256
	}
	if bits > 1 {
		return w.intText(bits, t[0] != 'u', class)
	}
	px := func(s string) string {
		if r.Intn(2) == 0 {
			return "0x" + s
		}
		return s
	}
	switch t {
	case "bool":
		return map[string]string{"in": "true", "max": "true", "min": "false", "zero": "false", "over": "2", "under": "-1", "minus1": "0",
			"hex": "0x1", "odd": "True", "junk": "yes", "empty": ""}[class]
	case "address":
		s := w.hexText(20)
		switch class {
		case "over":
			return "0x" + s + w.hexText(1+r.Intn(12))
		case "under":
			return "0x" + s[2*(1+r.Intn(3)):]
		case "minus1":
			return "-0x" + s[1:]
		case "odd":
			return []string{"0x" + s[1:], s, "0X" + s, "0x" + s + "0", s[2:]}[r.Intn(5)]
		case "junk":
			return []string{"0xzz" + s[2:], "alice", "0x" + s[:39] + "g", "0x" + s + " ", " 0x" + s}[r.Intn(5)]
		case "empty":
			return []string{"", "0x"}[r.Intn(2)]
		case "zero":
			return "0x" + strings.Repeat("0", 40)
		case "max":
			return "0x" + strings.Repeat("f", 40)
		}
		return "0x" + s
	case "bytes", "string":
		switch class {
		case "over":
			return px(w.hexText(33 + r.Intn(90)))
		case "odd":
			return px(w.hexText(1 + r.Intn(40))[1:])
		case "junk":
			return []string{"hello", "0xxyz1", "0x 1", "0X1234", "héllo"}[r.Intn(5)]
		case "empty":
			return []string{"", "0x"}[r.Intn(2)]
		case "zero":
			return px("00")
		case "max":
			return px(w.hexText(32))
		case "min":
			return px(w.hexText(1))
		}
		return px(w.hexText(r.Intn(70)))
	}
	if n, err := strconv.Atoi(strings.TrimPrefix(t, "bytes")); err == nil && n > 0 {
		switch class {
		case "over":
			return px(w.hexText(n + 1 + r.Intn(2)*r.Intn(8)))
		case "under":
			return px(w.hexText(n - 1 - r.Intn(2)*r.Intn(n)))
		case "odd":
			return px(w.hexText(n)[1:])
		case "junk":
			return px("zz" + w.hexText(n)[2:])
		case "empty":
			return px("")
		case "zero":
			return px(strings.Repeat("00", n))
		case "minus1":
			return "-1"
		}
		return px(w.hexText(n))
	}
	return []string{"1", "0x1234", "true"}[r.Intn(3)]
}

func (w *ethWorld) types(n int) []string {
	ts := []string{}
	for i := 0; i < n; i++ {
		if w.r.Intn(25) == 0 {
			ts = append(ts, ethOddTypes[w.r.Intn(len(ethOddTypes))])
		} else {
			ts = append(ts, ethTypes[w.r.Intn(len(ethTypes))])
		}
	}
	return ts
}

// method makes up a signature and arguments; mostly good ones
func (w *ethWorld) method(ts []string, classes []string) (string, []string) {
	r := w.r
	name := []string{"transfer", "f", "changeOwner", "a_b1", ""}[r.Intn(5)]
	if name == "" && len(ts) > 0 && r.Intn(8) > 0 {
		name = "g"
	}
	sig := name + "(" + strings.Join(ts, ",") + ")"
	var args []string
	for i, t := range ts {
		c := "in"
		if i < len(classes) {
			c = classes[i]
		} else if r.Intn(5) == 0 {
			c = ethClasses[r.Intn(len(ethClasses))]
		}
		args = append(args, w.argText(t, c))
	}
	switch r.Intn(150) {
	case 0:
		sig = sig[:len(sig)-1]
	case 1:
		sig += ")"
	case 2:
		sig = strings.Replace(sig, "(", "((", 1)
	case 3:
		sig = strings.Replace(sig, "(", "", 1)
	case 4:
		sig += "x"
	case 5:
		sig = ")("
	case 6:
		sig = ""
	case 7:
		sig = strings.Replace(sig, ")", ",)", 1)
	}
	return sig, args
}

// ---- patterns

func toks(s string) []string {
	var ts []string
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(".+*?()[]{}|^$\\", s[i]) >= 0 {
			ts = append(ts, "\\"+s[i:i+1])
		} else {
			ts = append(ts, s[i:i+1])
		}
	}
	if ts == nil {
		ts = []string{}
	}
	return ts
}

func (w *ethWorld) pattern(texts []string) []ethAlt {
	r := w.r
	alt := func() ethAlt {
		s := texts[r.Intn(len(texts))]
		a := ethAlt{true, toks(s), true}
		switch r.Intn(7) {
		case 0:
			a.LS = false
		case 1:
			a.RS = false
		case 2:
			a.LS, a.RS = false, false
		case 3:
			i := r.Intn(len(a.Toks) + 1)
			a.LS, a.RS = false, false
			a.Toks = a.Toks[i : i+r.Intn(len(a.Toks)+1-i)]
		case 4:
			i := r.Intn(len(a.Toks) + 1)
			a.RS = r.Intn(4) == 0
			a.Toks = a.Toks[:i]
		case 5:
			i := r.Intn(len(a.Toks) + 1)
			a.LS = r.Intn(4) == 0
			a.Toks = a.Toks[i:]
		}
		if len(a.Toks) > 0 && r.Intn(4) == 0 {
			a.Toks = append([]string(nil), a.Toks...)
			a.Toks[r.Intn(len(a.Toks))] = "."
		}
		return a
	}
	if r.Intn(25) == 0 {
		return nil
	}
	p := []ethAlt{alt()}
	for r.Intn(6) == 0 {
		p = append(p, alt())
	}
	// nothing at all is another thing
	if len(p) == 1 && len(p[0].Toks) == 0 && !p[0].LS && !p[0].RS {
		p[0].LS = true
	}
	return p
}

// ---- histories

var ethNames = []string{"", "", "alice", "bob", "al", "Alice", "my key", "a.b", "axb", "x+y", "0xdead"}
var ethForms = []string{"good", "good", "good", "good", "good", "good", "broken", "noid", "nocipher", "nomac", "nokdf", "nover", "truncated", "array", "empty",
	"text", "subdir", "dangling"}
var ethPass = []string{"p1", "p2", "secret", "a b c", "pass\"word", "x"}

func (w *ethWorld) anyPut() ethPut {
	r := w.r
	p := ethPut{Form: ethForms[r.Intn(len(ethForms))], Name: ethNames[r.Intn(len(ethNames))], Pass: ethPass[r.Intn(len(ethPass))],
		K: r.Intn(3), Ad: []string{"own", "own", "own", "none", "other", "upper"}[r.Intn(6)]}
	h := w.kw.hex(16)
	p.ID = h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
	if r.Intn(12) == 0 {
		p.Name = w.addrs[r.Intn(3)]
	}
	return p
}

func (w *ethWorld) anyPaths() []string {
	switch w.r.Intn(8) {
	case 0:
		return []string{"d1"}
	case 1:
		return []string{"d2"}
	case 2:
		return []string{"d1", "d3"}
	case 3:
		return []string{"h1", "h2"}
	case 4:
		return []string{"d2", "d1"}
	}
	return []string{"d1", "d2"}
}

func (w *ethWorld) here(paths []string) (fs []ethFile) {
	for _, p := range paths {
		var names []string
		for n := range w.files[p] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fs = append(fs, w.files[p][n])
		}
	}
	return
}

// all tells if the directories are there
func (w *ethWorld) all(paths []string) bool {
	for _, p := range paths {
		if w.files[p] == nil {
			return false
		}
	}
	return true
}

// anySel chooses a key; if good, it is one that works
func (w *ethWorld) anySel(good bool) *ethSel {
	r := w.r
	s := &ethSel{Paths: w.anyPaths(), Typed: ethPass[r.Intn(len(ethPass))]}
	for good && !w.all(s.Paths) && r.Intn(10) > 0 {
		s.Paths = w.anyPaths()
	}
	fs := w.here(s.Paths)
	var ok []ethFile
	for _, f := range fs {
		if f.Valid && f.Opens && (f.Addr == "" || f.Addr == f.Key) {
			ok = append(ok, f)
		}
	}
	if good {
		// one that no other goes by the name of
		var only []ethFile
		for _, f := range ok {
			k := 0
			for _, g := range fs {
				if g.Valid && (g.Shown == f.Shown || f.Addr != "" && g.Addr == f.Addr || g.ID == f.Shown) {
					k++
				}
			}
			if k == 1 {
				only = append(only, f)
			}
		}
		if only != nil {
			ok = only
		}
	}
	if len(ok) > 0 && (good || r.Intn(3) > 0) {
		f := ok[r.Intn(len(ok))]
		if good && r.Intn(4) > 0 && !w.all(s.Paths) {
			for _, d := range []string{"d1", "d2", "h1", "h2"} {
				w.mkdir(d)
			}
		}
		t := f.Shown
		if f.Addr != "" && r.Intn(2) == 0 {
			t = f.Addr
		}
		if good || r.Intn(2) == 0 {
			s.Typed = f.Pass
			s.Pat = []ethAlt{{true, toks(t), true}}
			return s
		}
		s.Pat = w.pattern([]string{t})
		return s
	}
	texts := []string{w.addrs[r.Intn(3)], "nobody"}
	for _, f := range fs {
		texts = append(texts, f.Shown, f.ID)
		if f.Addr != "" {
			texts = append(texts, f.Addr)
		}
		if r.Intn(2) == 0 {
			s.Typed = f.Pass
		}
	}
	s.Bad = r.Intn(20) == 0
	s.Pat = w.pattern(texts)
	if s.Bad {
		s.Pat = nil
	}
	return s
}

var ethRets = []string{"uint256", "uint8", "int256", "int8", "uint", "address", "bool", "bytes", "string", "bytes32", "bytes4", "uint24", "foo", "uint256[]"}

func (w *ethWorld) read(c *ethCall) {
	r := w.r
	var ts []string
	for i := r.Intn(4); i > 0; i-- {
		ts = append(ts, ethRets[r.Intn(len(ethRets))])
	}
	var head, tail []byte
	for _, t := range ts {
		switch t {
		case "address":
			head = append(head, pad32(w.kw.rnd(20))...)
		case "bool":
			head = append(head, pad32([]byte{byte(r.Intn(2))})...)
		case "bytes", "string":
			head = append(head, pad32(big.NewInt(int64(32*len(ts)+len(tail))).Bytes())...)
			b := w.kw.rnd(r.Intn(70))
			if t == "string" {
				for i := range b {
					b[i] = ethChars[int(b[i])%36]
				}
			}
			tail = append(append(tail, pad32(big.NewInt(int64(len(b))).Bytes())...), b...)
			if n := len(b) % 32; n > 0 {
				tail = append(tail, make([]byte, 32-n)...)
			}
		case "bytes4":
			head = append(append(head, w.kw.rnd(4)...), make([]byte, 28)...)
		case "uint8":
			head = append(head, pad32(w.kw.rnd(1))...)
		case "uint24":
			head = append(head, pad32(w.kw.rnd(3))...)
		case "int8":
			b := pad32(w.kw.rnd(1))
			if b[31] >= 128 {
				copy(b, bytes.Repeat([]byte{255}, 31))
			}
			head = append(head, b...)
		default:
			head = append(head, w.kw.rnd(32)...)
		}
	}
	ret := append(head, tail...)
	if len(ret) > 0 && r.Intn(8) == 0 {
		ret = ret[:r.Intn(len(ret))]
	}
	w.node.mode, w.node.ret = "up", ret
	if r.Intn(12) == 0 {
		w.node.mode = "down"
	}
	words := append(append([]string(nil), c.Args...), ts...)
	var fl []string
	if c.Force {
		fl = append(fl, "-f")
	}
	run := w.run(nil, "read", append(append(fl, c.To, c.Sig), words...)...)
	ws := A{}
	for _, x := range words {
		ws = append(ws, M{"x": codes(x), "s": x})
	}
	lines := A{}
	if run.out != "" {
		for _, line := range strings.Split(strings.TrimSuffix(run.out, "\n"), "\n") {
			lines = append(lines, codes(line))
		}
	}
	calls := A{}
	for _, x := range w.node.calls {
		calls = append(calls, x)
	}
	w.emit(M{"op": "read", "to": codes(c.To), "sig": c.Sig, "sel": ethSelector(c.Sig), "words": ws, "force": c.Force, "ret": ints(ret),
		"node": w.node.mode, "lines": lines, "calls": calls}, run)
}

// anyCall makes up a call, and a contract for it
func (w *ethWorld) anyCall(ts, classes []string) *ethCall {
	r := w.r
	c := &ethCall{N: -1, Force: r.Intn(3) == 0}
	c.To = hx(w.kw.rnd(20))
	c.Sig, c.Args = w.method(ts, classes)
	if classes == nil || r.Intn(10) == 0 {
		switch r.Intn(14) {
		case 0:
			c.Args = append(c.Args, "1")
		case 1:
			if len(c.Args) > 0 {
				c.Args = c.Args[:len(c.Args)-1]
			}
		case 2:
			c.N = r.Intn(1000)
		case 3:
			c.N = 0
		case 4:
			c.G = big.NewInt(int64(r.Intn(1000)))
		case 5:
			c.G = [...]*big.Int{big.NewInt(0), big.NewInt(-1), big.NewInt(10000000000), big.NewInt(9223372036), big.NewInt(9223372037),
				new(big.Int).SetUint64(1<<63 - 1), big.NewInt(18446744074)}[r.Intn(7)]
		}
	}
	others := []string{"owner()", "transfer(address,uint256)", "f(uint8)", "f()"}
	var use []string
	for _, o := range others {
		if o != c.Sig && r.Intn(2) == 0 {
			use = append(use, o)
		}
	}
	kind := "table"
	if r.Intn(12) == 0 {
		kind = []string{"none", "strange"}[r.Intn(2)]
	}
	if r.Intn(6) > 0 {
		i := r.Intn(len(use) + 1)
		in := append(append(append([]string(nil), use[:i]...), c.Sig), use[i:]...)
		w.deploy(c.To, kind, in, nil)
	} else {
		w.deploy(c.To, kind, use, []string{c.Sig})
	}
	if r.Intn(30) == 0 {
		c.To = w.argText("address", ethClasses[r.Intn(len(ethClasses))])
	}
	return c
}

func (w *ethWorld) nodeMode() string {
	switch w.r.Intn(14) {
	case 0:
		return "down"
	case 1:
		return "reject"
	}
	return "up"
}

type ethScript struct {
	Part string
	A, B struct {
		Form, NM, Ad string
		K            int
	}
	Pat   string
	T     int
	Typed string
	Paths []string
}

// the model's world: file i has key k and the name ni
func (w *ethWorld) play(sc *ethScript) {
	r := w.r
	id := func(i int) string { return fmt.Sprintf("id-%d", i) }
	put := func(i int, d, name string, form, nm, ad string, k int) {
		p := ethPut{Form: form, ID: id(i), Pass: "p" + strconv.Itoa(i), K: k - 1, Ad: ad}
		switch nm {
		case "own":
			p.Name = "name" + strconv.Itoa(i)
		case "same":
			p.Name = "name1"
		}
		switch form {
		case "incomplete":
			p.Form = []string{"noid", "nocipher", "nomac", "nokdf", "nover"}[r.Intn(5)]
		case "noise":
			p.Form = []string{"truncated", "array", "empty", "text", "subdir", "dangling"}[r.Intn(6)]
		}
		w.put(d, name, p)
	}
	w.mkdir("d1")
	w.mkdir("d2")
	put(1, "d1", "f"+strconv.Itoa(r.Intn(3)), sc.A.Form, sc.A.NM, sc.A.Ad, sc.A.K)
	put(2, "d2", "f"+strconv.Itoa(r.Intn(3)), sc.B.Form, sc.B.NM, sc.B.Ad, sc.B.K)
	s := &ethSel{Paths: sc.Paths, Typed: sc.Typed}
	whole := func(t string) ethAlt { return ethAlt{true, toks(t), true} }
	addr := w.addrs[sc.T-1]
	switch sc.Pat {
	case "name":
		s.Pat = []ethAlt{whole("name" + strconv.Itoa(sc.T))}
	case "addr":
		s.Pat = []ethAlt{{false, toks(addr[2+r.Intn(10) : 30]), false}}
	case "id":
		s.Pat = []ethAlt{whole(id(sc.T))}
	case "addrs":
		s.Pat = []ethAlt{{true, toks("0x" + strings.Repeat("_", 20)), false}}
		for i := range s.Pat[0].Toks {
			if i >= 2 {
				s.Pat[0].Toks[i] = "."
			}
		}
	case "names":
		s.Pat = []ethAlt{{false, []string{"n", "a", "m", "."}, false}}
	case "alt":
		s.Pat = []ethAlt{whole("name1"), whole("name2")}
	case "all":
		s.Pat = []ethAlt{{true, []string{}, false}}
	case "junk":
		s.Pat = []ethAlt{{false, toks("zz"), false}}
	case "wrongend":
		s.Pat = []ethAlt{{false, toks("0x"), true}}
	case "bad":
		s.Bad = true
	}
	if sc.Pat == "bad" {
		s.Pat = nil
	}
	if r.Intn(3) == 0 {
		w.sign(s)
	} else {
		w.call(s, &ethCall{To: w.addrs[0], Sig: "f()", Force: true, N: -1}, "up")
	}
	if r.Intn(4) == 0 {
		w.list(s.Paths)
	}
}

func driveEth(t *Trace, a *Args) {
	bin := a.Bin
	var scripts []*ethScript
	for _, b := range a.Scripts {
		sc := new(ethScript)
		cMust(json.Unmarshal(b, sc))
		scripts = append(scripts, sc)
	}
	seed := a.Rng.Int63()
	t.parallel(len(scripts), 4, func(i int, h *Hist) {
		w := newEthWorld(h, rand.New(rand.NewSource(seed+int64(i))), bin)
		defer w.close()
		h.guard("eth", func() { w.play(scripts[i]) })
	})
	seed = a.Rng.Int63()
	t.parallel(a.N, 4, func(i int, h *Hist) {
		w := newEthWorld(h, rand.New(rand.NewSource(seed+int64(i))), bin)
		defer w.close()
		r := w.r
		h.guard("eth", func() {
			for _, d := range []string{"d1", "d2", "h1", "h2"} {
				if r.Intn(20) > 0 {
					w.mkdir(d)
				}
			}
			if a.Profile == "keygen" {
				w.keygen("d1", ethNames[r.Intn(len(ethNames))], r.Intn(2) == 0)
				w.call(w.anySel(true), w.anyCall([]string{"uint8"}, []string{"in"}), "up")
				w.sign(w.anySel(true))
				w.list([]string{"d1"})
				return
			}
			dirs := []string{"d1", "d1", "d2", "d2", "h1", "h2"}
			for k := 1 + r.Intn(4); k > 0; k-- {
				w.put(dirs[r.Intn(6)], "k"+strconv.Itoa(r.Intn(4)), w.anyPut())
			}
			// there is a key to work with
			p := w.anyPut()
			p.Form, p.Ad = "good", "own"
			for _, d := range []string{"d1", "h1"} {
				w.put(d, "main.json", p)
			}
			for k := a.Steps/2 + r.Intn(a.Steps); k > 0; k-- {
				switch r.Intn(20) {
				case 0:
					w.put(dirs[r.Intn(6)], "k"+strconv.Itoa(r.Intn(4)), w.anyPut())
				case 1:
					d := dirs[r.Intn(6)]
					if n := "k" + strconv.Itoa(r.Intn(4)); w.files[d] != nil {
						if _, ok := w.files[d][n]; ok {
							w.remove(d, n)
						}
					}
				case 2:
					if r.Intn(3) == 0 {
						w.rmdir(dirs[r.Intn(6)])
					}
				case 3:
					w.mkdir([]string{"d1", "d2", "d3", "h1", "h2"}[r.Intn(5)])
				case 4:
					w.list(w.anyPaths())
				case 5, 6:
					w.sign(w.anySel(r.Intn(2) == 0))
				case 7:
					w.post()
				case 8:
					c := w.anyCall(nil, nil)
					w.code(c.To)
					w.jumptab(c.To)
				case 9, 10:
					w.read(w.anyCall(w.types(r.Intn(3)), nil))
				case 11, 12, 13:
					w.call(w.anySel(false), w.anyCall(w.types(r.Intn(4)), nil), w.nodeMode())
				default:
					ts := w.types(1 + r.Intn(2))
					cs := []string{ethClasses[r.Intn(len(ethClasses))]}
					if len(ts) > 1 {
						cs = append(cs, []string{"in", "max", "min", ethClasses[r.Intn(len(ethClasses))]}[r.Intn(4)])
					}
					if r.Intn(4) == 0 {
						w.read(w.anyCall(ts, cs))
					} else {
						w.call(w.anySel(true), w.anyCall(ts, cs), "up")
					}
				}
			}
		})
	})
}
