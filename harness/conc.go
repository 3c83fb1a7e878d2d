package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"log"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
)

func init() { drivers["conc"] = driveConc }

// Histories of one chain used by several goroutines at once. Every operation is
// prepared beforehand, and what came of it is written down afterwards, so that
// nothing but the chain itself makes the goroutines wait for each other; the
// events are put in the order of the clock.

// a chain object of the history
type cref struct {
	id   int
	c    *tevm.Chain
	view bool
}

type cop struct {
	e      M
	call   func()
	fin    func() bool // fills in the event; false if nothing was done
	t0, t1 time.Duration
	panic  string
}

type concWorld struct {
	w      *World
	g      *chgen
	r      *rand.Rand
	main   *cref
	cl     *seth.Client
	events []M
	gas    int // tells transactions apart
	ids    int
	byGas  map[int]string
	used   map[string]int
	place  map[string][2]int
}

func (w *concWorld) uniq() int {
	w.gas++
	return mineGas + w.gas
}

// rpc makes a request in one of several ways
func (w *concWorld) rpc(way int, c *cref, method string, params ...string) func() (json.RawMessage, bool) {
	switch way {
	case 0:
		return func() (json.RawMessage, bool) {
			body := fmt.Sprintf(`{"jsonrpc":"2.0","id":9,"method":%q,"params":[%s]}`, method, strings.Join(params, ","))
			rec := httptest.NewRecorder()
			c.c.ServeHTTP(rec, httptest.NewRequest("POST", "/", strings.NewReader(body)))
			var out struct {
				Result json.RawMessage `json:"result"`
				Error  struct {
					Code int `json:"code"`
				} `json:"error"`
			}
			if rec.Code != http.StatusOK || json.Unmarshal(rec.Body.Bytes(), &out) != nil {
				return nil, false
			}
			return out.Result, out.Error.Code == 0
		}
	case 1:
		var ps []json.RawMessage
		for _, p := range params {
			ps = append(ps, json.RawMessage(p))
		}
		return func() (json.RawMessage, bool) {
			cl := w.cl
			if c != w.main {
				cl = c.c.Client()
			}
			var raw json.RawMessage
			err := cl.Do(method, ps, &raw)
			return raw, err == nil
		}
	}
	return func() (json.RawMessage, bool) { return w.w.rpc(c.c, method, params...) }
}

// prepare makes an operation of a goroutine; cs are the chains it has, ids its filters
func (w *concWorld) prepare(kind string, cs *[]*cref, ids *[]*int, hs *[]*string) *cop {
	r, g, nm := w.r, w.g, w.w.nm
	c := w.main
	if len(*cs) > 1 && r.Intn(3) == 0 {
		c = (*cs)[r.Intn(len(*cs))]
	}
	o := g.op(kind)
	if o.P == nil {
		o.P = []Ins{}
	}
	fix(o.P)
	e := M{"op": kind, "c": c.id}
	p := &cop{e: e}
	set := func(kv ...interface{}) {
		for i := 0; i < len(kv); i += 2 {
			e[kv[i].(string)] = kv[i+1]
		}
	}
	st := func(err error) string { return w.w.st(err) }
	way := r.Intn(3)
	switch kind {
	case "addbal":
		p.call = func() { c.c.AddBalance(nm.SAddr(o.A), nm.Wei(o.N)) }
		p.fin = func() bool { set("a", o.A, "n", o.N); return true }
	case "subbal": // this one has enough
		p.call = func() { c.c.SubBalance(nm.SAddr("D"), nm.Wei(o.N)) }
		p.fin = func() bool { set("a", "D", "n", o.N); return true }
	case "newacct":
		if w.main != c || nm.unit.String() != units[1] {
			return nil
		}
		var a seth.Address
		p.call = func() { a = c.c.NewAccount(o.N) }
		p.fin = func() bool {
			l := "N" + strconv.Itoa(len(nm.label)/13+1)
			if old := nm.Label(common.Address(a)); old[0] != '?' {
				l = old
			} else {
				nm.add(l, common.Address(a))
				w.w.accts = append(w.w.accts, l)
			}
			set("a", l, "n", o.N)
			return true
		}
	case "call", "static", "est":
		var ret []byte
		var err error
		arg := (*seth.Bytes)(bptr(nm.Compile(o.P, callGas)))
		p.call = func() {
			switch kind {
			case "call":
				ret, err = c.c.Call(nm.SAddr(o.From), nm.SAddr(o.To), "run(bytes)", arg)
			case "static":
				ret, err = c.c.StaticCall(nm.SAddr(o.From), nm.SAddr(o.To), "run(bytes)", arg)
			default:
				_, err = c.c.EstimateGas(nm.SAddr(o.From), nm.SAddr(o.To), "run(bytes)", arg)
			}
		}
		p.fin = func() bool {
			set("from", o.From, "to", o.To, "p", o.P, "st", st(err), "ret", w.w.retval(ret))
			if kind == "est" {
				set("op", "static")
				delete(e, "ret")
			}
			return true
		}
	case "send":
		var err error
		p.call = func() { err = c.c.Send(nm.SAddr(o.From), nm.SAddr(o.To), nm.Wei(o.N)) }
		p.fin = func() bool { set("from", o.From, "to", o.To, "n", o.N, "st", st(err)); return true }
	case "create":
		var a seth.Address
		var err error
		code := nm.InitCode(o.P, callGas)
		p.call = func() { a, err = c.c.Create(nm.SAddr(o.From), code) }
		p.fin = func() bool {
			set("from", o.From, "p", o.P, "st", st(err), "addr", nm.Label(common.Address(a)))
			return true
		}
	case "mine", "rsend":
		if c.view || o.G == "tiny" || c != w.main && kind == "rsend" {
			return nil
		}
		gas := w.uniq()
		tx := &seth.Transaction{From: nm.SAddr(o.From), Value: seth.Int(*nm.Wei(o.N)), Gas: seth.Uint64(gas),
			GasPrice: seth.Int(*big.NewInt(int64(1 + r.Intn(5)))), Nonce: seth.Uint64(r.Intn(9))}
		if o.To == "" {
			tx.Input = nm.InitCode(o.P, gas)
		} else {
			tx.To = nm.SAddr(o.To)
			tx.Input = nm.Compile(o.P, gas)
		}
		hash := new(string)
		*hs = append(*hs, hash)
		var h seth.Hash
		var ret []byte
		var err error
		used := 0
		if kind == "mine" {
			p.call = func() {
				if c != w.main { // nobody else has this one
					used = int(c.c.State.Pending.GasUsed)
				}
				ret, h, err = c.c.Mine(tx)
				*hash = h.String()
				if c != w.main {
					used = int(c.c.State.Pending.GasUsed) - used
				}
			}
		} else {
			tx.GasPrice, tx.Nonce = seth.Int(*big.NewInt(1)), 0
			do := w.rpc(way, c, "eth_sendTransaction", callobj(o.From, o.To, w.w, o.N, tx.Input, gas))
			p.call = func() {
				raw, ok := do()
				if !ok {
					err = fmt.Errorf("failed")
				} else {
					json.Unmarshal(raw, hash)
				}
			}
		}
		p.fin = func() bool {
			set("from", o.From, "to", o.To, "n", o.N, "p", o.P, "g", "big", "gas", gas, "inp", inplabel(tx.Input),
				"price", int(tx.GasPrice.Int64()), "nonce", int(tx.Nonce), "st", st(err), "h", w.w.hlabel(unhex(*hash)), "used", used)
			if o.To != "" && kind == "mine" {
				set("ret", w.w.retval(ret))
			}
			if c == w.main {
				// what the ledger says
				h, ok := w.byGas[gas]
				if !ok {
					h = "lost"
				}
				if *hash == "" {
					set("h", h)
				}
				used, ok := w.used[e["h"].(string)]
				if !ok {
					used = -1
				}
				at, ok := w.place[e["h"].(string)]
				if !ok {
					at = [2]int{-1, -1}
				}
				set("used", used, "bn", at[0], "ti", at[1])
			}
			return true
		}
	case "seal":
		if c.view {
			return nil
		}
		num, ts := 0, 0
		h := new(seth.Hash)
		p.call = func() {
			c.c.Seal()
			if c != w.main {
				b := c.c.State.Pending
				num, ts, *h = int(*b.Number), int(b.Timestamp), *b.Hash
			}
		}
		p.fin = func() bool {
			set("num", num, "ts", ts, "hash", w.w.hlabel(h[:]))
			return true
		}
	case "rcall", "rest", "rbal":
		m := map[string]string{"rcall": "eth_call", "rest": "eth_estimateGas", "rbal": "eth_getBalance"}[kind]
		arg := `"` + strings.ToLower(nm.Addr("A").Hex()) + `"`
		if kind == "rbal" {
			arg = `"` + strings.ToLower(nm.Addr(o.A).Hex()) + `"`
		} else {
			data := nm.Compile(o.P, callGas)
			if o.To == "" {
				data = nm.InitCode(o.P, callGas)
			}
			n := o.N
			if kind == "rcall" {
				n = 0
			}
			arg = callobj(o.From, o.To, w.w, n, data, 0)
		}
		do := w.rpc(way, c, m, arg, blkparam(o.Blk))
		var raw json.RawMessage
		var ok bool
		p.call = func() { raw, ok = do() }
		p.fin = func() bool {
			set("blk", o.Blk, "st", "err")
			if kind == "rbal" {
				set("a", o.A)
			} else {
				set("from", o.From, "to", o.To, "n", o.N, "p", o.P)
			}
			if ok {
				set("st", "ok")
				var s string
				json.Unmarshal(raw, &s)
				switch kind {
				case "rcall":
					set("ret", w.w.retval(unhex(s)))
				case "rbal":
					set("r", nm.Units(bigof(s)))
				}
			}
			return true
		}
	case "bal":
		o.A = g.acct()
		var b *big.Int
		p.call = func() { b = c.c.BalanceOf(nm.SAddr(o.A)) }
		p.fin = func() bool { set("op", "obs", "bal", M{o.A: nm.Units(b)}); return true }
	case "logs":
		var ls []seth.Log
		p.call = func() { ls = c.c.Logs() }
		p.fin = func() bool { set("op", "obs", "logs", w.w.loglist(ls)); return true }
	case "blk":
		if c.view {
			return nil
		}
		if o.K == "hash" {
			o.H = w.w.blkh[r.Intn(len(w.w.blkh))]
		}
		full := strconv.FormatBool(o.Full)
		do := w.rpc(way, c, "eth_getBlockByNumber", blkparam(o.Blk), full)
		if o.K == "hash" {
			do = w.rpc(way, c, "eth_getBlockByHash", `"`+w.w.hbytes(o.H)+`"`, full)
		}
		var raw json.RawMessage
		var ok bool
		p.call = func() { raw, ok = do() }
		p.fin = func() bool {
			set("full", o.Full, "by", o.K, "n", o.Blk, "h", o.H, "r", M{"n": -1})
			if ok {
				set("r", w.w.jblk(raw, o.Full))
			}
			return true
		}
	case "tx", "rx":
		if c.view {
			return nil
		}
		m := map[string]string{"tx": "eth_getTransactionByHash", "rx": "eth_getTransactionReceipt"}[kind]
		h := new(string)
		if n := len(w.w.txh); n > 0 && r.Intn(2) == 0 {
			*h = w.w.hbytes(w.w.txh[r.Intn(n)])
		} else if n := len(*hs); n > 0 {
			h = (*hs)[r.Intn(n)]
		}
		var raw json.RawMessage
		var ok bool
		hash := ""
		p.call = func() {
			if hash = *h; hash != "" {
				raw, ok = w.rpc(way, c, m, `"`+hash+`"`)()
			}
		}
		p.fin = func() bool {
			set("h", w.w.hlabel(unhex(hash)), "st", "err")
			if ok {
				var x map[string]interface{}
				json.Unmarshal(raw, &x)
				set("st", "ok")
				if kind == "tx" {
					set("r", w.w.jtx(x))
				} else {
					set("r", w.w.jrx(x))
				}
			}
			return hash != ""
		}
	case "newf":
		if c != w.main {
			return nil
		}
		tp := A{}
		for _, x := range o.T {
			if x == "" {
				tp = append(tp, nil)
			} else {
				tp = append(tp, hexd(nm.dec(x)))
			}
		}
		m := M{"topics": tp, "fromBlock": json.RawMessage(blkparam(o.FromB)), "toBlock": json.RawMessage(blkparam(o.ToB))}
		if o.A != "" {
			m["address"] = strings.ToLower(nm.Addr(o.A).Hex())
		}
		b, _ := json.Marshal(m)
		id := new(int)
		*ids = append(*ids, id)
		do := w.rpc(way, c, "eth_newFilter", string(b))
		ok := false
		p.call = func() {
			*id = 1000
			var raw json.RawMessage
			if raw, ok = do(); ok {
				var x interface{}
				json.Unmarshal(raw, &x)
				*id = num(x)
			}
		}
		p.fin = func() bool {
			t := o.T
			if t == nil {
				t = []string{}
			}
			set("from", o.FromB, "to", o.ToB, "addr", o.A, "topics", t, "st", "err")
			if ok {
				set("st", "ok", "id", *id)
			}
			return true
		}
	case "poll", "flogs", "unf":
		if len(*ids) == 0 || c != w.main {
			return nil
		}
		id := (*ids)[r.Intn(len(*ids))]
		m := map[string]string{"poll": "eth_getFilterChanges", "flogs": "eth_getFilterLogs", "unf": "eth_uninstallFilter"}[kind]
		var raw json.RawMessage
		var ok bool
		n := 0
		p.call = func() {
			n = *id
			raw, ok = w.rpc(way, c, m, `"0x`+strconv.FormatInt(int64(n), 16)+`"`)()
		}
		p.fin = func() bool {
			set("id", n, "st", "err")
			if ok {
				set("st", "ok")
				if kind == "unf" {
					var b bool
					json.Unmarshal(raw, &b)
					set("r", b)
				} else {
					ls, ok := w.w.jlogs(raw)
					if !ok {
						set("st", "malformed")
					}
					set("logs", ls)
				}
			}
			return true
		}
	case "copy":
		w.ids++
		d := &cref{id: w.ids, view: c.view}
		*cs = append(*cs, d)
		if r.Intn(2) == 0 { // by way of JSON
			var err error
			p.call = func() {
				var b []byte
				if b, err = json.Marshal(c.c); err == nil {
					d.c = new(tevm.Chain)
					err = json.Unmarshal(b, d.c)
				}
			}
			p.fin = func() bool { set("d", d.id, "st", st(err)); return true }
			break
		}
		p.call = func() { d.c = c.c.Copy() }
		p.fin = func() bool { set("d", d.id, "st", "ok"); return true }
	case "view":
		if c.view {
			return nil
		}
		w.ids++
		d := &cref{id: w.ids, view: true}
		*cs = append(*cs, d)
		var v *tevm.Chain
		p.call = func() {
			if v = c.c.AtBlock(int64(o.Blk)); v != c.c {
				d.c = v
			}
		}
		p.fin = func() bool {
			set("blk", o.Blk, "d", d.id)
			switch {
			case v == nil:
				set("r", "none")
			case v == c.c:
				set("r", "same")
			default:
				set("r", "view")
			}
			return true
		}
	default:
		panic("HARNESS BUG: op " + kind)
	}
	run, fin := p.call, p.fin
	skip := false
	p.call = func() {
		if skip = c.c == nil; !skip {
			run()
		}
	}
	p.fin = func() bool { return !skip && fin() }
	return p
}

// guarded runs the calls of an operation; a panic becomes an event
func (p *cop) guarded(base time.Time) {
	p.t0 = time.Since(base)
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			if !bytes.Contains(buf, []byte("philhofer/seth")) && !bytes.Contains(buf, []byte("/repo/")) {
				panic(fmt.Sprintf("HARNESS BUG: %v\n%s", x, buf))
			}
			log.Printf("panic in %s: %v\n%s", p.e["op"], x, buf)
			p.panic = fmt.Sprint(x)
		}
		p.t1 = time.Since(base)
	}()
	p.call()
}

var concKinds = []struct {
	k string
	n int
}{{"addbal", 3}, {"subbal", 2}, {"newacct", 2}, {"call", 6}, {"static", 2}, {"est", 1}, {"send", 6}, {"create", 2}, {"mine", 7}, {"rsend", 5},
	{"seal", 5}, {"rcall", 2}, {"rest", 2}, {"rbal", 3}, {"bal", 4}, {"logs", 2}, {"blk", 4}, {"tx", 2}, {"rx", 2}, {"newf", 2}, {"poll", 4},
	{"flogs", 1}, {"unf", 1}, {"copy", 3}, {"view", 2}}

// the kinds of operations of which a history is made
func concMix(r *rand.Rand) []string {
	var out []string
	if r.Intn(6) == 0 { // copies go their own way
		return []string{"mine", "mine", "mine", "mine", "copy", "copy", "view", "seal", "call", "logs", "blk", "bal", "rx"}
	}
	only := r.Intn(3) == 0
	for _, k := range concKinds {
		n := k.n
		if only {
			n *= r.Intn(4) / 2 * r.Intn(5)
		}
		for ; n > 0; n-- {
			out = append(out, k.k)
		}
	}
	if len(out) == 0 {
		return []string{"mine", "seal", "bal"}
	}
	return out
}

func driveConc(t *Trace, a *Args) {
	for n := 0; n < a.N; n++ {
		for _, e := range concHistory(rand.New(rand.NewSource(a.Rng.Int63())), a.Steps) {
			t.Emit(e)
		}
	}
}

func concHistory(r *rand.Rand, steps int) []M {
	pr := &profile{obs: "bncsl#", result: true}
	cw := &concWorld{r: r, byGas: map[int]string{}, used: map[string]int{}, place: map[string][2]int{}, ids: 1}
	w := newWorld(nil, pr)
	w.sink = func(e M) { cw.events = append(cw.events, e) }
	cw.w = w
	failed := func(what string, x interface{}) []M {
		cw.events = append(cw.events, M{"op": "PANIC", "in": what, "msg": fmt.Sprint(x)})
		return cw.events
	}
	var bad []M
	safely := func(what string, fn func()) bool {
		ok := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					buf := make([]byte, 4096)
					buf = buf[:runtime.Stack(buf, false)]
					if strings.Contains(fmt.Sprint(x), "HARNESS BUG") || !bytes.Contains(buf, []byte("philhofer/seth")) && !bytes.Contains(buf, []byte("/repo/")) {
						panic(fmt.Sprintf("HARNESS BUG: %v\n%s", x, buf))
					}
					log.Printf("panic in %s: %v\n%s", what, x, buf)
					bad = failed(what, x)
				}
			}()
			fn()
			ok = true
		}()
		return ok
	}
	g := &chgen{w: w, r: r, slots: []string{"1", "2"}, eoas: []string{"A", "B", "C"}}
	cw.g = g
	w.slots = g.slots
	do := func(o Op) bool { return safely(o.Op, func() { w.do(&o) }) }
	if !do(Op{Op: "reset", Unit: units[r.Intn(2)]}) {
		return bad
	}
	setup := []Op{{Op: "addbal", C: 1, A: "A", N: 5 + r.Intn(20)}, {Op: "addbal", C: 1, A: "B", N: 5 + r.Intn(20)}, {Op: "addbal", C: 1, A: "D", N: 100000},
		{Op: "create", C: 1, From: "A"}, {Op: "create", C: 1, From: "A", P: []Ins{{I: "log", D: "1"}}}}
	g.inters = []string{"A/0", "A/1"}
	w.accts = []string{"A/0", "A/1"}
	for k := r.Intn(3); k > 0; k-- {
		setup = append(setup, g.op("mine"), Op{Op: "seal", C: 1})
	}
	for k := r.Intn(5); k > 0; k-- {
		setup = append(setup, g.op("mine"))
	}
	for _, o := range setup {
		o.C = 1
		if !do(o) {
			return bad
		}
	}
	start := cw.events[0]
	cw.main = &cref{id: 1, c: w.chains[0]}
	cw.cl = cw.main.c.Client()

	procs := 2 + r.Intn(3)
	ops := make([][]*cop, procs)
	mix := concMix(r)
	shared := []*cref{cw.main}
	for i := range ops {
		cs := append([]*cref(nil), shared...)
		var ids []*int
		var hs []*string
		for k := 1 + r.Intn(steps); k > 0; k-- {
			if p := cw.prepare(mix[r.Intn(len(mix))], &cs, &ids, &hs); p != nil {
				ops[i] = append(ops[i], p)
			}
		}
	}
	base := time.Now()
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i := range ops {
		wg.Add(1)
		go func(ps []*cop) {
			defer wg.Done()
			<-gate
			for _, p := range ps {
				p.guarded(base)
				if p.panic != "" {
					return
				}
			}
		}(ops[i])
	}
	close(gate)
	wg.Wait()

	// what the ledger has become
	if !safely("reading the ledger", func() { cw.readLedger(start) }) {
		return bad
	}
	type mark struct {
		t   time.Duration
		end bool
		e   M
	}
	var ms []mark
	for i := range ops {
		last := map[int]M{} // chain -> the last operation that has to do with it
		for _, p := range ops[i] {
			if p.panic != "" {
				return failed(str(p.e["op"]), p.panic)
			}
			var done bool
			if !safely(str(p.e["op"]), func() { done = p.fin() }) {
				return bad
			}
			if !done {
				continue
			}
			p.e["who"] = i + 1
			ret := M{"op": "return", "who": i + 1, "drop": A{}}
			ms = append(ms, mark{p.t0, false, p.e}, mark{p.t1, true, ret})
			for _, k := range []string{"c", "d"} {
				if id, ok := p.e[k].(int); ok && id > 1 && (k == "c" || p.e["r"] == nil || p.e["r"] == "view") {
					last[id] = ret
				}
			}
		}
		for id, ret := range last {
			ret["drop"] = append(ret["drop"].(A), id)
		}
	}
	// an operation that begins when another one returns overlaps with it
	sort.SliceStable(ms, func(i, j int) bool {
		if ms[i].t != ms[j].t {
			return ms[i].t < ms[j].t
		}
		return !ms[i].end && ms[j].end
	})
	for _, m := range ms {
		cw.events = append(cw.events, m.e)
	}
	// look at everything
	final := []Op{{Op: "obs", C: 1}}
	for _, b := range start["blks"].(A) {
		final = append(final, Op{Op: "blk", C: 1, K: "num", Blk: b.(M)["n"].(int), Full: r.Intn(2) == 0})
		if r.Intn(2) == 0 {
			final = append(final, Op{Op: "rbal", C: 1, A: g.acct(), Blk: b.(M)["n"].(int)})
		}
	}
	for _, h := range w.txh {
		final = append(final, Op{Op: "rx", C: 1, H: h})
		if r.Intn(2) == 0 {
			final = append(final, Op{Op: "tx", C: 1, H: h})
		}
	}
	for _, o := range final {
		if !do(o) {
			return bad
		}
	}
	return cw.events
}

// readLedger completes the first event by the blocks that were to come
func (w *concWorld) readLedger(start M) {
	c := w.main.c
	blks := A{}
	last := int(*c.State.Pending.Number)
	w.w.txh = nil
	for n := start["num"].(int); n <= last; n++ {
		raw, ok := w.w.rpc(c, "eth_getBlockByNumber", blkparam(n), "true")
		if !ok {
			continue
		}
		var m map[string]interface{}
		json.Unmarshal(raw, &m)
		blk := M{"n": n, "h": w.w.hlabel(unhex(str(m["hash"]))), "ts": num(m["timestamp"])}
		blks = append(blks, blk)
		if v := c.AtBlock(int64(n)); v != nil && v != c {
			// what the state was when it was sealed
			bal, nonce, st := M{}, M{}, M{}
			db := v.State.StateDB()
			for _, l := range w.w.labels() {
				a := w.w.nm.Addr(l)
				bal[l] = w.w.nm.Units(v.BalanceOf(w.w.nm.SAddr(l)))
				nonce[l] = int(db.GetNonce(a))
				m := M{}
				for _, k := range w.w.slots {
					h := db.GetState(a, shash(k))
					m[k] = w.w.nm.Value(h[:])
				}
				st[l] = m
			}
			blk["bal"], blk["nonce"], blk["st"] = bal, nonce, st
		}
		for i, x := range arr(m["transactions"]) {
			tm, _ := x.(map[string]interface{})
			h := w.w.hlabel(unhex(str(tm["hash"])))
			w.w.txh = append(w.w.txh, h)
			w.byGas[num(tm["gas"])] = h
			w.place[h] = [2]int{n, i}
		}
	}
	// receipts appear when a block is sealed: look at those of a copy
	cc := c.Copy()
	cc.Seal()
	for _, h := range w.w.txh {
		raw, ok := w.w.rpc(cc, "eth_getTransactionReceipt", `"`+w.w.hbytes(h)+`"`)
		if ok {
			var m map[string]interface{}
			json.Unmarshal(raw, &m)
			w.used[h] = num(m["gasUsed"])
		}
	}
	start["blks"] = blks
	start["logs"] = w.w.loglist(c.Logs())
}
