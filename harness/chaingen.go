package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

func init() { drivers["chain"] = driveChain }

// the kinds of histories; each one is about a property
var profiles = map[string]*profile{
	"statedb": {obs: "bncdemslr", result: true, weights: map[string]int{
		"s.create": 3, "s.addbal": 5, "s.subbal": 3, "s.setnonce": 3, "s.setcode": 4, "s.setst": 8, "s.suicide": 2, "s.log": 3,
		"s.addrefund": 2, "s.subrefund": 1, "s.snap": 8, "s.revert": 5, "rd": 10, "obs": 1}},
	"exec": {obs: "bncdesl", result: true, audit: "receipts", weights: map[string]int{
		"call": 8, "mine": 8, "create": 2, "createat": 2, "send": 1, "addbal": 1, "seal": 1}},
	"ether": {obs: "bt", weights: map[string]int{
		"call": 3, "mine": 10, "create": 1, "createat": 1, "send": 6, "addbal": 2, "subbal": 1, "newacct": 1, "rest": 2, "rsend": 2, "seal": 1}},
	"readonly": {obs: "bncdesl#", result: true, weights: map[string]int{
		"call": 2, "mine": 2, "send": 1, "create": 1, "seal": 1, "static": 5, "est": 3, "rcall": 5, "rest": 6, "rbal": 3, "blk": 2, "tx": 1, "rx": 1,
		"newf": 1, "poll": 1, "flogs": 1, "rd": 1, "rnum": 1, "rbad": 3}},
	"history": {obs: "bcsl#", result: true, audit: "history", weights: map[string]int{
		"call": 4, "mine": 4, "send": 2, "addbal": 2, "create": 1, "seal": 5, "rcall": 5, "rbal": 6, "rest": 1, "view": 4, "obs": 4, "rsend": 2, "subbal": 1, "tx": 2, "rx": 3, "blk": 2}},
	"hstate": {obs: "bncslr#", audit: "history", weights: map[string]int{
		"addbal": 2, "s.addrefund": 3, "s.subrefund": 1, "s.setst": 3, "s.setcode": 1, "s.setnonce": 1, "s.log": 2, "seal": 5, "view": 4, "vseal": 2,
		"rbal": 3, "obs": 5, "send": 1}},
	"ledger": {obs: "#", audit: "ledger", weights: map[string]int{
		"mine": 8, "rsend": 3, "seal": 4, "blk": 10, "tx": 5, "rx": 6, "call": 1, "addbal": 1, "rest": 1, "rnum": 2, "rbad": 2}},
	"filters": {obs: "", weights: map[string]int{
		"mine": 5, "call": 4, "rsend": 2, "seal": 3, "newf": 4, "poll": 9, "flogs": 3, "unf": 1, "rest": 1, "static": 1}},
	"fork": {obs: "bncs", result: true, weights: map[string]int{
		"s.addbal": 2, "s.subbal": 1, "s.setnonce": 2, "s.setcode": 2, "s.setst": 5, "s.snap": 3, "s.revert": 2, "rd": 10,
		"call": 4, "send": 3, "static": 3, "rcall": 1, "rbal": 2, "addbal": 2, "mine": 2, "create": 1, "obs": 1, "rest": 1, "seal": 1, "view": 1, "copy": 1, "rnum": 1}},
	"copies": {obs: "bncdesl#", result: true, audit: "ledger history", weights: map[string]int{
		"call": 4, "mine": 4, "send": 2, "addbal": 1, "create": 1, "createat": 1, "seal": 4, "copy": 4, "view": 2, "vseal": 3, "rcall": 1, "rbal": 2, "blk": 4, "tx": 2, "rx": 2,
		"s.setst": 2, "s.log": 1, "s.addbal": 1, "revertpair": 2, "obs": 6, "rest": 1, "rsend": 1, "newf": 1, "poll": 1, "rnum": 1}},
	"json": {obs: "bncdesl#", result: true, audit: "ledger history", weights: map[string]int{
		"call": 4, "mine": 5, "send": 1, "addbal": 1, "create": 1, "seal": 3, "save": 3, "load": 4, "view": 1, "newf": 2, "poll": 3, "rcall": 1, "rbal": 2, "blk": 4, "tx": 3, "rx": 3,
		"s.setst": 1, "s.log": 1, "s.suicide": 1, "revertpair": 2, "obs": 5, "rnum": 1}},
	"all": {obs: "bncdesl#", result: true, weights: map[string]int{
		"call": 4, "mine": 4, "send": 2, "addbal": 1, "create": 1, "createat": 1, "seal": 4, "copy": 1, "view": 1, "rcall": 2, "rbal": 2, "blk": 3, "tx": 2, "rx": 2,
		"static": 2, "est": 1, "rest": 2, "rsend": 2, "save": 1, "load": 1, "newf": 2, "poll": 3, "flogs": 1, "unf": 1, "obs": 3, "rnum": 1, "rbad": 1}},
}

type chgen struct {
	w      *World
	r      *rand.Rand
	prof   string
	slots  []string
	eoas   []string
	inters []string // interpreters known to exist at some time
	hs     []string
	remote bool
	pair   int
	env    bool // whether programs look at the block they are in
}

func (g *chgen) pick(s []string) string { return s[g.r.Intn(len(s))] }
func (g *chgen) p(n, d int) bool        { return g.r.Intn(d) < n }

// words that have their low, or their high, bytes in common with small ones
var wide = []string{"18446744073709551617", "340282366920938463463374607431768211457",
	"57896044618658097711785492504343953926634992332820282019728792003956564819969",
	"115792089237316195423570985008687907853269984665640564039457584007913129639935", "256", "72057594037927936"}

func (g *chgen) num(n int) string {
	if g.p(1, 8) {
		return g.pick(wide)
	}
	return strconv.Itoa(g.r.Intn(n))
}

func (g *chgen) num1(n int) string {
	if g.p(1, 8) {
		return g.pick(wide[:2])
	}
	return strconv.Itoa(1 + g.r.Intn(n))
}

func (g *chgen) acct() string {
	if len(g.inters) > 0 && g.p(1, 3) {
		return g.pick(g.inters)
	}
	return g.pick(g.eoas)
}

func (g *chgen) target() string {
	switch x := g.r.Intn(10); {
	case x < 7 && len(g.inters) > 0:
		return g.pick(g.inters)
	case x < 9:
		return g.pick(g.eoas)
	}
	return g.pick([]string{"X", "Y", "Z"})
}

func (g *chgen) amount() int {
	switch g.r.Intn(8) {
	case 0, 1, 2:
		return 0
	case 3:
		return 1000 // more than anyone has
	}
	return 1 + g.r.Intn(4)
}

func (g *chgen) value(ret bool) (string, string) {
	switch g.r.Intn(9) {
	case 0, 1, 2:
		return "const", g.num(4)
	case 3:
		return "sload", g.pick(g.slots)
	case 4:
		return "balance", g.acct()
	case 5:
		return g.pick([]string{"caller", "origin", "self"}), ""
	case 6:
		return "value", ""
	case 7:
		return "hascode", g.target()
	}
	if ret && (!g.env || g.p(1, 2)) {
		return "sload", g.pick(g.slots)
	}
	if g.p(1, 3) {
		return "number", ""
	}
	if g.env {
		switch g.r.Intn(5) {
		case 0:
			return "time", ""
		case 1:
			return "gasprice", ""
		case 2:
			return "parent", ""
		case 3:
			return "codehash", g.acct()
		}
	}
	return "const", "0"
}

// prog makes a program; max is the depth to which calls may still go
func (g *chgen) prog(max, depth int, init bool) []Ins {
	n := 1 + g.r.Intn(4)
	if max == 0 && n > 3 {
		n = 3
	}
	out := []Ins{}
	calls, creates, destroys := 3, 2, 1
	if depth > 0 {
		calls, creates = 2, 1
	}
	if max == 0 {
		calls, creates = 0, 0
	}
	for i := 0; i < n; i++ {
		x := g.r.Intn(20)
		switch {
		case x < 6:
			k, v := g.value(false)
			out = append(out, Ins{I: "sstore", S: g.pick(g.slots), K: k, V: v})
		case x < 9:
			t := []string{}
			for j := g.r.Intn(3); j > 0; j-- {
				t = append(t, g.num1(3))
			}
			out = append(out, Ins{I: "log", T: t, D: g.num(4)})
		case x < 14 && calls > 0:
			calls--
			c := Ins{I: "call", K: "call", To: g.target(), F: g.pick([]string{"ignore", "ignore", "bubble", "store", "store"}), S: g.pick(g.slots), G: "big"}
			switch g.r.Intn(7) {
			case 0:
				c.K = "callcode"
			case 1:
				c.K = "delegate"
			case 2:
				c.K = "static"
			}
			if c.K == "call" || c.K == "callcode" {
				c.N = g.amount()
			}
			c.P = g.prog(max-1, depth+1, false)
			if g.p(1, 10) && c.P[0].I == "sstore" {
				c.G = "tiny"
			}
			if g.p(1, 8) {
				c.P = []Ins{}
			}
			out = append(out, c)
		case x < 16 && creates > 0:
			creates--
			out = append(out, Ins{I: "create", N: g.amount(), F: g.pick([]string{"ignore", "bubble", "store"}), S: g.pick(g.slots), P: g.prog(max-1, depth+1, true)})
		case x == 16 && destroys > 0 && g.p(1, 3):
			out = append(out, Ins{I: "destroy", To: g.acct()})
			return out
		case x == 17 && g.p(1, 2):
			out = append(out, Ins{I: "revert"})
			return out
		case x == 18 && !init && g.p(1, 2):
			out = append(out, Ins{I: "invalid"})
			return out
		case x == 19 && !init:
			k, v := g.value(true)
			out = append(out, Ins{I: "ret", K: k, V: v})
			return out
		default:
			out = append(out, Ins{I: "sstore", S: g.pick(g.slots), K: "const", V: g.num(3)})
		}
	}
	// what matters often comes last
	if depth > 0 && g.p(1, 4) {
		if init {
			out = append(out, Ins{I: "revert"})
		} else {
			out = append(out, Ins{I: g.pick([]string{"revert", "invalid"})})
		}
	}
	return out
}

// a program that emits logs, for the histories about logs
func (g *chgen) logprog() []Ins {
	out := []Ins{}
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		t := []string{}
		for j := g.r.Intn(3); j > 0; j-- {
			t = append(t, g.num1(2))
		}
		out = append(out, Ins{I: "log", T: t, D: g.num(4)})
		if g.p(1, 6) {
			out = append(out, Ins{I: "call", K: "call", To: g.target(), F: "ignore", S: "1", G: "big", P: g.logprog1()})
		}
	}
	if g.p(1, 8) {
		out = append(out, Ins{I: "revert"})
	}
	return out
}

func (g *chgen) logprog1() []Ins {
	out := []Ins{{I: "log", T: []string{g.num1(2)}, D: g.num(4)}}
	if g.p(1, 2) {
		out = append(out, Ins{I: "revert"})
	}
	return out
}

func (g *chgen) program(mine bool) []Ins {
	if g.prof == "filters" || (g.prof == "ledger" && g.p(1, 2)) {
		return g.logprog()
	}
	if mine {
		return g.prog(3, 0, false)
	}
	return g.prog(2, 0, false)
}

func (g *chgen) blkno(c int) int {
	num := int(*g.w.chains[c-1].State.Pending.Number)
	switch g.r.Intn(10) {
	case 0:
		return -1
	case 1, 2:
		return -2
	case 3:
		return num
	case 4:
		return num + 1 + g.r.Intn(3)
	case 5:
		return num - 1
	}
	n := num - g.r.Intn(8)
	if n < 0 {
		return 0
	}
	return n
}

func (g *chgen) hash() string {
	if len(g.w.byname) > 0 && !g.p(1, 12) {
		return "h" + strconv.Itoa(1+g.r.Intn(len(g.w.byname)))
	}
	return "h9999"
}

// op makes an operation of the given kind
func (g *chgen) op(kind string) Op {
	w := g.w
	o := Op{Op: kind, C: 1 + g.r.Intn(len(w.chains))}
	switch kind {
	case "vseal":
		for i, v := range w.view {
			if v && !w.closed[w.chains[i]] {
				o.C = i + 1
			}
		}
	case "addbal", "s.addbal":
		o.A, o.N = g.acct(), g.r.Intn(6)
	case "subbal", "s.subbal":
		o.A, o.N = g.acct(), g.r.Intn(4)
	case "newacct":
		o.N = g.r.Intn(5)
	case "call", "static", "est":
		o.From, o.To, o.P = g.pick(g.eoas), g.target(), g.program(false)
	case "rcall":
		o.From, o.To, o.P, o.Blk = g.pick(g.eoas), g.target(), g.prog(2, 0, false), g.blkno(o.C)
		if g.p(2, 3) {
			k, v := g.value(true)
			o.P = []Ins{{I: "ret", K: k, V: v}}
		}
	case "rest":
		o.From, o.To, o.P, o.N, o.Blk = g.pick(g.eoas), g.target(), g.program(false), g.amount(), g.blkno(o.C)
		if g.p(1, 4) {
			o.To, o.P = "", g.prog(2, 0, true)
		}
	case "send":
		o.From, o.To, o.N = g.acct(), g.target(), g.amount()
		if g.p(1, 6) {
			o.To = o.From
		}
	case "create":
		o.From, o.P = g.pick(g.eoas), g.prog(2, 0, true)
	case "createat":
		o.From, o.P = g.pick(g.eoas), g.prog(2, 0, true)
		o.A = g.pick([]string{"X", "Z", "D", "X"})
	case "mine", "rsend":
		o.From, o.To, o.N, o.P, o.G = g.pick(g.eoas), g.target(), g.amount(), g.program(true), "big"
		switch g.r.Intn(10) {
		case 0:
			o.To = ""
			o.P = g.prog(3, 0, true)
		case 1:
			if o.P[0].I == "sstore" {
				o.G = "tiny"
			}
		case 2:
			o.To = o.From
		case 3:
			o.P = []Ins{}
		}
	case "rbad":
		o.K = fmt.Sprint(g.r.Intn(1000), g.r.Intn(6), g.r.Intn(1000))
	case "rbal":
		o.A, o.Blk = g.acct(), g.blkno(o.C)
	case "view":
		o.Blk = g.blkno(o.C)
	case "blk":
		o.K, o.Full = "num", g.p(1, 2)
		o.Blk = g.blkno(o.C)
		if o.Blk < 0 {
			o.K = "tag"
		}
		if g.p(1, 3) {
			o.K, o.H, o.Blk = "hash", g.hash(), 0
			if n := len(w.blkh); n > 0 && !g.p(1, 6) {
				o.H = w.blkh[g.r.Intn(n)]
			}
		}
	case "tx", "rx":
		o.H = g.hash()
		if n := len(w.txh); n > 0 && !g.p(1, 6) {
			o.H = w.txh[g.r.Intn(n)]
		}
	case "newf":
		o.FromB, o.ToB = g.blkno(o.C), g.blkno(o.C)
		if g.p(2, 3) {
			o.FromB = 0
		}
		if g.p(2, 3) {
			o.ToB = -1 - g.r.Intn(2)
		}
		if g.p(1, 3) {
			o.A = g.target()
		}
		for n := g.r.Intn(3); n > 0; n-- {
			o.T = append(o.T, g.pick([]string{"", "", "1", "2"}))
		}
	case "poll", "flogs", "unf":
		o.I = 1 + g.r.Intn(len(w.filts[o.C-1])+1)
		if g.p(9, 10) && len(w.filts[o.C-1]) > 0 {
			o.I = 1 + g.r.Intn(len(w.filts[o.C-1]))
		}
	case "load":
		o.I = 1 + g.r.Intn(len(w.saved)+1)
		if g.p(1, 2) {
			o.I = len(w.saved)
		}
		if g.p(1, 3) || len(w.chains) > 4 {
			o.N = 1 + g.r.Intn(len(w.chains))
		}
	case "s.create", "s.suicide":
		o.A = g.acct()
	case "s.setnonce":
		o.A, o.N = g.acct(), g.r.Intn(5)
		if g.prof == "statedb" && g.p(1, 4) {
			o.N = bignonce + g.r.Intn(3)
		}
	case "s.setcode":
		o.A, o.V = g.pick(g.eoas), g.pick([]string{"c1", "c2", "c3", "I"})
		if g.remote {
			o.V = g.pick([]string{"I", "I", ""})
			o.A = g.acct()
		} else if g.p(1, 6) {
			o.V = ""
		}
	case "s.setst":
		o.A, o.S, o.V = g.acct(), g.pick(g.slots), g.num(4)
		if g.p(1, 6) {
			o.V = g.pick(g.eoas)
		}
	case "s.log":
		o.A, o.D = g.acct(), g.num(4)
		for n := g.r.Intn(4); n > 0; n-- {
			o.T = append(o.T, g.num1(3))
		}
	case "s.addrefund":
		o.N = 1 + g.r.Intn(5)
	case "s.subrefund":
		o.N = 1 + g.r.Intn(3)
	case "s.revert":
		n := len(w.snaps[o.C-1])
		o.I = n
		if n > 0 && g.p(1, 3) {
			o.I = 1 + g.r.Intn(n)
		}
		if g.prof == "statedb" {
			if g.p(1, 4) {
				o.K = "stale"
			} else if g.p(1, 12) {
				o.K = "neg"
			}
		}
	case "rd":
		o.A, o.S = g.acct(), g.pick(g.slots)
		ks := []string{"bal", "nonce", "code", "size", "hash", "st", "st", "ex", "empty"}
		if g.prof == "statedb" {
			ks = append(ks, "dead", "refund")
		}
		o.K = g.pick(ks)
	}
	return o
}

func (g *chgen) note(p []Ins) {}

// learn which interpreters there are
func (g *chgen) learn(o *Op) {
	w := g.w
	switch o.Op {
	case "call", "mine", "create", "createat", "rsend", "load", "copy", "view", "reset":
	default:
		return
	}
	seen := map[string]bool{}
	for _, l := range g.inters {
		seen[l] = true
	}
	add := func(l string) {
		if !seen[l] && len(g.inters) < 8 && strings.Count(l, "/") < 2 {
			seen[l] = true
			g.inters = append(g.inters, l)
			if strings.Contains(l, "/") {
				w.accts = append(w.accts, l)
			}
		}
	}
	c := w.chains[len(w.chains)-1]
	if o.C >= 1 && o.C <= len(w.chains) {
		c = w.chains[o.C-1]
	}
	// contracts appear under their creator's successive nonces
	cand := append(append([]string{}, g.eoas...), g.inters...)
	cand = append(cand, "X", "Z")
	for _, l := range cand {
		a := w.nm.Addr(l)
		if l == "X" || l == "Z" || l == "D" {
			if codeLabel(c.State.Code.Get(a[:])) == "I" {
				add(l)
			}
		}
		if strings.Count(l, "/") > 1 {
			continue
		}
		for n := 0; n < 5; n++ {
			k := l + "/" + strconv.Itoa(n)
			if seen[k] {
				continue
			}
			if _, ok := globalAddr[k]; !ok {
				continue
			}
			b := w.nm.Addr(k)
			if len(c.State.Accounts.Get(b[:])) > 0 {
				add(k)
			}
		}
	}
}

func driveChain(t *Trace, a *Args) {
	pr := profiles[a.Profile]
	if pr == nil {
		panic("HARNESS BUG: profile " + a.Profile)
	}
	for _, s := range a.Scripts {
		var ops []Op
		if err := json.Unmarshal(s, &ops); err != nil {
			panic("HARNESS BUG: " + err.Error())
		}
		runChainScript(t, pr, ops)
	}
	var kinds []string
	for k := range pr.weights {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for i := 0; i < a.N; i++ {
		randChain(t, pr, a, kinds)
	}
}

// the beginning of every script: see World0 in spec/MCChain.tla
var prelude = []Op{{Op: "reset", Unit: "1"}, {Op: "addbal", C: 1, A: "A", N: 3}, {Op: "addbal", C: 1, A: "B", N: 2}, {Op: "create", C: 1, From: "A"}}

func runChainScript(t *Trace, pr *profile, ops []Op) {
	w := newWorld(t, pr)
	w.slots = []string{"1", "2", "3"}
	for i := range prelude {
		o := prelude[i]
		if i == 0 && pr == profiles["fork"] {
			// see Remote0 in spec/MCChain.tla
			o.Fork = true
			o.Rem = &Remote{Bal: map[string]int{"X": 2, "C": 1}, Nonce: map[string]int{"X": 0, "C": 1}, Code: map[string]string{"X": "I"},
				St: [][3]string{{"X", "1", "2"}, {"X", "2", "3"}}, Block: 99}
		}
		if !w.Do(&o) {
			return
		}
	}
	w.accts = []string{"A/0", "A/1", "A/0/1"}
	for i := range ops {
		if !w.Do(&ops[i]) {
			return
		}
		switch ops[i].Op {
		case "s.revert", "static", "est", "rcall", "rest", "rbal", "load":
			if pr.obs != "" && !w.Do(&Op{Op: "obs", C: ops[i].C}) {
				return
			}
		}
	}
	w.finish()
}

// finish looks at everything once more
func (w *World) finish() {
	for i := range w.chains {
		if w.closed[w.chains[i]] {
			continue
		}
		if w.prof.obs != "" && !w.Do(&Op{Op: "obs", C: i + 1}) {
			return
		}
		if w.prof.audit == "" {
			continue
		}
		if w.view[i] {
			// what has been mined is known to the view, with its receipt, or it is not
			for k := range w.txh {
				if k > 6 {
					break
				}
				if !w.Do(&Op{Op: "tx", C: i + 1, H: w.txh[k]}) || !w.Do(&Op{Op: "rx", C: i + 1, H: w.txh[k]}) {
					return
				}
			}
			continue
		}
		num := int(*w.chains[i].State.Pending.Number)
		lo := num - 7
		if lo < 0 {
			lo = 0
		}
		try := func(o Op) bool {
			o.C = i + 1
			return w.Do(&o)
		}
		if strings.Contains(w.prof.audit, "receipts") && len(w.txh) > 0 {
			if !try(Op{Op: "seal"}) {
				return
			}
			for k := range w.txh {
				if !try(Op{Op: "rx", H: w.txh[k]}) {
					return
				}
			}
		}
		if strings.Contains(w.prof.audit, "ledger") {
			for k := range w.txh {
				if k > 12 {
					break
				}
				if !try(Op{Op: "tx", H: w.txh[k]}) || !try(Op{Op: "rx", H: w.txh[k]}) {
					return
				}
			}
			for k := lo; k <= num; k++ {
				if !try(Op{Op: "blk", K: "num", Blk: k, Full: (k+w.n)%2 == 0}) {
					return
				}
			}
			for k := range w.blkh {
				if k > 12 {
					break
				}
				if !try(Op{Op: "blk", K: "hash", H: w.blkh[k], Full: (k+w.n)%2 == 1}) {
					return
				}
			}
			if !try(Op{Op: "blk", K: "tag", Blk: -1}) || !try(Op{Op: "blk", K: "tag", Blk: -2, Full: true}) {
				return
			}
		}
		if strings.Contains(w.prof.audit, "history") {
			for k := lo; k <= num+1; k++ {
				for _, a := range []string{"A", "A/0"} {
					if !try(Op{Op: "rbal", A: a, Blk: k}) {
						return
					}
				}
				if !try(Op{Op: "rcall", From: "B", To: "A/0", Blk: k, P: []Ins{{I: "ret", K: "sload", V: "1"}}}) {
					return
				}
			}
		}
	}
}

var units = []string{"1", "1000000000000000000", "1", "340282366920938463463374607431768211456", "1000000000000000000",
	"28269553036454149273332760011886696253239742350009903329945699220681916416"} // 2^244

func randChain(t *Trace, pr *profile, a *Args, kinds []string) {
	r := a.Rng
	w := newWorld(t, pr)
	g := &chgen{w: w, r: r, prof: a.Profile, slots: []string{"1", "2", wide[r.Intn(len(wide))], wide[r.Intn(2)]}[:2+r.Intn(3)],
		eoas: []string{"A", "B", "C"}}
	if len(g.slots) == 4 && g.slots[2] == g.slots[3] {
		g.slots[3] = "0"
	}
	w.slots = g.slots
	do := func(o Op) bool {
		if !w.Do(&o) {
			return false
		}
		return t.try("learn", func() { g.learn(&o) })
	}
	o := Op{Op: "reset", Unit: units[r.Intn(len(units))], Ts: r.Intn(2) * (1 + r.Intn(1<<30))}
	g.env = true
	if a.Profile == "fork" {
		g.remote = true
		o.Fork, o.Rem = true, g.randRemote()
	}
	if !do(o) {
		return
	}
	if a.Profile == "statedb" {
		g.eoas = []string{"A", "B", "C", "D"}
	} else {
		for _, x := range []string{"A", "B"} {
			if !do(Op{Op: "addbal", C: 1, A: x, N: 5 + r.Intn(20)}) {
				return
			}
		}
		if !g.remote || r.Intn(2) == 0 {
			// an interpreter to work with
			if !do(Op{Op: "create", C: 1, From: "A", P: []Ins{{I: "log", D: "1"}}}) {
				return
			}
			if r.Intn(2) == 0 && !do(Op{Op: "createat", C: 1, A: "X", From: "B", P: []Ins{{I: "sstore", S: "1", K: "const", V: "1"}}}) {
				return
			}
		}
	}
	for i := 5 + r.Intn(a.Steps); i > 0; i-- {
		sum := 0
		for _, k := range kinds {
			sum += pr.weights[k]
		}
		x := r.Intn(sum)
		j := 0
		for x >= pr.weights[kinds[j]] {
			x -= pr.weights[kinds[j]]
			j++
		}
		k := kinds[j]
		switch {
		case k == "copy" && len(w.chains) > 4, k == "view" && len(w.chains) > 6, k == "load" && (len(w.saved) == 0 || len(w.chains) > 6):
			continue
		case k == "revertpair":
			// a snapshot and, some writes later, the revert to it: nothing is
			// sealed or mined in between
			c := 1 + r.Intn(len(w.chains))
			if !do(Op{Op: "s.snap", C: c}) {
				return
			}
			for n := r.Intn(5); n > 0; n-- {
				kk := g.pick([]string{"s.setst", "s.addbal", "s.log", "call", "s.setnonce", "copy", "save", "load"})
				if kk == "copy" && (a.Profile != "copies" || len(w.chains) > 4) {
					continue
				}
				if (kk == "save" || kk == "load") && (a.Profile != "json" || len(w.chains) > 6) {
					continue
				}
				o := g.op(kk)
				o.C = c
				if !do(o) {
					return
				}
			}
			cc := c
			if r.Intn(3) == 0 {
				cc = len(w.chains)
			}
			if n := len(w.snaps[cc-1]); n > 0 {
				if !do(Op{Op: "s.revert", C: cc, I: n}) {
					return
				}
			}
			// what was remembered before is of no further use, since blocks get sealed
			for i := range w.snaps {
				w.snaps[i] = nil
			}
			for i := range w.savedsnaps {
				w.savedsnaps[i] = nil
			}
			continue
		}
		o := g.op(k)
		if !do(o) {
			return
		}
		look := false
		switch a.Profile {
		case "exec", "ether":
			look = r.Intn(2) == 0
		case "readonly":
			look = k == "static" || k == "rcall" || k == "rest" || k == "est" || r.Intn(2) == 0
		case "statedb":
			look = k == "s.revert" && r.Intn(2) == 0
		case "history":
			look = r.Intn(4) == 0
		}
		if look && !do(Op{Op: "obs", C: o.C}) {
			return
		}
	}
	w.finish()
}

func (g *chgen) randRemote() *Remote {
	r := g.r
	m := &Remote{Bal: map[string]int{}, Nonce: map[string]int{}, Code: map[string]string{}, Block: r.Intn(5000)}
	for _, l := range []string{"A", "B", "C", "X"} {
		if r.Intn(3) == 0 {
			continue
		}
		m.Bal[l], m.Nonce[l] = r.Intn(10), r.Intn(4)
		if l == "X" && r.Intn(3) == 0 {
			m.Bal[l], m.Nonce[l] = 0, 0
		}
		if l == "X" || r.Intn(4) == 0 {
			m.Code[l] = "I"
			g.inters = append(g.inters, l)
		}
		if m.Bal[l] == 0 && m.Nonce[l] == 0 && m.Code[l] == "" {
			m.Bal[l] = 1
		}
		for _, s := range g.slots {
			if r.Intn(2) == 0 {
				m.St = append(m.St, [3]string{l, s, strconv.Itoa(1 + r.Intn(5))})
			}
		}
	}
	return m
}
