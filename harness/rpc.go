package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/philhofer/seth"
)

func init() { drivers["rpc"] = driveRPC }

type connErr struct{ k int }

func (e connErr) Error() string { return fmt.Sprintf("connection %d is broken", e.k) }

type dialErr struct{ n int }

func (e dialErr) Error() string { return fmt.Sprintf("dial %d failed", e.n) }

// fakeNet is a dialer, its connections and the server behind them
type fakeNet struct {
	*Hist // its lock makes every step and its event atomic
	cond  *sync.Cond
	rng   *rand.Rand

	conns    []*fakeConn
	dials    int
	failDial bool // the next dial fails
	cutWrite bool // the next write fails half-way
	ended    map[int]bool
	callconn map[int]int
	callid   map[int]int
	nresp    int
	calls    int
}

type fakeConn struct {
	n      *fakeNet
	k      int
	in     bytes.Buffer // not yet a whole request
	out    []byte       // responses not read yet
	rerr   error
	closed bool
	reqs   []fakeReq // not answered
	chunk  int
}

type fakeReq struct{ c, id int }

func newFakeNet(rng *rand.Rand) *fakeNet {
	n := &fakeNet{Hist: new(Hist), rng: rng, ended: map[int]bool{}, callconn: map[int]int{}, callid: map[int]int{}}
	n.cond = sync.NewCond(&n.mu)
	return n
}

func (n *fakeNet) dial() (io.ReadWriteCloser, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.dials++
	if n.failDial {
		n.failDial = false
		n.emit(M{"op": "dialfail", "n": n.dials})
		return nil, dialErr{n.dials}
	}
	c := &fakeConn{n: n, k: len(n.conns) + 1, chunk: []int{1 << 20, 1 << 20, 1, 7, 64}[n.rng.Intn(5)]}
	n.conns = append(n.conns, c)
	n.emit(M{"op": "dial", "k": c.k})
	return c, nil
}

func (c *fakeConn) Read(p []byte) (int, error) {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	for len(c.out) == 0 && c.rerr == nil && !c.closed {
		n.cond.Wait()
	}
	if c.closed {
		return 0, connErr{c.k}
	}
	if len(c.out) == 0 {
		return 0, c.rerr
	}
	m := len(c.out)
	if m > c.chunk {
		m = c.chunk
	}
	m = copy(p, c.out[:m])
	c.out = c.out[m:]
	return m, nil
}

type wireReq struct {
	Version string            `json:"jsonrpc"`
	Method  string            `json:"method"`
	Params  []json.RawMessage `json:"params"`
	ID      *int              `json:"id"`
}

// callOf gives the number of the call that a request belongs to, 0 if it is not one of ours
func callOf(raw []byte) (c, id int) {
	var r wireReq
	d := json.NewDecoder(bytes.NewReader(raw))
	d.DisallowUnknownFields()
	if d.Decode(&r) != nil || r.Version != "2.0" || len(r.Params) != 2 || r.ID == nil {
		return 0, 0
	}
	var pad string
	if json.Unmarshal(r.Params[0], &c) != nil || json.Unmarshal(r.Params[1], &pad) != nil ||
		r.Method != fmt.Sprintf("m%d", c) || pad != padding(c) {
		return 0, 0
	}
	return c, *r.ID
}

func padding(c int) string {
	return strings.Repeat(string(rune('a'+c%26)), []int{0, 3, 40, 700, 5000}[c%5])
}

func (c *fakeConn) Write(p []byte) (int, error) {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if c.closed || c.rerr != nil || n.cutWrite {
		n.cutWrite = false
		m := 0
		if !c.closed && c.rerr == nil {
			m = n.rng.Intn(len(p))
		}
		// which calls this is about to lose
		who, _ := callOf(append(append([]byte(nil), c.in.Bytes()...), p...))
		n.callconn[who] = c.k
		n.emit(M{"op": "cut", "k": c.k, "c": who})
		if c.rerr == nil {
			c.rerr = connErr{c.k}
		}
		n.cond.Broadcast()
		return m, connErr{c.k}
	}
	c.in.Write(p)
	for {
		d := json.NewDecoder(bytes.NewReader(c.in.Bytes()))
		var raw json.RawMessage
		err := d.Decode(&raw)
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			break
		}
		if err != nil {
			n.emit(M{"op": "garbled", "k": c.k})
			c.in.Reset()
			break
		}
		c.in.Next(int(d.InputOffset()))
		who, id := callOf(raw)
		if who == 0 {
			n.emit(M{"op": "garbled", "k": c.k})
			continue
		}
		n.emit(M{"op": "req", "k": c.k, "id": id, "c": who})
		n.callconn[who], n.callid[who] = c.k, id
		c.reqs = append(c.reqs, fakeReq{who, id})
		n.cond.Broadcast()
	}
	return len(p), nil
}

func (c *fakeConn) Close() error {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if !c.closed {
		c.closed = true
		n.emit(M{"op": "close", "k": c.k})
	}
	n.cond.Broadcast()
	return nil
}

func (c *fakeConn) live() bool { return !c.closed && c.rerr == nil }

// responseText is a response in one of the forms servers send
func (n *fakeNet) responseText(id int, kind string, v int) string {
	var body string
	switch kind {
	case "result":
		body = fmt.Sprintf(`"result":"v%d"`, v)
		switch n.rng.Intn(4) {
		case 0:
			body += `,"error":null`
		case 1:
			body = fmt.Sprintf(`"extra":{"id":12345678},"result":"\u0076%d"`, v)
		}
	case "error":
		body = fmt.Sprintf(`"error":{"code":%d,"message":"e%d"}`, -32000, v)
		switch n.rng.Intn(4) {
		case 0:
			body = fmt.Sprintf(`"error":{"code":3,"message":"e%d","data":"0x1234"}`, v)
		case 1:
			body = fmt.Sprintf(`"result":null,"error":{"code":0,"message":"e%d","data":null}`, v)
		}
	case "null":
		body = `"result":null`
	case "bad":
		body = `"result":12345`
	}
	var s string
	switch n.rng.Intn(3) {
	case 0:
		s = fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,%s}`, id, body)
	case 1:
		s = fmt.Sprintf("{%s ,\n\"id\" : %d, \"jsonrpc\":\"2.0\"}\n", body, id)
	default:
		s = fmt.Sprintf(" {\"id\":%d,%s,\"jsonrpc\":\"2.0\"}\r\n\n", id, body)
	}
	return s
}

// respond sends a response; the caller holds n.mu
func (n *fakeNet) respond(c *fakeConn, id int, kind string) {
	n.nresp++
	v := n.nresp
	if kind == "null" || kind == "bad" {
		v = 0
	}
	s := n.responseText(id, kind, n.nresp)
	n.emit(M{"op": "resp", "k": c.k, "id": id, "kind": kind, "v": v})
	c.out = append(c.out, s...)
}

func (n *fakeNet) brk(c *fakeConn, kind string) {
	switch kind {
	case "eof":
		c.rerr = io.EOF
	case "within":
		s := n.responseText(1, "result", 99999)
		if len(c.reqs) > 0 {
			s = n.responseText(c.reqs[0].id, "result", 99999)
		}
		s = strings.TrimSpace(s)
		c.out = append(c.out, s[:1+n.rng.Intn(len(s)-1)]...)
		c.rerr = []error{io.EOF, connErr{c.k}}[n.rng.Intn(2)]
	case "junk":
		c.out = append(c.out, []string{"}", "[1,2]", "HTTP/1.1 400\r\n", "\x00\x01"}[n.rng.Intn(4)]...)
		c.rerr = io.EOF
	default:
		c.rerr = connErr{c.k}
	}
	n.emit(M{"op": "brk", "k": c.k})
}

func (n *fakeNet) end(c int, v string, err error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	var (
		out string
		val int
		re  *seth.RPCError
		ce  connErr
		de  dialErr
		se  *json.SyntaxError
		te  *json.UnmarshalTypeError
		me  *json.MarshalerError
	)
	switch {
	case err == nil:
		out = "val"
		if _, e := fmt.Sscanf(v, "v%d", &val); e != nil {
			val = -1
		}
	case errors.As(err, &re):
		out = "rpcerr"
		if _, e := fmt.Sscanf(re.Message, "e%d", &val); e != nil || re.Code != 0 && re.Code != 3 && re.Code != -32000 {
			val = -1
		}
	case err == seth.ErrNotFound:
		out = "notfound"
	case errors.As(err, &ce):
		out, val = "conn", ce.k
	case errors.As(err, &de):
		out, val = "dial", de.n
	case errors.As(err, &me):
		out = "encode"
	case errors.As(err, &te) && te.Value == "number" && te.Type.String() == "string":
		out = "badval"
	case err == io.EOF || err == io.ErrUnexpectedEOF || errors.As(err, &te) || errors.As(err, &se):
		out, val = "conn", n.callconn[c]
	default:
		out = "unknown: " + err.Error()
	}
	n.ended[c] = true
	n.emit(M{"op": "end", "c": c, "out": out, "v": val})
	n.cond.Broadcast()
}

// call makes one call from a new goroutine
func (n *fakeNet) call(cl *seth.Client, c int, bad bool) {
	var out string
	p0 := json.RawMessage(fmt.Sprint(c))
	if bad {
		p0 = json.RawMessage(`{"half`)
	}
	pad, _ := json.Marshal(padding(c))
	n.guard("Client.Do", func() {
		err := cl.Do(fmt.Sprintf("m%d", c), []json.RawMessage{p0, pad}, &out)
		n.end(c, out, err)
	})
}

func (n *fakeNet) newCall(bad bool) int {
	n.mu.Lock()
	n.calls++
	c := n.calls
	n.emit(M{"op": "start", "c": c, "bad": bad})
	n.mu.Unlock()
	return c
}

// waitFor waits until cond, called with the lock held, is true; a
// history in which that does not happen is at an end
func (n *fakeNet) waitFor(what string, cond func() bool) bool {
	deadline := time.Now().Add(30 * time.Second)
	stop := time.AfterFunc(30*time.Second, func() { n.mu.Lock(); n.cond.Broadcast(); n.mu.Unlock() })
	defer stop.Stop()
	n.mu.Lock()
	defer n.mu.Unlock()
	for !cond() {
		if time.Now().After(deadline) {
			n.emit(M{"op": "HANG", "in": what})
			return false
		}
		n.cond.Wait()
	}
	return true
}

func (n *fakeNet) last() *fakeConn {
	if len(n.conns) == 0 {
		return nil
	}
	return n.conns[len(n.conns)-1]
}

type rpcop struct {
	Op   string `json:"op"`
	C    int    `json:"c"`
	Kind string `json:"kind"`
}

// finish lets every call end
func (n *fakeNet) finish() bool {
	ok := n.waitFor("the end of all calls", func() bool {
		for _, c := range n.conns {
			if c.live() {
				for _, r := range c.reqs {
					n.respond(c, r.id, "result")
				}
				c.reqs = nil
				n.cond.Broadcast()
			}
		}
		return len(n.ended) == n.calls
	}) && n.waitFor("the client to close the connections it does not use", func() bool {
		for i, c := range n.conns {
			if !c.closed && (c.rerr != nil || i < len(n.conns)-1) {
				return false
			}
		}
		return true
	})
	if ok {
		n.Emit(M{"op": "quiet"})
	}
	return ok
}

func (n *fakeNet) script(ops []rpcop) {
	cl := seth.NewClient(n.dial)
	num := map[int]int{} // calls of the script -> calls made
	for _, o := range ops {
		switch o.Op {
		case "start":
			c := n.newCall(o.Kind == "bad")
			num[o.C] = c
			go n.call(cl, c, o.Kind == "bad")
			if !n.waitFor("start", func() bool { return n.ended[c] || n.callid[c] != 0 }) {
				return
			}
		case "dialfail", "cut":
			n.mu.Lock()
			n.failDial, n.cutWrite = o.Op == "dialfail", o.Op == "cut"
			n.mu.Unlock()
		case "ans", "dup":
			c := num[o.C]
			n.mu.Lock()
			k := n.last()
			sent := false
			if k != nil && k.live() && n.callid[c] != 0 {
				if o.Op == "dup" {
					n.respond(k, n.callid[c], o.Kind)
				} else {
					for i, r := range k.reqs {
						if r.c == c {
							n.respond(k, r.id, o.Kind)
							k.reqs = append(k.reqs[:i:i], k.reqs[i+1:]...)
							sent = true
							break
						}
					}
				}
			}
			n.cond.Broadcast()
			n.mu.Unlock()
			if sent && !n.waitFor("answer", func() bool { return n.ended[c] }) {
				return
			}
		case "burst":
			n.mu.Lock()
			k := n.last()
			var who []int
			if k != nil && k.live() {
				for i := len(k.reqs) - 1; i >= 0; i-- {
					n.respond(k, k.reqs[i].id, []string{"result", "error", "null", "bad"}[n.rng.Intn(4)])
					who = append(who, k.reqs[i].c)
				}
				k.reqs = nil
			}
			n.cond.Broadcast()
			n.mu.Unlock()
			if !n.waitFor("burst", func() bool {
				for _, c := range who {
					if !n.ended[c] {
						return false
					}
				}
				return true
			}) {
				return
			}
		case "brk":
			n.mu.Lock()
			k := n.last()
			if k == nil || !k.live() {
				n.mu.Unlock()
				continue
			}
			n.brk(k, o.Kind)
			n.cond.Broadcast()
			n.mu.Unlock()
			if !n.waitFor("break", func() bool {
				for c, kk := range n.callconn {
					if kk == k.k && !n.ended[c] {
						return false
					}
				}
				return true
			}) {
				return
			}
			// the client notices that the connection is no good, also
			// when it is idle, so that the next call does not try it
			if !n.waitFor("the client to close a broken connection", func() bool { return k.closed }) {
				return
			}
		}
	}
	n.mu.Lock()
	n.failDial, n.cutWrite = false, false
	n.mu.Unlock()
	n.finish()
}

// random makes calls from several goroutines at once against a server that
// answers out of order; faults is the rate of connection faults
func (n *fakeNet) random(steps int, faults bool) {
	cl := seth.NewClient(n.dial)
	var wg sync.WaitGroup
	srv := rand.New(rand.NewSource(n.rng.Int63()))
	rs := make([]*rand.Rand, 1+n.rng.Intn(8))
	for g := range rs {
		rs[g] = rand.New(rand.NewSource(n.rng.Int63()))
	}
	for _, r := range rs {
		wg.Add(1)
		r := r
		k := 1 + r.Intn(steps/4+1)
		go func() {
			defer wg.Done()
			for i := 0; i < k; i++ {
				bad := r.Intn(20) == 0
				n.call(cl, n.newCall(bad), bad)
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
		}()
	}
	stop := make(chan struct{})
	var sg sync.WaitGroup
	sg.Add(1)
	go func() {
		defer sg.Done()
		kinds := []string{"result", "result", "result", "error", "null", "bad"}
		for {
			select {
			case <-stop:
				return
			default:
			}
			n.mu.Lock()
			c := n.last()
			if c != nil && c.live() {
				switch x := srv.Intn(40); {
				case x < 24 && len(c.reqs) > 0:
					m := 1
					if srv.Intn(4) == 0 {
						m = len(c.reqs)
					}
					for ; m > 0; m-- {
						i := srv.Intn(len(c.reqs))
						r := c.reqs[i]
						c.reqs = append(c.reqs[:i:i], c.reqs[i+1:]...)
						n.respond(c, r.id, kinds[srv.Intn(len(kinds))])
						if srv.Intn(8) == 0 {
							n.respond(c, r.id, "result") // a second answer
						}
					}
				case x == 24:
					n.respond(c, 1000000+srv.Intn(10), "result")
				case x == 25 && len(n.conns) > 1:
					// an id of an earlier call
					for _, id := range n.callid {
						inflight := false
						for _, r := range c.reqs {
							inflight = inflight || r.id == id
						}
						if !inflight {
							n.respond(c, id, "result")
						}
						break
					}
				case x == 26 && faults:
					n.brk(c, []string{"eof", "within", "junk", "err"}[srv.Intn(4)])
				case x == 27 && faults:
					n.cutWrite = true
				case x == 28 && faults:
					n.failDial = true
				}
				n.cond.Broadcast()
			} else if faults && srv.Intn(200) == 0 {
				n.failDial = true
			}
			n.mu.Unlock()
			time.Sleep(time.Duration(srv.Intn(120)) * time.Microsecond)
		}
	}()
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(60 * time.Second):
		n.Emit(M{"op": "HANG"})
	}
	close(stop)
	sg.Wait()
	n.mu.Lock()
	n.failDial, n.cutWrite = false, false
	n.mu.Unlock()
	select {
	case <-fin:
		n.finish()
	default:
	}
}

func driveRPC(t *Trace, a *Args) {
	total := len(a.Scripts) + a.N
	t.parallel(total, 6, func(i int, h *Hist) {
		n := newFakeNet(rand.New(rand.NewSource(a.Seed*1000003 + int64(i))))
		n.Hist = h
		n.cond = sync.NewCond(&h.mu)
		h.Emit(M{"op": "reset"})
		if i < len(a.Scripts) {
			var ops []rpcop
			if err := json.Unmarshal(a.Scripts[i], &ops); err != nil {
				panic("HARNESS BUG: " + err.Error())
			}
			n.script(ops)
			return
		}
		n.random(a.Steps, a.Profile == "faults")
	})
}
