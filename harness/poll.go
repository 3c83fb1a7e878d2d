package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/philhofer/seth"
)

func init() {
	drivers["filterclient"] = driveFilterClient
	drivers["blockiter"] = driveBlockIter
}

const transferSig = "ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef"

func addrOf(label string) (a seth.Address) {
	for i := range a {
		a[i] = label[0]
	}
	return
}

func topicOf(label string) (h seth.Hash) {
	for i := range h {
		h[i] = label[len(label)-1]
	}
	return
}

// labels of what a request for a filter says
func labelAddr(s string) string {
	for _, l := range []string{"A", "B", "C"} {
		a := addrOf(l)
		if strings.EqualFold(s, "0x"+hex.EncodeToString(a[:])) {
			return l
		}
	}
	return "?" + s
}

func labelTopic(s string) string {
	s = strings.ToLower(strings.TrimPrefix(s, "0x"))
	if s == transferSig {
		return "Transfer"
	}
	for _, l := range []string{"T1", "T2", "T3"} {
		h := topicOf(l)
		if s == hex.EncodeToString(h[:]) {
			return l
		}
	}
	if len(s) == 64 && strings.HasPrefix(s, strings.Repeat("0", 24)) {
		return labelAddr("0x" + s[24:])
	}
	return "?" + s
}

// bound is a block designation in canonical form
func bound(raw json.RawMessage) M {
	var s string
	if len(raw) == 0 || string(raw) == "null" {
		return M{"t": "none", "n": 0}
	}
	if json.Unmarshal(raw, &s) == nil {
		switch s {
		case "latest", "pending":
			return M{"t": s, "n": 0}
		case "earliest":
			return M{"t": "num", "n": 0}
		}
		if n, err := strconv.ParseInt(strings.TrimPrefix(s, "0x"), 16, 32); err == nil && strings.HasPrefix(s, "0x") && n >= 0 &&
			s == fmt.Sprintf("0x%x", n) {
			return M{"t": "num", "n": int(n)}
		}
	}
	return M{"t": "?", "n": 0}
}

// fcScript is one history of a filter
type fcScript struct {
	Kind   string   `json:"kind"` // topics, transfers
	Start  int64    `json:"start"`
	End    int64    `json:"end"`
	Addr   string   `json:"addr"`
	Topics []string `json:"topics"` // of the topics kind
	From   string   `json:"from"`
	To     string   `json:"to"`
	Inst   string   `json:"inst"` // ok, rpc, null, transport, form
	Steps  []fcStep `json:"steps"`
	Twice  bool     `json:"twice"`
	Slow   bool     `json:"slow"`
}

type fcStep struct {
	Op string `json:"op"` // answer, fail, close
	N  int    `json:"n"`
	K  string `json:"k"`
	W  string `json:"w"` // of close: idle, now, before, during
}

func logJSON(n int) string {
	return fmt.Sprintf(`{"removed":false,"logIndex":"0x%x","transactionIndex":"0x0","transactionHash":"0x%064x","blockHash":"0x%064x","blockNumber":"0x%x","address":"0x%040x","data":"0x%04x","topics":["0x%064x"]}`,
		n, n, n, n, n, n, n)
}

// logNum gives back the number of a log, all of whose fields have to say the same
func logNum(l *seth.Log) int {
	n := 0
	if l.LogIndex != nil {
		n = int(*l.LogIndex)
	}
	var want seth.Log
	if json.Unmarshal([]byte(logJSON(n)), &want) != nil {
		return -1
	}
	a, _ := json.Marshal(l)
	b, _ := json.Marshal(&want)
	if string(a) != string(b) {
		return -1
	}
	return n
}

func failAnswer(k string) answer {
	switch k {
	case "form":
		return answer{"ok", `5`}
	}
	return answer{kind: k}
}

func runFilterClient(h *Hist, sc *fcScript, rng *rand.Rand) {
	h.Emit(M{"op": "reset"})
	var (
		mu      sync.Mutex
		step    int
		nlog    int
		passed  = make(chan int, 10000) // numbers passed to the consumer
		gone    = make(chan struct{})
		goneOne sync.Once
		isgone  bool
		closeIt = make(chan struct{}, 4) // asks the closer to call Close
		idleAt  = make(chan int, 4)      // close once so many were passed
		id      = 1 + rng.Intn(1<<20)
		fin     = make(chan struct{}) // the script is over
		finOne  sync.Once
	)
	if rng.Intn(4) == 0 {
		id = 1<<30 + rng.Intn(1<<30)
	}
	args := M{"kind": sc.Kind, "start": sc.Start, "end": sc.End, "addr": sc.Addr, "topics": sc.Topics, "tfrom": sc.From, "tto": sc.To}
	if sc.Topics == nil {
		args["topics"] = []string{}
	}
	badID := func(p []json.RawMessage) int {
		b := M{"n": -1}
		if len(p) == 1 {
			b = bound(p[0])
		}
		if b["t"] != "num" {
			return -1
		}
		return b["n"].(int)
	}
	serve := func(m string, p []json.RawMessage) answer {
		switch m {
		case "eth_newFilter":
			var f struct {
				From    json.RawMessage `json:"fromBlock"`
				To      json.RawMessage `json:"toBlock"`
				Address *string         `json:"address"`
				Topics  []*string       `json:"topics"`
			}
			if len(p) != 1 || json.Unmarshal(p[0], &f) != nil {
				h.Emit(M{"op": "garbled"})
				return answer{kind: "rpc"}
			}
			ts := []string{}
			for _, t := range f.Topics {
				if t == nil {
					ts = append(ts, "*")
				} else {
					ts = append(ts, labelTopic(*t))
				}
			}
			ad := ""
			if f.Address != nil {
				ad = labelAddr(*f.Address)
			}
			h.Emit(M{"op": "install", "args": args, "out": sc.Inst, "id": id,
				"req": M{"from": bound(f.From), "to": bound(f.To), "addr": ad, "topics": ts}})
			if sc.Inst == "ok" {
				return answer{"ok", fmt.Sprintf(`"0x%x"`, id)}
			}
			if sc.Inst == "form" {
				return answer{"ok", `[]`}
			}
			return answer{kind: sc.Inst}
		case "eth_getFilterLogs", "eth_getFilterChanges":
			what := "logs"
			if m == "eth_getFilterChanges" {
				what = "changes"
			}
			h.Emit(M{"op": "fetch", "what": what, "id": badID(p)})
			mu.Lock()
			defer mu.Unlock()
			dead := isgone
			var st fcStep
			if step < len(sc.Steps) {
				st = sc.Steps[step]
				step++
			}
			if st.Op == "close" && st.W == "during" {
				mu.Unlock()
				closeIt <- struct{}{}
				select {
				case <-gone:
				case <-time.After(3 * time.Second):
				}
				mu.Lock()
				st = fcStep{Op: "answer", N: st.N, K: st.K}
				if st.K != "" {
					st.Op = "fail"
				}
			} else if dead {
				st = fcStep{Op: "fail", K: "rpc"}
			}
			// closing steps that follow
			for !dead && step < len(sc.Steps) && sc.Steps[step].Op == "close" && sc.Steps[step].W != "during" {
				w := sc.Steps[step].W
				step++
				if w == "idle" {
					n := nlog
					if st.Op == "answer" {
						n += st.N
					}
					idleAt <- n
				} else {
					closeIt <- struct{}{}
				}
			}
			if step >= len(sc.Steps) {
				finOne.Do(func() { close(fin) })
			}
			if st.Op == "fail" {
				h.Emit(M{"op": "fail", "kind": strings.TrimSuffix(st.K, "0")})
				return failAnswer(st.K)
			}
			var ns []int
			var txt []string
			for i := 0; i < st.N; i++ {
				nlog++
				ns = append(ns, nlog)
				txt = append(txt, logJSON(nlog))
			}
			if ns == nil {
				ns = []int{}
			}
			h.Emit(M{"op": "answer", "logs": ns})
			return answer{"ok", "[" + strings.Join(txt, ",") + "]"}
		case "eth_uninstallFilter":
			h.Emit(M{"op": "uninstall", "id": badID(p)})
			mu.Lock()
			isgone = true
			mu.Unlock()
			goneOne.Do(func() { close(gone) })
			if rng.Intn(3) == 0 {
				return answer{"ok", "false"}
			}
			return answer{"ok", "true"}
		}
		h.Emit(M{"op": "garbled", "m": m})
		return answer{kind: "rpc"}
	}
	c := seth.NewClientTransport(direct{serve})
	var f *seth.Filter
	var err error
	var ad, from, to *seth.Address
	lab := func(s string) *seth.Address {
		if s == "" {
			return nil
		}
		a := addrOf(s)
		return &a
	}
	ad, from, to = lab(sc.Addr), lab(sc.From), lab(sc.To)
	h.guard("FilterTopics", func() {
		if sc.Kind == "transfers" {
			f, err = c.TokenTransfers(from, to, ad, sc.Start, sc.End)
			return
		}
		var ts []*seth.Hash
		for _, t := range sc.Topics {
			if t == "*" {
				ts = append(ts, nil)
			} else {
				x := topicOf(t)
				ts = append(ts, &x)
			}
		}
		f, err = c.FilterTopics(ts, ad, sc.Start, sc.End)
	})
	if err != nil || f == nil {
		h.Emit(M{"op": "newfailed"})
		h.Emit(M{"op": "quiet"})
		return
	}
	h.Emit(M{"op": "new"})
	ended := make(chan struct{})
	got := 0
	var gmu sync.Mutex
	slow := sc.Slow
	srng := rand.New(rand.NewSource(rng.Int63()))
	go func() {
		if slow {
			time.Sleep(300 * time.Millisecond)
		}
		for l := range f.Out() {
			h.Emit(M{"op": "pass", "log": logNum(l)})
			gmu.Lock()
			got++
			gmu.Unlock()
			passed <- got
			if slow && srng.Intn(8) == 0 {
				time.Sleep(30 * time.Millisecond)
			}
		}
		h.Emit(M{"op": "end"})
		close(ended)
	}()
	var closers sync.WaitGroup
	doClose := func() {
		h.Emit(M{"op": "close"})
		h.guard("Filter.Close", func() {
			if sc.Twice {
				d := make(chan struct{})
				go func() { f.Close(); close(d) }()
				f.Close()
				<-d
			} else {
				f.Close()
			}
		})
		h.Emit(M{"op": "closed"})
	}
	stopAll := make(chan struct{})
	closers.Add(1)
	go func() {
		defer closers.Done()
		for {
			select {
			case <-closeIt:
				doClose()
			case n := <-idleAt:
				last, since := -1, time.Now()
				for time.Since(since) < 20*time.Second {
					gmu.Lock()
					k := got
					gmu.Unlock()
					if k >= n {
						break
					}
					if k != last {
						last, since = k, time.Now()
					}
					time.Sleep(5 * time.Millisecond)
				}
				doClose()
			case <-stopAll:
				return
			}
		}
	}()
	// the script is over once the filter ended, or after its last step
	// of a filter that would go on polling
	if len(sc.Steps) == 0 {
		finOne.Do(func() { close(fin) })
	}
	if len(sc.Steps) > 0 && sc.Steps[0].Op == "close" && sc.Steps[0].W == "before" {
		mu.Lock()
		step++
		mu.Unlock()
		closeIt <- struct{}{}
	}
	hang := false
	select {
	case <-ended:
	case <-fin:
		select {
		case <-ended:
		case <-time.After(1500 * time.Millisecond):
			closeIt <- struct{}{}
			select {
			case <-ended:
			case <-time.After(60 * time.Second):
				hang = true
			}
		}
	case <-time.After(80 * time.Second):
		hang = true
	}
	if hang {
		h.Emit(M{"op": "HANG", "what": "the output of the filter does not end"})
		return
	}
	e := f.Err()
	h.Emit(M{"op": "err", "err": errKind(e)})
	if rng.Intn(2) == 0 { // closing what ended already
		closeIt <- struct{}{}
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(100 * time.Millisecond)
	close(stopAll)
	closers.Wait()
	h.Emit(M{"op": "quiet"})
}

func driveFilterClient(t *Trace, a *Args) {
	var list []*fcScript
	for _, raw := range a.Scripts {
		s := new(fcScript)
		if err := json.Unmarshal(raw, s); err != nil {
			panic("HARNESS BUG: " + err.Error())
		}
		list = append(list, s)
	}
	labs := []string{"", "A", "B", "C"}
	ts := []string{"*", "T1", "T2", "T3"}
	kinds := []string{"rpc", "transport", "null", "form", "rpc0"}
	// what the scripts leave open
	for _, s := range list {
		fillFC(s, a.Rng, labs, ts)
	}
	for i := 0; i < a.N; i++ {
		s := &fcScript{Inst: "ok", Start: -1}
		if a.Rng.Intn(6) == 0 {
			s.Start = int64(a.Rng.Intn(3) * 1000)
		}
		if a.Rng.Intn(12) == 0 {
			s.Inst = kinds[a.Rng.Intn(len(kinds))]
		}
		fillFC(s, a.Rng, labs, ts)
		for n := a.Rng.Intn(a.Steps); n > 0; n-- {
			s.Steps = append(s.Steps, fcStep{Op: "answer", N: []int{0, 0, 1, 2, 19, 20, 21, 45}[a.Rng.Intn(8)]})
		}
		switch a.Rng.Intn(3) {
		case 0:
			s.Steps = append(s.Steps, fcStep{Op: "fail", K: kinds[a.Rng.Intn(len(kinds))]})
		case 1:
			st := fcStep{Op: "close", W: []string{"idle", "now", "during"}[a.Rng.Intn(3)], N: a.Rng.Intn(30)}
			if a.Rng.Intn(2) == 0 {
				st.K = kinds[a.Rng.Intn(len(kinds))]
			}
			s.Steps = append(s.Steps, st)
		}
		list = append(list, s)
	}
	seeds := make([]int64, len(list))
	for i := range seeds {
		seeds[i] = a.Rng.Int63()
	}
	t.parallel(len(list), 400, func(i int, h *Hist) {
		runFilterClient(h, list[i], rand.New(rand.NewSource(seeds[i])))
	})
}

func fillFC(s *fcScript, rng *rand.Rand, labs, ts []string) {
	if s.Kind == "" {
		s.Kind = []string{"topics", "transfers"}[rng.Intn(2)]
	}
	if s.Start == 0 && s.End == 0 {
		s.End = []int64{-1, 0, 7, 1 << 30}[rng.Intn(4)]
	} else {
		s.End = []int64{-1, -1, 9, 5000000}[rng.Intn(4)]
	}
	s.Addr = labs[rng.Intn(4)]
	if s.Kind == "transfers" {
		s.From, s.To = labs[rng.Intn(4)], labs[rng.Intn(4)]
	} else {
		for n := rng.Intn(5); n > 0; n-- {
			s.Topics = append(s.Topics, ts[rng.Intn(4)])
		}
	}
	s.Slow = rng.Intn(3) == 0
	s.Twice = rng.Intn(3) == 0
}

// --------------------------------------------------------------------------

type biScript struct {
	From  string   `json:"from"` // "0", "1", "2^32", "2^53", "2^62"
	Steps []biStep `json:"steps"`
}

// biStep is the server's behaviour at successive requests
type biStep struct {
	Op string `json:"op"` // blk (n blocks), fail (kind k), stop (w: idle, now, during)
	N  int    `json:"n"`
	K  string `json:"k"`
	W  string `json:"w"`
}

var biBase = map[string]int64{"0": 0, "1": 1, "255": 255, "2^32": 1 << 32, "2^53": 1<<53 - 2, "2^62": 1 << 62}

func blockText(num int64, txs bool, tag int) string {
	body := `[]`
	if txs {
		body = `[{"hash":"0x` + fmt.Sprintf("%064x", tag) + `","nonce":"0x0"}]`
	}
	return fmt.Sprintf(`{"number":"0x%x","hash":"0x%064x","parentHash":"0x%064x","nonce":"0x0","gasUsed":"0x%x","transactions":%s,"timestamp":"0x%x"}`,
		num, tag, tag, tag, body, tag)
}

func runBlockIter(h *Hist, sc *biScript, rng *rand.Rand) {
	h.Emit(M{"op": "reset"})
	base := biBase[sc.From]
	txs := rng.Intn(2) == 0
	h.Emit(M{"op": "start", "txs": txs})
	var (
		mu      sync.Mutex
		step    int
		left    = -1 // blocks left of the current step
		nb      int  // blocks answered
		got     int
		gmu     sync.Mutex
		fin     = make(chan struct{})
		finOne  sync.Once
		stopIt  = make(chan string, 4)
		stopped = make(chan struct{})
	)
	serve := func(m string, p []json.RawMessage) answer {
		if m != "eth_getBlockByNumber" || len(p) != 2 {
			h.Emit(M{"op": "garbled", "m": m})
			return answer{kind: "rpc"}
		}
		rel := -1
		var s string
		if json.Unmarshal(p[0], &s) == nil {
			var n int64
			var err error
			if s == "earliest" {
				n = 0
			} else if strings.HasPrefix(s, "0x") {
				n, err = strconv.ParseInt(s[2:], 16, 64)
			} else {
				err = errTransport
			}
			if err == nil && n >= base && n-base < 1<<30 {
				rel = int(n - base)
			}
		}
		full := string(p[1]) == "true"
		h.Emit(M{"op": "req", "n": rel, "txs": full})
		mu.Lock()
		defer mu.Unlock()
		for left <= 0 && step < len(sc.Steps) {
			st := sc.Steps[step]
			if st.Op == "blk" {
				if left < 0 {
					left = st.N
				}
				if left > 0 {
					break
				}
				left = -1
				step++
				continue
			}
			step++
			if st.Op == "stop" {
				stopIt <- st.W
				finOne.Do(func() { close(fin) })
				if st.W == "during" {
					mu.Unlock()
					select {
					case <-stopped:
					case <-time.After(3 * time.Second):
					}
					mu.Lock()
				}
				continue
			}
			h.Emit(M{"op": "reply", "kind": st.K, "b": 0})
			return failAnswer(st.K)
		}
		if left > 0 {
			left--
			if left == 0 {
				left = -1
				step++
			}
			nb++
			h.Emit(M{"op": "reply", "kind": "block", "b": nb})
			return answer{"ok", blockText(base+int64(rel), full, nb)}
		}
		finOne.Do(func() { close(fin) })
		// at the tip of the chain
		h.Emit(M{"op": "reply", "kind": "null", "b": 0})
		return answer{kind: "null"}
	}
	c := seth.NewClientTransport(direct{serve})
	var it *seth.BlockIterator
	h.guard("IterateBlocks", func() { it = c.IterateBlocks(base, txs) })
	ended := make(chan struct{})
	slow := rng.Intn(3) == 0
	delay := rng.Intn(2) == 0
	srng := rand.New(rand.NewSource(rng.Int63()))
	go func() {
		if delay {
			time.Sleep(time.Duration(srng.Intn(700)) * time.Millisecond)
		}
		for b := range it.Next() {
			n, tag := -1, -1
			if b != nil && b.Number != nil {
				n = int(int64(*b.Number) - base)
				tag = int(b.GasUsed)
				if b.Hash == nil || fmt.Sprintf("0x%064x", tag) != b.Hash.String() || int(b.Timestamp) != tag ||
					len(b.Transactions) > 0 != txs {
					tag = -1
				}
			}
			h.Emit(M{"op": "recv", "n": n, "b": tag})
			gmu.Lock()
			got++
			gmu.Unlock()
			if slow && srng.Intn(10) == 0 {
				time.Sleep(20 * time.Millisecond)
			}
		}
		h.Emit(M{"op": "end"})
		close(ended)
	}()
	// caughtup waits until every block answered so far was received: as long
	// as it takes, if there is progress.  No block is answered meanwhile.
	caughtup := func() {
		last, since := -1, time.Now()
		for {
			mu.Lock()
			gmu.Lock()
			n, k := nb, got
			gmu.Unlock()
			if k >= n || time.Since(since) > 20*time.Second {
				h.Emit(M{"op": "caughtup"})
				mu.Unlock()
				return
			}
			mu.Unlock()
			if k != last {
				last, since = k, time.Now()
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	select {
	case <-fin:
	case <-time.After(60 * time.Second):
		h.Emit(M{"op": "HANG", "what": "the iterator makes no more requests"})
		return
	}
	w := "idle"
	select {
	case w = <-stopIt:
	default:
	}
	if w == "idle" {
		caughtup()
	}
	h.Emit(M{"op": "stop"})
	h.guard("Stop", func() { it.Stop() })
	h.Emit(M{"op": "stopped"})
	close(stopped)
	select {
	case <-ended:
	case <-time.After(60 * time.Second):
		h.Emit(M{"op": "HANG", "what": "the output of the iterator does not end"})
		return
	}
	time.Sleep(1200 * time.Millisecond)
	h.Emit(M{"op": "quiet"})
}

func driveBlockIter(t *Trace, a *Args) {
	var list []*biScript
	bases := []string{"0", "1", "255", "2^32", "2^53", "2^62"}
	for _, raw := range a.Scripts {
		s := new(biScript)
		if err := json.Unmarshal(raw, s); err != nil {
			panic("HARNESS BUG: " + err.Error())
		}
		s.From = bases[a.Rng.Intn(len(bases))]
		list = append(list, s)
	}
	kinds := []string{"rpc", "transport", "null", "form", "null", "rpc0"}
	for i := 0; i < a.N; i++ {
		s := &biScript{From: bases[a.Rng.Intn(len(bases))]}
		fails := 0
		for n := 1 + a.Rng.Intn(a.Steps); n > 0; n-- {
			if a.Rng.Intn(3) == 0 && fails < 6 {
				fails++
				s.Steps = append(s.Steps, biStep{Op: "fail", K: kinds[a.Rng.Intn(len(kinds))]})
			} else {
				s.Steps = append(s.Steps, biStep{Op: "blk", N: []int{1, 2, 3, 5, 64, 70, 130}[a.Rng.Intn(7)]})
			}
		}
		if a.Rng.Intn(3) > 0 {
			s.Steps = append(s.Steps, biStep{Op: "stop", W: []string{"idle", "now", "during"}[a.Rng.Intn(3)]},
				biStep{Op: "blk", N: 1 + a.Rng.Intn(100)})
		}
		list = append(list, s)
	}
	seeds := make([]int64, len(list))
	for i := range seeds {
		seeds[i] = a.Rng.Int63()
	}
	t.parallel(len(list), 400, func(i int, h *Hist) {
		runBlockIter(h, list[i], rand.New(rand.NewSource(seeds[i])))
	})
}
