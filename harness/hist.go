package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"log"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
)

// Hist is one history recorded apart from the others,
// so that many of them can run at the same time
type Hist struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (h *Hist) Emit(e M) {
	h.mu.Lock()
	h.emit(e)
	h.mu.Unlock()
}

// emit is Emit for callers that hold h.mu, which
// makes their step and its event one atomic action
func (h *Hist) emit(e M) {
	b, err := json.Marshal(e)
	if err != nil {
		panic("HARNESS BUG: " + err.Error())
	}
	h.b.Write(b)
	h.b.WriteByte('\n')
	atomic.AddInt64(&progress, 1)
	if e["op"] == "HANG" {
		atomic.AddInt64(&hangs, 1)
	}
}

// Append adds a finished history to the trace
func (t *Trace) Append(h *Hist) {
	h.mu.Lock()
	t.mu.Lock()
	t.w.Write(h.b.Bytes())
	t.mu.Unlock()
	h.mu.Unlock()
}

// guard runs fn; a panic becomes an event
func (h *Hist) guard(what string, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			if strings.Contains(s, "HARNESS BUG") || !bytes.Contains(buf, []byte("philhofer/seth")) && !bytes.Contains(buf, []byte("/repo/")) {
				panic("HARNESS BUG: " + s + "\n" + string(buf))
			}
			log.Printf("panic in %s: %s\n%s", what, s, buf)
			h.Emit(M{"op": "PANIC", "in": what, "msg": s})
		}
	}()
	fn()
	return true
}

// hangs is how many histories came to no end; the first few will do
var hangs int64

// parallel runs n histories, w at a time, and appends them to the trace
func (t *Trace) parallel(n, w int, fn func(i int, h *Hist)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, w)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		if atomic.LoadInt64(&hangs) >= 4 {
			wg.Done()
			break
		}
		go func(i int) {
			defer wg.Done()
			h := new(Hist)
			fn(i, h)
			t.Append(h)
			<-sem
		}(i)
	}
	wg.Wait()
}
