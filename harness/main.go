// vdrive drives the real code of github.com/philhofer/seth and records what it does
// as one JSON event per line, for validation against the TLA+ specifications.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// M is a JSON object
type M = map[string]interface{}

// A is a JSON array
type A = []interface{}

// Trace records events
type Trace struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	n  int
}

var progress int64

func (t *Trace) Emit(e M) {
	b, err := json.Marshal(e)
	if err != nil {
		panic("HARNESS BUG: " + err.Error())
	}
	t.mu.Lock()
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.n++
	t.mu.Unlock()
	atomic.AddInt64(&progress, 1)
}

func (t *Trace) Flush() {
	t.mu.Lock()
	t.w.Flush()
	t.mu.Unlock()
}

// Reset starts a new history
func (t *Trace) Reset(kv ...interface{}) {
	e := M{"op": "reset"}
	for i := 0; i < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
	t.Emit(e)
}

// try runs fn, which calls into the code under test; a panic
// becomes an event that is not part of any specification
func (t *Trace) try(what string, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.Contains(s, "HARNESS BUG") {
				panic(r)
			}
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			if !bytes.Contains(buf, []byte("philhofer/seth")) && !bytes.Contains(buf, []byte("/repo/")) {
				panic("HARNESS BUG: " + s + "\n" + string(buf))
			}
			log.Printf("panic in %s: %s\n%s", what, s, buf)
			t.Emit(M{"op": "PANIC", "in": what, "msg": s})
			ok = false
		}
	}()
	fn()
	return true
}

// watchdog turns a hang of the code under test into an event
func (t *Trace) watchdog(limit time.Duration) {
	last := int64(-1)
	since := time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if p := atomic.LoadInt64(&progress); p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) < limit {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		os.Stderr.Write(buf)
		t.Emit(M{"op": "HANG"})
		t.Flush()
		os.Exit(0)
	}
}

// Args are the arguments of a driver
type Args struct {
	Seed    int64
	Shard   int
	Shards  int
	N       int
	Steps   int
	Profile string
	Scripts []json.RawMessage // those of this shard
	Bin     string
	Data    string
	Rng     *rand.Rand
	Log     *logcounter
}

type logcounter struct {
	mu sync.Mutex
	w  io.Writer
}

func (l *logcounter) Write(b []byte) (int, error) { return len(b), nil }

var drivers = map[string]func(t *Trace, a *Args){}

func main() {
	var (
		seed    = flag.Int64("seed", 1, "")
		shard   = flag.String("shard", "0/1", "")
		out     = flag.String("out", "", "")
		n       = flag.Int("n", 100, "histories")
		steps   = flag.Int("steps", 30, "")
		prof    = flag.String("profile", "", "")
		scripts = flag.String("scripts", "", "")
		bin     = flag.String("bin", "", "")
		data    = flag.String("data", "", "")
		dog     = flag.Duration("watchdog", 90*time.Second, "")
	)
	if len(os.Args) < 2 {
		panic("HARNESS BUG: no driver")
	}
	fn := drivers[os.Args[1]]
	if fn == nil {
		panic("HARNESS BUG: no such driver: " + os.Args[1])
	}
	flag.CommandLine.Parse(os.Args[2:])
	a := &Args{Seed: *seed, N: *n, Steps: *steps, Profile: *prof, Bin: *bin, Data: *data}
	fmt.Sscanf(*shard, "%d/%d", &a.Shard, &a.Shards)
	a.Rng = rand.New(rand.NewSource(*seed))
	if *scripts != "" {
		f, err := os.Open(*scripts)
		if err != nil {
			panic("HARNESS BUG: " + err.Error())
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for i := 0; sc.Scan(); i++ {
			if i%a.Shards == a.Shard {
				a.Scripts = append(a.Scripts, append(json.RawMessage(nil), sc.Bytes()...))
			}
		}
		f.Close()
	}
	f, err := os.Create(*out)
	if err != nil {
		panic("HARNESS BUG: " + err.Error())
	}
	t := &Trace{f: f, w: bufio.NewWriterSize(f, 1<<16)}
	go t.watchdog(*dog)
	// keep the trace when the code under test panics on the main goroutine
	defer func() {
		if r := recover(); r != nil {
			t.Flush()
			panic(r)
		}
	}()
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			t.Flush()
		}
	}()
	fn(t, a)
	t.Flush()
	f.Close()
}
