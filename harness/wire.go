package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/philhofer/seth"
)

// answer is what a fake server says to one request:
// kind "ok" (result as given), "null", "rpc" (an error), "rpc0" (an error with code 0),
// "transport" (no answer: the connection or the HTTP request fails)
type answer struct {
	kind   string
	result string
}

type wireFn func(method string, params []json.RawMessage) answer

var errTransport = errors.New("the fake transport failed")

func wireText(id int, a answer) []byte {
	switch a.kind {
	case "ok":
		return []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":%s}`, id, a.result))
	case "null":
		return []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":null}`, id))
	case "rpc":
		return []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"error":{"code":-32000,"message":"the fake server refuses"}}`, id))
	case "rawerr":
		return []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"error":%s}`, id, a.result))
	case "rpc0":
		return []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"error":{"code":0,"message":"the fake server refuses"}}`, id))
	}
	panic("HARNESS BUG: no such answer: " + a.kind)
}

// direct is a transport that hands requests to fn, as their JSON text says
type direct struct{ fn wireFn }

func (d direct) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	b, err := json.Marshal(req)
	if err != nil {
		return err
	}
	m, p, id := decodeReq(b)
	a := d.fn(m, p)
	if a.kind == "transport" {
		return errTransport
	}
	return json.Unmarshal(wireText(id, a), res)
}

func decodeReq(b []byte) (string, []json.RawMessage, int) {
	var r struct {
		Version string            `json:"jsonrpc"`
		Method  string            `json:"method"`
		Params  []json.RawMessage `json:"params"`
		ID      int               `json:"id"`
	}
	if json.Unmarshal(b, &r) != nil || r.Version != "2.0" {
		return "malformed", nil, 0
	}
	return r.Method, r.Params, r.ID
}

// clientVia gives a client of the fake server fn over a kind of transport
func clientVia(kind string, fn wireFn) (*seth.Client, func()) {
	switch kind {
	case "direct":
		return seth.NewClientTransport(direct{fn}), func() {}
	case "http":
		s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			b, _ := io.ReadAll(r.Body)
			m, p, id := decodeReq(b)
			if r.Method != "POST" || !strings.HasPrefix(r.Header.Get("Content-Type"), "application/json") {
				m = "not a POST of JSON"
			}
			a := fn(m, p)
			if a.kind == "transport" {
				w.WriteHeader(502)
				w.Write([]byte("bad gateway"))
				return
			}
			w.Header().Set("Content-Type", "application/json")
			w.Write(wireText(id, a))
		}))
		s.Config.ErrorLog = log.New(io.Discard, "", 0)
		s.Start()
		return seth.NewHTTPClient(s.URL), s.Close
	case "stream":
		c := seth.NewClient(func() (io.ReadWriteCloser, error) {
			a, b := net.Pipe()
			go wireServe(b, fn)
			return a, nil
		})
		return c, func() {}
	}
	panic("HARNESS BUG: no such transport")
}

// wireServe answers the requests of a connection
func wireServe(b net.Conn, fn wireFn) {
	d := json.NewDecoder(b)
	for {
		var raw json.RawMessage
		if d.Decode(&raw) != nil {
			b.Close()
			return
		}
		m, p, id := decodeReq(raw)
		an := fn(m, p)
		if an.kind == "transport" {
			b.Close()
			return
		}
		if _, err := b.Write(append(wireText(id, an), '\n')); err != nil {
			return
		}
	}
}

// errKind names an error of a client call
func errKind(err error) string {
	var re *seth.RPCError
	switch {
	case err == nil:
		return ""
	case err == seth.ErrNotFound:
		return "null"
	case errors.As(err, &re):
		return "rpc"
	case errors.Is(err, errTransport) || errors.Is(err, io.EOF) || errors.Is(err, io.ErrClosedPipe) || strings.Contains(err.Error(), "502") || strings.Contains(err.Error(), "closed"):
		return "transport"
	}
	return "form"
}
