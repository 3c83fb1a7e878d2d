package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
)

// Op is an operation of a script; see spec/ChainTrace.tla for the meaning
type Op struct {
	Op    string   `json:"op"`
	C     int      `json:"c"`
	A     string   `json:"a,omitempty"`
	From  string   `json:"from,omitempty"`
	To    string   `json:"to,omitempty"`
	N     int      `json:"n"`
	P     []Ins    `json:"p,omitempty"`
	G     string   `json:"g,omitempty"`
	Blk   int      `json:"blk"`
	S     string   `json:"s,omitempty"`
	V     string   `json:"v,omitempty"`
	K     string   `json:"k,omitempty"`
	T     []string `json:"t,omitempty"`
	D     string   `json:"d,omitempty"`
	I     int      `json:"i"`
	H     string   `json:"h,omitempty"`
	Full  bool     `json:"full,omitempty"`
	FromB int      `json:"fromb"`
	ToB   int      `json:"tob"`
	Unit  string   `json:"unit,omitempty"`
	Ts    int      `json:"ts,omitempty"` // when a chain begins
	Fork  bool     `json:"fork,omitempty"`
	Rem   *Remote  `json:"rem,omitempty"`
}

// Remote describes the chain below a fork
type Remote struct {
	Bal   map[string]int    `json:"bal"`
	Nonce map[string]int    `json:"nonce"`
	Code  map[string]string `json:"code"`
	St    [][3]string       `json:"st"`
	Block int               `json:"block"`
}

// World runs the operations of one history
type World struct {
	t          *Trace
	prof       *profile
	nm         *Names
	chains     []*tevm.Chain
	view       []bool
	saved      [][]byte
	hashes     map[string]string // hash (hex) -> label
	byname     map[string]string
	snaps      [][]int // handles per chain
	savedsnaps [][]int
	savedview  []bool
	closed     map[*tevm.Chain]bool
	remote     *remoteServer
	slots      []string
	accts      []string
	filts      [][]int // filter ids per chain
	n          int
	txh, blkh  []string // hashes of transactions and blocks
	sink       func(M)  // where events go instead of t
}

func (w *World) emit(e M) {
	if w.sink != nil {
		w.sink(e)
		return
	}
	w.t.Emit(e)
}

func (w *World) hlabel(h []byte) string {
	if bytes.Count(h, []byte{0}) == len(h) {
		return ""
	}
	k := hex.EncodeToString(h)
	l, ok := w.hashes[k]
	if !ok {
		l = "h" + strconv.Itoa(len(w.hashes)+1)
		w.hashes[k] = l
		w.byname[l] = k
		if len(h) == 32 {
			w.nm.word[common.BytesToHash(h)] = l
		}
	}
	return l
}

func (w *World) hbytes(l string) string {
	if k, ok := w.byname[l]; ok {
		return "0x" + k
	}
	// an unknown hash
	return "0x" + hex.EncodeToString(crypto.Keccak256([]byte("no such "+l)))
}

// profile says what a property's check looks at
type profile struct {
	obs     string // parts of the state in an observation
	result  bool   // check return values
	audit   string // what to look at in the end
	weights map[string]int
}

func newWorld(t *Trace, pr *profile) *World {
	return &World{t: t, prof: pr}
}

func (w *World) st(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

func recvGas(g string) int {
	if g == "tiny" {
		return 3000
	}
	return mineGas
}

const (
	callGas = 6000000
	mineGas = 60000000
)

// genesis is the hash that contracts get for the block before a first one with this number
func genesis(num int64) common.Hash {
	if h, ok := genesisHash[num]; ok {
		return h
	}
	c := tevm.NewFork(nil, num-1)
	from := new(seth.Address)
	a, err := c.Create(from, []byte{0x60, 13, 0x60, 12, 0x60, 0, 0x39, 0x60, 13, 0x60, 0, 0xf3,
		0x60, 1, 0x43, 0x03, 0x40, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3})
	cMust(err)
	ret, err := c.StaticCall(from, &a, "f()")
	cMust(err)
	genesisHash[num] = common.BytesToHash(ret)
	return genesisHash[num]
}

var genesisHash = map[int64]common.Hash{}

func (w *World) start(o *Op) {
	u := new(big.Int)
	if o.Unit == "" {
		o.Unit = "1"
	}
	u.SetString(o.Unit, 10)
	w.nm = newNames(u)
	w.hashes, w.byname = map[string]string{}, map[string]string{}
	w.saved, w.savedsnaps, w.savedview = nil, nil, nil
	w.accts, w.n = nil, 0
	w.txh, w.blkh = nil, nil
	w.closed = map[*tevm.Chain]bool{}
	e := M{"op": "reset", "unit": o.Unit}
	var c *tevm.Chain
	if o.Fork {
		rem := *o.Rem
		if rem.St == nil {
			rem.St = [][3]string{}
		}
		w.remote = &remoteServer{w: w, rem: &rem}
		c = tevm.NewFork(seth.NewClientTransport(w.remote), int64(rem.Block))
		e["rem"] = rem
	} else {
		c = tevm.NewChain()
	}
	p := c.State.Pending
	if o.Ts != 0 {
		p.Timestamp = seth.Uint64(o.Ts)
	}
	e["num"] = int(*p.Number)
	e["hash"] = w.hlabel(p.Hash[:])
	e["ts"] = int(p.Timestamp)
	w.blkh = append(w.blkh, w.hlabel(p.Hash[:]))
	w.nm.word[genesis(int64(*p.Number))] = "genesis"
	w.chains = []*tevm.Chain{c}
	w.view = []bool{false}
	w.snaps = [][]int{nil}
	w.filts = [][]int{nil}
	w.emit(e)
}

func (w *World) addChain(c *tevm.Chain, view bool, snaps []int) {
	w.chains = append(w.chains, c)
	w.view = append(w.view, view)
	w.snaps = append(w.snaps, append([]int(nil), snaps...))
	w.filts = append(w.filts, nil)
}

func hexd(b []byte) string { return "0x" + hex.EncodeToString(b) }

// nonces from bignonce stand for ones that need more than 32 bits
const bignonce = 1000

func realNonce(n int) uint64 {
	if n >= bignonce {
		return 1<<40 + uint64(n)
	}
	return uint64(n)
}

// likewise gas prices from 100
var bigprice = new(big.Int).Lsh(big.NewInt(3), 66)

func realPrice(n int) *big.Int {
	p := big.NewInt(int64(n))
	if n >= 100 {
		p.Add(p, bigprice)
	}
	return p
}

func priceLabel(p *big.Int) int {
	q := new(big.Int).Sub(p, bigprice)
	switch {
	case p.IsInt64() && p.Sign() >= 0 && p.Int64() < 100:
		return int(p.Int64())
	case q.IsInt64() && q.Int64() >= 100 && q.Int64() < 200:
		return int(q.Int64())
	}
	return -1
}

func nonceLabel(n uint64) int {
	switch {
	case n < bignonce:
		return int(n)
	case n >= 1<<40+bignonce && n < 1<<40+bignonce*2:
		return int(n - 1<<40)
	}
	return -1
}

func hexb(b *big.Int) string { return "0x" + b.Text(16) }

func blkparam(b int) string {
	switch b {
	case -1:
		return `"pending"`
	case -2:
		return `"latest"`
	}
	return `"0x` + strconv.FormatInt(int64(b), 16) + `"`
}

// rpc makes a request the way any JSON-RPC client would; the result is raw JSON
func (w *World) rpc(c *tevm.Chain, method string, params ...string) (json.RawMessage, bool) {
	id := 7 + 13*w.n
	body := fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":%q,"params":[%s]}`, id, method, strings.Join(params, ","))
	var b []byte
	if w.n%2 == 0 {
		// over HTTP
		rec := httptest.NewRecorder()
		c.ServeHTTP(rec, httptest.NewRequest("POST", "/", strings.NewReader(body)))
		if rec.Code != http.StatusOK {
			return nil, false
		}
		b = rec.Body.Bytes()
	} else {
		var req seth.RPCRequest
		if err := json.Unmarshal([]byte(body), &req); err != nil {
			panic("HARNESS BUG: " + err.Error() + body)
		}
		var res seth.RPCResponse
		if err := c.Execute(&req, &res); err != nil {
			return nil, false
		}
		var err error
		if b, err = json.Marshal(&res); err != nil {
			return nil, false
		}
	}
	var out struct {
		Version string          `json:"jsonrpc"`
		ID      int             `json:"id"`
		Result  json.RawMessage `json:"result"`
		Error   struct {
			Code    int    `json:"code"`
			Message string `json:"message"`
		} `json:"error"`
	}
	if err := json.Unmarshal(b, &out); err != nil {
		return nil, false
	}
	if out.ID != id || out.Version != "2.0" {
		w.emit(M{"op": "garbled", "c": 1, "method": method})
	}
	return out.Result, out.Error.Code == 0
}

// paid says whether a call names a gas price, and its gas then
func (w *World) paid() (price, gas int) {
	if w.n%3 == 0 {
		return 1, callGas
	}
	return 0, 0
}

// requests of the right form, and what they have for parameters
var rpcForms = []struct {
	method string
	params []string
}{
	{"eth_protocolVersion", nil}, {"eth_syncing", nil}, {"eth_gasPrice", nil}, {"eth_blockNumber", nil},
	{"eth_call", []string{"tx", "blk"}}, {"eth_sendTransaction", []string{"tx"}}, {"eth_estimateGas", []string{"tx", "blk"}},
	{"eth_getTransactionReceipt", []string{"hash"}}, {"eth_getTransactionByHash", []string{"hash"}},
	{"eth_getBalance", []string{"addr", "blk"}}, {"eth_getBlockByHash", []string{"hash", "bool"}}, {"eth_getBlockByNumber", []string{"blk", "bool"}},
	{"eth_newFilter", []string{"filter"}}, {"eth_getFilterChanges", []string{"id"}}, {"eth_getFilterLogs", []string{"id"}}, {"eth_uninstallFilter", []string{"id"}},
}

// badForms are texts that aren't parameters of a kind
var badForms = map[string][]string{
	"tx":     {`"x"`, `[]`, `{"from":"0x12"}`, `{"value":"zz"}`, `{"to":7}`, `{"data":"0x123z"}`},
	"blk":    {`"newest"`, `{}`, `"0xffffffffffffffffffff"`, `"-0x1"`, `[1]`},
	"hash":   {`"0x00112233445566778899aabbccddeeff00112233445566778899aabbccddee"`, `{}`, `"latest"`},
	"addr":   {`"0x00112233445566778899aabbccddeeff001122"`, `{}`, `"A"`},
	"bool":   {`"true"`, `1`, `{}`},
	"filter": {`[]`, `"0x1"`, `{"address":"0x12"}`, `{"fromBlock":"newest"}`, `{"topics":["0x12"]}`},
	"id":     {`"zz"`, `{}`, `[]`},
}

// refused makes a request that isn't one of the methods or has the wrong
// parameters; how says which one.  It says whether the request succeeded.
func (w *World) refused(c *tevm.Chain, how string) bool {
	var x, y, z int
	fmt.Sscanf(how, "%d %d %d", &x, &y, &z)
	good := map[string]string{"tx": callobj("A", "B", w, 1, nil, callGas), "blk": blkparam(-1), "hash": `"` + w.hbytes("h1") + `"`,
		"addr": `"` + strings.ToLower(w.nm.Addr("A").Hex()) + `"`, "bool": "true", "filter": "{}", "id": `"0x1"`}
	f := rpcForms[x%len(rpcForms)]
	var ps []string
	for _, k := range f.params {
		ps = append(ps, good[k])
	}
	switch m := f.method; {
	case y == 0:
		// no such method
		m = []string{m + "2", strings.ToUpper(m), "", "net_version", m[4:], "eth_getUncleByBlockNumberAndIndex"}[z%6]
		_, ok := w.rpc(c, m, ps...)
		return ok
	case y == 1:
		// no JSON at all
		body := []string{"", "{", "[1,", `{"method":7}`, "eth_blockNumber", `"eth_blockNumber"`}[z%6]
		rec := httptest.NewRecorder()
		c.ServeHTTP(rec, httptest.NewRequest("POST", "/", strings.NewReader(body)))
		return rec.Code == http.StatusOK
	case y == 2:
		_, ok := w.rpc(c, m, append(ps, []string{"null", `"latest"`, "true", "{}"}[z%4])...)
		return ok
	case y == 3 && len(ps) > 0:
		_, ok := w.rpc(c, m, ps[:len(ps)-1-z%len(ps)]...)
		return ok
	case len(ps) > 0:
		i := z % len(ps)
		b := badForms[f.params[i]]
		ps[i] = b[(z/len(ps))%len(b)]
		_, ok := w.rpc(c, m, ps...)
		return ok
	}
	return false
}

func callobj(from, to string, w *World, n int, data []byte, gas int) string {
	m := M{"from": strings.ToLower(w.nm.Addr(from).Hex()), "value": hexb(w.nm.Wei(n)), "data": hexd(data)}
	if to != "" {
		m["to"] = strings.ToLower(w.nm.Addr(to).Hex())
	}
	if gas > 0 {
		m["gas"] = "0x" + strconv.FormatInt(int64(gas), 16)
		m["gasPrice"] = "0x1"
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func (w *World) retval(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	if len(b) == 32 {
		return w.nm.Value(b)
	}
	return "?" + strconv.Itoa(len(b))
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil {
		return []byte("?" + s)
	}
	return b
}

func (w *World) log(l *seth.Log) M {
	t := A{}
	for i := range l.Topics {
		t = append(t, w.nm.Value(l.Topics[i]))
	}
	m := M{"a": w.nm.Label(common.Address(l.Address)), "t": t, "d": w.nm.Value(l.Data), "bn": -1, "bh": "", "h": "", "ti": -1, "li": -1}
	if len(l.Data) != 32 {
		m["d"] = "?" + hexd(l.Data)
	}
	if l.BlockNumber != nil {
		m["bn"] = int(*l.BlockNumber)
	}
	if l.BlockHash != nil {
		m["bh"] = w.hlabel(l.BlockHash[:])
	}
	if l.TxHash != nil {
		m["h"] = w.hlabel(l.TxHash[:])
	}
	if l.TxIndex != nil {
		m["ti"] = int(*l.TxIndex)
	}
	if l.LogIndex != nil {
		m["li"] = int(*l.LogIndex)
	}
	if l.Removed {
		m["removed"] = true
	}
	return m
}

func (w *World) loglist(ls []seth.Log) A {
	out := A{}
	for i := range ls {
		out = append(out, w.log(&ls[i]))
	}
	return out
}

// logs in the JSON of a response, decoded independently of seth
func (w *World) jlogs(raw json.RawMessage) (A, bool) {
	var ls []map[string]interface{}
	if err := json.Unmarshal(raw, &ls); err != nil {
		return nil, false
	}
	out := A{}
	for _, l := range ls {
		t := A{}
		for _, x := range arr(l["topics"]) {
			t = append(t, w.nm.Value(unhex(str(x))))
		}
		m := M{"a": w.nm.Label(common.BytesToAddress(unhex(str(l["address"])))), "t": t, "d": w.nm.Value(unhex(str(l["data"]))),
			"bn": num(l["blockNumber"]), "bh": w.hlabel(unhex(str(l["blockHash"]))), "h": w.hlabel(unhex(str(l["transactionHash"]))),
			"ti": num(l["transactionIndex"]), "li": num(l["logIndex"])}
		out = append(out, m)
	}
	return out, true
}

func str(x interface{}) string {
	s, _ := x.(string)
	return s
}
func arr(x interface{}) []interface{} {
	s, _ := x.([]interface{})
	return s
}
func num(x interface{}) int {
	switch y := x.(type) {
	case string:
		n, err := strconv.ParseInt(strings.TrimPrefix(y, "0x"), 16, 64)
		if err != nil || n > 1<<30*2-1 {
			return -99
		}
		return int(n)
	case float64:
		return int(y)
	}
	return -98
}
func bigof(x interface{}) *big.Int {
	b, ok := new(big.Int).SetString(strings.TrimPrefix(str(x), "0x"), 16)
	if !ok {
		return big.NewInt(-999)
	}
	return b
}

// the transaction as recorded in a block or retrieved
func (w *World) jtx(m map[string]interface{}) M {
	to := ""
	if m["to"] != nil {
		to = w.nm.Label(common.BytesToAddress(unhex(str(m["to"]))))
	}
	return M{"h": w.hlabel(unhex(str(m["hash"]))), "bh": w.hlabel(unhex(str(m["blockHash"]))), "bn": num(m["blockNumber"]), "ti": num(m["transactionIndex"]),
		"from": w.nm.Label(common.BytesToAddress(unhex(str(m["from"])))), "to": to, "n": w.nm.Units(bigof(m["value"])),
		"inp": inplabel(unhex(str(m["input"]))), "gas": num(m["gas"]), "price": priceLabel(bigof(m["gasPrice"])), "nonce": nonceLabel(bigof(m["nonce"]).Uint64())}
}

func inplabel(b []byte) string {
	return hex.EncodeToString(crypto.Keccak256(b)[:6])
}

func (w *World) jrx(m map[string]interface{}) M {
	addr := ""
	if m["contractAddress"] != nil && num(m["status"]) == 1 {
		addr = w.nm.Label(common.BytesToAddress(unhex(str(m["contractAddress"]))))
	}
	lraw, _ := json.Marshal(m["logs"])
	ls, ok := w.jlogs(lraw)
	if !ok || ls == nil {
		ls = A{}
	}
	return M{"h": w.hlabel(unhex(str(m["transactionHash"]))), "ti": num(m["transactionIndex"]), "bh": w.hlabel(unhex(str(m["blockHash"]))),
		"bn": num(m["blockNumber"]), "gas": num(m["gasUsed"]), "cum": num(m["cumulativeGasUsed"]), "addr": addr, "st": num(m["status"]), "logs": ls}
}

func (w *World) jblk(raw json.RawMessage, full bool) M {
	var m map[string]interface{}
	if err := json.Unmarshal(raw, &m); err != nil || m == nil {
		return M{"n": -2}
	}
	txs := A{}
	for _, x := range arr(m["transactions"]) {
		if full {
			tm, _ := x.(map[string]interface{})
			txs = append(txs, w.jtx(tm))
		} else {
			txs = append(txs, w.hlabel(unhex(str(x))))
		}
	}
	return M{"n": num(m["number"]), "h": w.hlabel(unhex(str(m["hash"]))), "p": w.hlabel(unhex(str(m["parentHash"]))),
		"ts": num(m["timestamp"]), "gas": num(m["gasUsed"]), "txs": txs}
}

func (w *World) tx(o *Op) (*seth.Transaction, int) {
	gas := recvGas(o.G)
	tx := &seth.Transaction{From: w.nm.SAddr(o.From), Value: seth.Int(*w.nm.Wei(o.N)), Gas: seth.Uint64(gas),
		GasPrice: seth.Int(*realPrice(3 + w.n%5 + 100*(w.n%3/2))), Nonce: seth.Uint64(realNonce(w.n%7 + bignonce*(w.n%3/2)))}
	if o.To == "" {
		tx.Input = w.nm.InitCode(o.P, gas)
	} else {
		tx.To = w.nm.SAddr(o.To)
		tx.Input = w.nm.Compile(o.P, gas)
	}
	return tx, gas
}

// Do performs one operation and records what happened; it reports
// whether the history can go on
func (w *World) Do(o *Op) bool {
	return w.t.try(o.Op, func() { w.do(o) })
}

func (w *World) do(o *Op) {
	w.n++
	if o.Op == "reset" {
		w.start(o)
		return
	}
	if o.C < 1 || o.C > len(w.chains) {
		return
	}
	c := w.chains[o.C-1]
	if w.closed[c] {
		return
	}
	if o.P == nil {
		o.P = []Ins{}
	}
	fix(o.P)
	e := M{"op": o.Op, "c": o.C}
	set := func(kv ...interface{}) M {
		for i := 0; i < len(kv); i += 2 {
			e[kv[i].(string)] = kv[i+1]
		}
		return e
	}
	switch o.Op {
	case "mine", "rsend", "seal":
		// no going back to before a transaction was recorded
		w.snaps[o.C-1] = nil
	}
	switch o.Op {
	case "addbal":
		c.AddBalance(w.nm.SAddr(o.A), w.nm.Wei(o.N))
		w.emit(set("a", o.A, "n", o.N))
	case "subbal":
		if w.nm.Units(c.BalanceOf(w.nm.SAddr(o.A))) < o.N {
			return
		}
		c.SubBalance(w.nm.SAddr(o.A), w.nm.Wei(o.N))
		w.emit(set("a", o.A, "n", o.N))
	case "newacct":
		if w.nm.unit.String() != "1000000000000000000" {
			return
		}
		a := c.NewAccount(o.N)
		l := "N" + strconv.Itoa(len(w.nm.label)/13+1)
		if old := w.nm.Label(common.Address(a)); old[0] != '?' {
			l = old // not a new account
		} else {
			w.nm.add(l, common.Address(a))
			w.accts = append(w.accts, l)
		}
		w.emit(set("a", l, "n", o.N))
	case "call":
		ret, err := c.Call(w.nm.SAddr(o.From), w.nm.SAddr(o.To), "run(bytes)", (*seth.Bytes)(bptr(w.nm.Compile(o.P, callGas))))
		set("from", o.From, "to", o.To, "p", o.P, "st", w.st(err))
		if w.prof.result {
			e["ret"] = w.retval(ret)
		}
		w.emit(e)
	case "send":
		err := c.Send(w.nm.SAddr(o.From), w.nm.SAddr(o.To), w.nm.Wei(o.N))
		w.emit(set("from", o.From, "to", o.To, "n", o.N, "st", w.st(err)))
	case "create":
		a, err := c.Create(w.nm.SAddr(o.From), w.nm.InitCode(o.P, callGas))
		w.emit(set("from", o.From, "p", o.P, "st", w.st(err), "addr", w.nm.Label(common.Address(a))))
	case "createat":
		if c.State.StateDB().GetNonce(w.nm.Addr(o.A)) > 1 {
			// the contract would start to number its contracts anew, and
			// creating one that exists uses up all gas there is
			return
		}
		err := c.CreateAt(w.nm.SAddr(o.A), w.nm.SAddr(o.From), w.nm.InitCode(o.P, callGas))
		w.emit(set("a", o.A, "from", o.From, "p", o.P, "st", w.st(err)))
	case "mine", "rsend":
		if w.view[o.C-1] && o.Op == "rsend" {
			return
		}
		tx, gas := w.tx(o)
		before := int(c.State.Pending.GasUsed)
		pend := c.State.Pending
		set("from", o.From, "to", o.To, "n", o.N, "p", o.P, "g", o.G, "gas", gas, "inp", inplabel(tx.Input),
			"price", priceLabel(tx.GasPrice.Big()), "nonce", nonceLabel(uint64(tx.Nonce)))
		if o.Op == "mine" {
			ret, h, err := c.Mine(tx)
			w.txh = append(w.txh, w.hlabel(h[:]))
			set("h", w.hlabel(h[:]), "used", int(pend.GasUsed)-before)
			if w.prof.result {
				set("st", w.st(err))
				if o.To != "" {
					set("ret", w.retval(ret))
				}
			}
			w.emit(e)
			return
		}
		e["nonce"] = 0
		e["price"] = 1
		raw, ok := w.rpc(c, "eth_sendTransaction", callobj(o.From, o.To, w, o.N, tx.Input, gas))
		set("used", int(pend.GasUsed)-before, "st", "err", "hash", w.hlabel(c.State.Pending.Hash[:]), "ts", int(c.State.Pending.Timestamp))
		if ok {
			var h string
			json.Unmarshal(raw, &h)
			set("st", "ok", "h", w.hlabel(unhex(h)))
		} else {
			var h string
			if n := len(c.State.Pending.Transactions); n > 0 {
				json.Unmarshal(c.State.Pending.Transactions[n-1], &h)
			}
			set("h", w.hlabel(unhex(h)))
		}
		w.txh = append(w.txh, e["h"].(string))
		w.blkh = append(w.blkh, e["hash"].(string))
		w.emit(e)
	case "vseal":
		// what becomes of a view that is sealed is not specified;
		// the other chains must not notice
		if !w.view[o.C-1] || w.remote != nil {
			return
		}
		c.Seal()
		w.closed[c] = true
		w.emit(e)
	case "seal":
		if w.view[o.C-1] {
			return
		}
		c.Seal()
		p := c.State.Pending
		w.blkh = append(w.blkh, w.hlabel(p.Hash[:]))
		w.emit(set("num", int(*p.Number), "hash", w.hlabel(p.Hash[:]), "ts", int(p.Timestamp)))
	case "static":
		ret, err := c.StaticCall(w.nm.SAddr(o.From), w.nm.SAddr(o.To), "run(bytes)", (*seth.Bytes)(bptr(w.nm.Compile(o.P, callGas))))
		set("from", o.From, "to", o.To, "p", o.P, "st", w.st(err))
		if w.prof.result {
			e["ret"] = w.retval(ret)
		}
		w.emit(e)
	case "est":
		_, err := c.EstimateGas(w.nm.SAddr(o.From), w.nm.SAddr(o.To), "run(bytes)", (*seth.Bytes)(bptr(w.nm.Compile(o.P, callGas))))
		set("op", "static", "from", o.From, "to", o.To, "p", o.P, "st", w.st(err))
		w.emit(e)
	case "rcall":
		gp, o2 := w.paid()
		raw, ok := w.rpc(c, "eth_call", callobj(o.From, o.To, w, 0, w.nm.Compile(o.P, callGas), o2), blkparam(o.Blk))
		set("gp", gp, "from", o.From, "to", o.To, "p", o.P, "blk", o.Blk, "st", "err")
		if ok {
			var s string
			json.Unmarshal(raw, &s)
			set("st", "ok")
			if w.prof.result {
				set("ret", w.retval(unhex(s)))
			}
		}
		w.emit(e)
	case "rest":
		data := w.nm.Compile(o.P, callGas)
		if o.To == "" {
			data = w.nm.InitCode(o.P, callGas)
		}
		gp, o2 := w.paid()
		_, ok := w.rpc(c, "eth_estimateGas", callobj(o.From, o.To, w, o.N, data, o2), blkparam(o.Blk))
		set("gp", gp, "from", o.From, "to", o.To, "n", o.N, "p", o.P, "blk", o.Blk, "st", "err")
		if ok {
			set("st", "ok")
		}
		w.emit(e)
	case "rbal":
		raw, ok := w.rpc(c, "eth_getBalance", `"`+strings.ToLower(w.nm.Addr(o.A).Hex())+`"`, blkparam(o.Blk))
		set("a", o.A, "blk", o.Blk, "st", "err")
		if ok {
			var s string
			json.Unmarshal(raw, &s)
			set("st", "ok", "r", w.nm.Units(bigof(s)))
		}
		w.emit(e)
	case "rnum":
		// what a client asks for first
		raw, ok := w.rpc(c, "eth_blockNumber")
		var n string
		if set("st", "err", "n", -1); ok && json.Unmarshal(raw, &n) == nil {
			set("st", "ok", "n", num(n))
		}
		price, ok1 := w.rpc(c, "eth_gasPrice")
		version, ok2 := w.rpc(c, "eth_protocolVersion")
		syncing, ok3 := w.rpc(c, "eth_syncing")
		var p, v string
		if !ok1 || !ok2 || !ok3 || json.Unmarshal(price, &p) != nil || json.Unmarshal(version, &v) != nil ||
			bigof(p).Sign() < 1 || bigof(v).Sign() < 1 || string(syncing) != "false" {
			set("st", "err")
		}
		w.emit(e)
	case "rbad":
		set("st", "err", "what", o.K)
		if w.refused(c, o.K) {
			set("st", "ok")
		}
		w.emit(e)
	case "copy":
		w.addChain(c.Copy(), w.view[o.C-1], w.snaps[o.C-1])
		w.emit(e)
	case "view":
		if w.view[o.C-1] {
			return
		}
		v := c.AtBlock(int64(o.Blk))
		set("blk", o.Blk)
		switch {
		case v == nil:
			set("r", "none")
		case v == c:
			set("r", "same")
		default:
			set("r", "view")
			w.addChain(v, true, nil)
		}
		w.emit(e)
	case "save":
		b, err := json.Marshal(c)
		if err != nil {
			w.emit(M{"op": "PANIC", "in": "marshal", "msg": err.Error()})
			return
		}
		w.saved = append(w.saved, b)
		w.savedsnaps = append(w.savedsnaps, append([]int(nil), w.snaps[o.C-1]...))
		w.savedview = append(w.savedview, w.view[o.C-1])
		w.emit(e)
	case "load":
		if o.I < 1 || o.I > len(w.saved) {
			return
		}
		d := o.N // destination, or a new chain
		var x *tevm.Chain
		if d < 1 || d > len(w.chains) || w.view[d-1] {
			d = len(w.chains) + 1
			x = new(tevm.Chain)
		} else {
			x = w.chains[d-1]
		}
		if err := json.Unmarshal(w.saved[o.I-1], x); err != nil {
			w.emit(M{"op": "PANIC", "in": "unmarshal", "msg": err.Error()})
			return
		}
		if d > len(w.chains) {
			w.addChain(x, w.savedview[o.I-1], w.savedsnaps[o.I-1])
		} else {
			w.snaps[d-1] = append([]int(nil), w.savedsnaps[o.I-1]...)
			w.view[d-1] = w.savedview[o.I-1]
		}
		w.emit(set("i", o.I, "d", d))
	case "blk":
		if w.view[o.C-1] {
			return
		}
		var raw json.RawMessage
		var ok bool
		full := strconv.FormatBool(o.Full)
		set("full", o.Full, "by", o.K, "n", o.Blk, "h", o.H)
		if o.K == "hash" {
			raw, ok = w.rpc(c, "eth_getBlockByHash", `"`+w.hbytes(o.H)+`"`, full)
		} else {
			raw, ok = w.rpc(c, "eth_getBlockByNumber", blkparam(o.Blk), full)
		}
		if !ok {
			set("r", M{"n": -1})
		} else {
			set("r", w.jblk(raw, o.Full))
		}
		w.emit(e)
	case "tx", "rx":
		m := map[string]string{"tx": "eth_getTransactionByHash", "rx": "eth_getTransactionReceipt"}[o.Op]
		raw, ok := w.rpc(c, m, `"`+w.hbytes(o.H)+`"`)
		set("h", o.H, "st", "err")
		if ok {
			var x map[string]interface{}
			json.Unmarshal(raw, &x)
			set("st", "ok")
			if o.Op == "tx" {
				set("r", w.jtx(x))
			} else {
				set("r", w.jrx(x))
			}
		}
		w.emit(e)
	case "newf":
		tp := A{}
		for _, x := range o.T {
			if x == "" {
				tp = append(tp, nil)
			} else {
				tp = append(tp, hexd(w.nm.dec(x)))
			}
		}
		m := M{"topics": tp, "fromBlock": json.RawMessage(blkparam(o.FromB)), "toBlock": json.RawMessage(blkparam(o.ToB))}
		if o.FromB == 0 && w.n%2 == 0 {
			m["fromBlock"] = "earliest"
		}
		if o.A != "" {
			m["address"] = strings.ToLower(w.nm.Addr(o.A).Hex())
		}
		b, _ := json.Marshal(m)
		raw, ok := w.rpc(c, "eth_newFilter", string(b))
		t := o.T
		if t == nil {
			t = []string{}
		}
		set("from", o.FromB, "to", o.ToB, "addr", o.A, "topics", t, "st", "err")
		if ok {
			var x interface{}
			json.Unmarshal(raw, &x)
			id := num(x)
			set("st", "ok", "id", id)
			w.filts[o.C-1] = append(w.filts[o.C-1], id)
		}
		w.emit(e)
	case "poll", "flogs", "unf":
		id := 1000 + o.I // unknown
		if fs := w.filts[o.C-1]; o.I >= 1 && o.I <= len(fs) {
			id = fs[o.I-1]
		}
		m := map[string]string{"poll": "eth_getFilterChanges", "flogs": "eth_getFilterLogs", "unf": "eth_uninstallFilter"}[o.Op]
		raw, ok := w.rpc(c, m, `"0x`+strconv.FormatInt(int64(id), 16)+`"`)
		set("id", id, "st", "err")
		if ok {
			set("st", "ok")
			if o.Op == "unf" {
				var b bool
				json.Unmarshal(raw, &b)
				set("r", b)
			} else {
				ls, ok := w.jlogs(raw)
				if !ok {
					set("st", "malformed")
				}
				set("logs", ls)
			}
		}
		w.emit(e)
	case "obs":
		w.obs(o.C, c, o.K)
	default:
		if strings.HasPrefix(o.Op, "s.") || o.Op == "rd" {
			w.statedb(o, c, e)
			return
		}
		panic("HARNESS BUG: op " + o.Op)
	}
}

func bptr(b []byte) *[]byte { return &b }

// fix makes programs well-formed for the specification
func fix(p []Ins) {
	for i := range p {
		if p[i].P == nil {
			p[i].P = []Ins{}
		}
		if p[i].T == nil && p[i].I == "log" {
			p[i].T = []string{}
		}
		fix(p[i].P)
	}
}

func (i Ins) MarshalJSON() ([]byte, error) {
	m := M{"i": i.I}
	switch i.I {
	case "sstore":
		m["s"], m["k"], m["v"] = i.S, i.K, i.V
	case "ret":
		m["k"], m["v"] = i.K, i.V
	case "log":
		m["t"], m["d"] = i.T, i.D
	case "call":
		m["k"], m["to"], m["n"], m["g"], m["f"], m["s"], m["p"] = i.K, i.To, i.N, i.G, i.F, i.S, i.P
	case "create":
		m["n"], m["f"], m["s"], m["p"] = i.N, i.F, i.S, i.P
	case "destroy":
		m["to"] = i.To
	}
	return json.Marshal(m)
}

func shash(s string) common.Hash {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("HARNESS BUG: slot " + s)
	}
	return common.BigToHash(v)
}

// valhash is the word for a value as printed by Names.Value
func (w *World) valhash(s string) common.Hash {
	if s != "" && s[0] >= '0' && s[0] <= '9' {
		return shash(s)
	}
	return common.BytesToHash(w.nm.aword(s))
}

// statedb performs operations on the EVM's view of the state
func (w *World) statedb(o *Op, c *tevm.Chain, e M) {
	s := c.State.StateDB()
	var a common.Address
	if o.A != "" {
		a = w.nm.Addr(o.A)
		e["a"] = o.A
	}
	switch o.Op {
	case "s.create":
		s.CreateAccount(a)
	case "s.addbal":
		s.AddBalance(a, w.nm.Wei(o.N))
		e["n"] = o.N
	case "s.subbal":
		if w.nm.Units(s.GetBalance(a)) < o.N {
			return
		}
		s.SubBalance(a, w.nm.Wei(o.N))
		e["n"] = o.N
	case "s.setnonce":
		if w.prof != profiles["statedb"] && s.GetNonce(a) > uint64(o.N) {
			return // likewise
		}
		s.SetNonce(a, realNonce(o.N))
		e["n"] = o.N
	case "s.setcode":
		b := codeBytes(o.V)
		s.SetCode(a, b)
		for i := range b {
			b[i] ^= 0xff
		}
		e["v"] = o.V
	case "s.setst":
		s.SetState(a, shash(o.S), w.valhash(o.V))
		e["s"], e["v"] = o.S, o.V
	case "s.suicide":
		s.Suicide(a)
	case "s.log":
		t := []common.Hash{}
		for _, x := range o.T {
			t = append(t, shash(x))
		}
		s.AddLog(&types.Log{Address: a, Topics: t, Data: w.nm.dec(o.D), BlockNumber: uint64(*c.State.Pending.Number)})
		if o.T == nil {
			o.T = []string{}
		}
		e["t"], e["d"], e["bn"] = o.T, o.D, int(*c.State.Pending.Number)
	case "s.addrefund":
		s.AddRefund(uint64(o.N))
		e["n"] = o.N
	case "s.subrefund":
		if int(s.GetRefund()) < o.N {
			return
		}
		s.SubRefund(uint64(o.N))
		e["n"] = o.N
	case "s.snap":
		h := s.Snapshot()
		w.snaps[o.C-1] = append(w.snaps[o.C-1], h)
		e["hd"] = h
	case "s.revert":
		hs := w.snaps[o.C-1]
		h := 1000
		if o.I >= 1 && o.I <= len(hs) {
			h = hs[o.I-1]
			w.snaps[o.C-1] = hs[:o.I-1]
			// sometimes keep the dead handles for later
			if o.K == "stale" {
				w.snaps[o.C-1] = hs
			}
		}
		if o.K == "neg" {
			h = -1 - o.I
			w.snaps[o.C-1] = hs
		}
		e["hd"], e["st"] = h, "ok"
		func() {
			defer func() {
				if r := recover(); r != nil {
					e["st"] = "refused"
				}
			}()
			s.RevertToSnapshot(h)
		}()
	case "rd":
		e["k"] = o.K
		switch o.K {
		case "bal":
			e["ri"] = w.nm.Units(s.GetBalance(a))
		case "nonce":
			e["ri"] = nonceLabel(s.GetNonce(a))
		case "code":
			e["rs"] = codeLabel(s.GetCode(a))
		case "size":
			n := s.GetCodeSize(a)
			if n != len(s.GetCode(a)) {
				e["k"] = "bad size"
			}
			e["rb"] = n != 0
		case "hash":
			h := s.GetCodeHash(a)
			e["rs"] = "?"
			for _, l := range []string{"", "I", "c1", "c2", "c3", "c4"} {
				if h == crypto.Keccak256Hash(codeBytes(l)) {
					e["rs"] = l
				}
			}
		case "st":
			h := s.GetState(a, shash(o.S))
			e["s"], e["rs"] = o.S, w.nm.Value(h[:])
		case "dead":
			e["rb"] = s.HasSuicided(a)
		case "ex":
			e["rb"] = s.Exist(a)
		case "empty":
			e["rb"] = s.Empty(a)
		case "refund":
			e["ri"] = int(s.GetRefund())
		}
	}
	w.emit(e)
}

// the labels of all accounts of interest
func (w *World) labels() []string {
	out := append([]string(nil), "A", "B", "C", "D", "X", "Y", "Z")
	out = append(out, w.accts...)
	return out
}

// obs records parts of the state of a chain: the parts are named by letters
// b(alance) n(once) c(ode) d(ead) e(xists) m(empty) s(torage) l(ogs) r(efund) #(number)
func (w *World) obs(i int, c *tevm.Chain, what string) {
	if what == "" {
		what = w.prof.obs
	}
	e := M{"op": "obs", "c": i}
	s := c.State.StateDB()
	ls := w.labels()
	put := func(k string, f func(a common.Address) interface{}) {
		m := M{}
		for _, l := range ls {
			m[l] = f(w.nm.Addr(l))
		}
		e[k] = m
	}
	for _, x := range what {
		switch x {
		case 'b':
			put("bal", func(a common.Address) interface{} { sa := seth.Address(a); return w.nm.Units(c.BalanceOf(&sa)) })
		case 'n':
			put("nonce", func(a common.Address) interface{} { return nonceLabel(s.GetNonce(a)) })
		case 'c':
			put("code", func(a common.Address) interface{} { return codeLabel(s.GetCode(a)) })
		case 'd':
			put("dead", func(a common.Address) interface{} { return s.HasSuicided(a) })
		case 'e':
			put("ex", func(a common.Address) interface{} { return s.Exist(a) })
		case 'm':
			put("empty", func(a common.Address) interface{} { return s.Empty(a) })
		case 's':
			put("st", func(a common.Address) interface{} {
				m := M{}
				for _, k := range w.slots {
					h := s.GetState(a, shash(k))
					m[k] = w.nm.Value(h[:])
				}
				return m
			})
		case 'l':
			e["logs"] = w.loglist(c.Logs())
		case 'r':
			e["refund"] = int(s.GetRefund())
		case '#':
			e["num"] = int(*c.State.Pending.Number)
		case 't':
			// the sum of all balances there are
			sum := new(big.Int)
			c.State.Accounts.Iterate(func(k, v []byte) bool {
				var a tevm.Account
				copy(a[:], v)
				b := a.Balance()
				sum.Add(sum, b.Big())
				return true
			})
			e["total"] = w.nm.Units(sum)
		}
	}
	w.emit(e)
}

// remoteServer is the chain below a fork
type remoteServer struct {
	w   *World
	rem *Remote
	mu  sync.Mutex
}

func (r *remoteServer) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	p := make([]string, len(req.Params))
	for i := range p {
		json.Unmarshal(req.Params[i], &p[i])
	}
	blk := ""
	if len(p) > 0 {
		blk = p[len(p)-1]
	}
	n := -5
	if strings.HasPrefix(blk, "0x") {
		v, _ := strconv.ParseInt(blk[2:], 16, 64)
		n = int(v)
	} else if blk == "earliest" {
		n = 0
	}
	r.w.emit(M{"op": "req", "m": req.Method, "blk": n, "fork": r.rem.Block})
	at := n == r.rem.Block
	res.ID, res.Version = req.ID, req.Version
	var out string
	l := ""
	if len(p) > 0 {
		l = r.w.nm.Label(common.BytesToAddress(unhex(p[0])))
	}
	switch req.Method {
	case "eth_getBalance":
		b := r.w.nm.Wei(r.rem.Bal[l])
		if !at {
			b = big.NewInt(123457)
		}
		out = hexb(b)
	case "eth_getTransactionCount":
		out = "0x" + strconv.FormatInt(int64(r.rem.Nonce[l]), 16)
		if !at {
			out = "0x4d"
		}
	case "eth_getCode":
		out = hexd(codeBytes(r.rem.Code[l]))
		if !at {
			out = "0xfefd636f646539"
		}
	case "eth_getStorageAt":
		out = "0x" + strings.Repeat("0", 64)
		for _, x := range r.rem.St {
			if x[0] == l && shash(x[1]) == common.BytesToHash(unhex(p[1])) {
				h := r.w.valhash(x[2])
				out = hexd(h[:])
			}
		}
		if !at {
			out = "0x" + strings.Repeat("0", 62) + "63"
		}
	default:
		res.Error.Code = -1
		res.Error.Message = "no such method"
		return nil
	}
	res.Result, _ = json.Marshal(out)
	return nil
}
