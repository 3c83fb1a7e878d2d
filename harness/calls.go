package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/philhofer/seth"
)

func init() { drivers["calls"] = driveCalls }

type ccScript struct {
	F   string `json:"f"`
	Blk struct {
		Tag string `json:"tag"`
		N   []int  `json:"n"`
	} `json:"blk"`
	Full bool   `json:"full"`
	K    string `json:"k"`
}

func ccP(t, s string, n *big.Int) M {
	if n == nil {
		n = new(big.Int)
	}
	return M{"t": t, "s": s, "n": bigB(n)}
}

// kinds of the parameters of each method
var ccParams = map[string]string{
	"eth_protocolVersion": "", "eth_syncing": "", "eth_coinbase": "", "eth_mining": "", "eth_hashrate": "", "eth_gasPrice": "",
	"eth_accounts": "", "eth_blockNumber": "", "eth_getBlockByNumber": "bB", "eth_getTransactionCount": "ab", "eth_getBalance": "ab",
	"eth_getTransactionByHash": "h", "eth_getTransactionReceipt": "h", "eth_getCode": "ab", "eth_getStorageAt": "ahb",
	"personal_unlockAccount": "asb", "eth_sendTransaction": "t", "eth_sendRawTransaction": "d", "eth_estimateGas": "tb", "eth_call": "tb",
	"custom_method": "s",
}

func ccParam(kind byte, raw json.RawMessage) M {
	var s string
	isstr := json.Unmarshal(raw, &s) == nil
	bad := ccP("bad", string(raw), nil)
	hexn := func(n int) bool {
		b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
		return isstr && strings.HasPrefix(s, "0x") && err == nil && (n < 0 || len(b) == n)
	}
	switch kind {
	case 'B':
		if string(raw) == "true" || string(raw) == "false" {
			return ccP("bool", string(raw), nil)
		}
	case 'b':
		switch {
		case isstr && (s == "latest" || s == "pending"):
			return ccP("tag", s, nil)
		case isstr && s == "earliest":
			return ccP("num", "", nil)
		case isstr:
			if n, ok := parseQuantity(s); ok {
				return ccP("num", "", n)
			}
		}
	case 'a':
		if hexn(20) {
			return ccP("addr", s, nil)
		}
	case 'h':
		if hexn(32) {
			return ccP("hash", s, nil)
		}
	case 'd':
		if hexn(-1) {
			return ccP("data", s[2:], nil)
		}
	case 's':
		if isstr {
			return ccP("str", s, nil)
		}
	case 't':
		if tx, ok := jsonTx(raw); ok {
			b, _ := json.Marshal(tx)
			return ccP("tx", string(b), nil)
		}
	}
	return bad
}

// obj is a JSON object with the values of an answer
type obj map[string]string // name -> JSON text

func (o obj) text() string {
	var ks []string
	for k := range o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []string
	for _, k := range ks {
		b = append(b, fmt.Sprintf("%q:%s", k, o[k]))
	}
	return "{" + strings.Join(b, ",") + "}"
}

func (o obj) canon(fields ...string) string {
	var b []string
	for _, f := range fields {
		v := o[f]
		if v == "null" {
			v = ""
		}
		b = append(b, f+"="+strings.ToLower(strings.Trim(v, `"`)))
	}
	return strings.Join(b, ";")
}

type ccGen struct{ r *rand.Rand }

func (g ccGen) hex(n int) string {
	b := make([]byte, n)
	g.r.Read(b)
	if n > 0 && g.r.Intn(4) == 0 {
		b[0], b[n-1] = 0, 0
	}
	return `"0x` + hex.EncodeToString(b) + `"`
}
func (g ccGen) num(bits int) string { return fmt.Sprintf(`"0x%x"`, rbig(g.r, bits)) }
func (g ccGen) opt(s string) string {
	if g.r.Intn(4) == 0 {
		return "null"
	}
	return s
}

var (
	blockFields = []string{"number", "hash", "parentHash", "nonce", "sha3Uncles", "logsBloom", "transactionsRoot", "stateRoot", "receiptsRoot",
		"miner", "gasLimit", "gasUsed", "difficulty", "totalDifficulty", "timestamp", "extraData", "uncles", "transactions"}
	txFields = []string{"hash", "nonce", "blockHash", "blockNumber", "to", "transactionIndex", "from", "value", "gasPrice", "gas", "input"}
	rxFields = []string{"transactionHash", "transactionIndex", "blockHash", "blockNumber", "gasUsed", "cumulativeGasUsed", "contractAddress", "status", "logs"}
	lgFields = []string{"removed", "logIndex", "transactionIndex", "transactionHash", "blockHash", "blockNumber", "address", "data", "topics"}
)

func (g ccGen) tx() obj {
	return obj{"hash": g.hex(32), "nonce": g.num(64), "blockHash": g.hex(32), "blockNumber": g.num(60), "to": g.opt(g.hex(20)),
		"transactionIndex": g.opt(g.num(10)), "from": g.opt(g.hex(20)), "value": g.num(200), "gasPrice": g.num(100), "gas": g.num(50),
		"input": g.hex(g.r.Intn(40))}
}

func (g ccGen) log() (obj, string) {
	o := obj{"removed": fmt.Sprint(g.r.Intn(2) == 0), "logIndex": g.opt(g.num(10)), "transactionIndex": g.opt(g.num(10)), "transactionHash": g.opt(g.hex(32)),
		"blockHash": g.opt(g.hex(32)), "blockNumber": g.opt(g.num(40)), "address": g.hex(20), "data": g.hex(g.r.Intn(70))}
	var ts []string
	for n := g.r.Intn(4); n > 0; n-- {
		ts = append(ts, g.hex(32))
	}
	o["topics"] = "[" + strings.Join(ts, ",") + "]"
	return o, o.canon(lgFields...)
}

func (g ccGen) receipt() (obj, string) {
	o := obj{"transactionHash": g.hex(32), "transactionIndex": g.num(10), "blockHash": g.hex(32), "blockNumber": g.num(40), "gasUsed": g.num(40),
		"cumulativeGasUsed": g.num(40), "contractAddress": g.opt(g.hex(20)), "status": []string{`"0x0"`, `"0x1"`}[g.r.Intn(2)]}
	var js, cs []string
	for n := g.r.Intn(3); n > 0; n-- {
		l, c := g.log()
		js = append(js, l.text())
		cs = append(cs, c)
	}
	o["logs"] = "[" + strings.Join(js, ",") + "]"
	c := obj{}
	for k, v := range o {
		c[k] = v
	}
	c["logs"] = "[" + strings.Join(cs, "|") + "]"
	return o, c.canon(rxFields...)
}

func (g ccGen) block(full bool) (obj, string) {
	o := obj{"number": g.opt(g.num(50)), "hash": g.opt(g.hex(32)), "parentHash": g.hex(32), "nonce": g.num(64), "sha3Uncles": g.hex(32),
		"logsBloom": g.hex(256), "transactionsRoot": g.hex(32), "stateRoot": g.hex(32), "receiptsRoot": g.hex(32), "miner": g.hex(20),
		"gasLimit": g.num(60), "gasUsed": g.num(60), "difficulty": g.num(100), "totalDifficulty": g.num(120), "timestamp": g.num(33),
		"extraData": g.hex(g.r.Intn(32)), "size": g.num(20), "mixHash": g.hex(32)}
	var us, ts, cs []string
	for n := g.r.Intn(3); n > 0; n-- {
		us = append(us, g.hex(32))
	}
	for n := g.r.Intn(4); n > 0; n-- {
		if full {
			x := g.tx()
			ts = append(ts, x.text())
			cs = append(cs, x.canon(txFields...))
		} else {
			x := g.hex(32)
			ts = append(ts, x)
			cs = append(cs, x)
		}
	}
	o["uncles"] = "[" + strings.Join(us, ",") + "]"
	o["transactions"] = "[" + strings.Join(ts, ",") + "]"
	c := obj{}
	for k, v := range o {
		c[k] = v
	}
	c["transactions"] = "[" + strings.Join(cs, "|") + "]"
	return o, c.canon(blockFields...)
}

func ccq(s string) string         { return `"` + s + `"` }
func ccb(b []byte) string         { return ccq("0x" + hex.EncodeToString(b)) }
func ccu(u seth.Uint64) string    { return ccq(fmt.Sprintf("0x%x", uint64(u))) }
func cci(i *seth.Int) string      { return ccq(fmt.Sprintf("0x%x", (*big.Int)(i))) }
func ccoh(h *seth.Hash) string    { return cco(h == nil, func() string { return ccb(h[:]) }) }
func ccoa(a *seth.Address) string { return cco(a == nil, func() string { return ccb(a[:]) }) }
func ccou(u *seth.Uint64) string  { return cco(u == nil, func() string { return ccu(*u) }) }
func cco(no bool, f func() string) string {
	if no {
		return "null"
	}
	return f()
}

func canonTx(t *seth.Transaction) string {
	return obj{"hash": ccb(t.Hash[:]), "nonce": ccu(t.Nonce), "blockHash": ccb(t.Block[:]), "blockNumber": ccu(t.BlockNumber), "to": ccoa(t.To),
		"transactionIndex": ccou(t.TxIndex), "from": ccoa(t.From), "value": cci(&t.Value), "gasPrice": cci(&t.GasPrice), "gas": ccu(t.Gas),
		"input": ccb(t.Input)}.canon(txFields...)
}

func canonLog(l *seth.Log) string {
	var ts []string
	for _, t := range l.Topics {
		ts = append(ts, ccb(t))
	}
	return obj{"removed": fmt.Sprint(l.Removed), "logIndex": ccou(l.LogIndex), "transactionIndex": ccou(l.TxIndex), "transactionHash": ccoh(l.TxHash),
		"blockHash": ccoh(l.BlockHash), "blockNumber": ccou(l.BlockNumber), "address": ccb(l.Address[:]), "data": ccb(l.Data),
		"topics": "[" + strings.Join(ts, ",") + "]"}.canon(lgFields...)
}

func canonReceipt(r *seth.Receipt) string {
	var ls []string
	for i := range r.Logs {
		ls = append(ls, canonLog(&r.Logs[i]))
	}
	if r.Threw() != (r.Status == 0) {
		return "Threw is wrong"
	}
	return obj{"transactionHash": ccb(r.Hash[:]), "transactionIndex": ccu(r.Index), "blockHash": ccb(r.BlockHash[:]), "blockNumber": ccu(r.BlockNumber),
		"gasUsed": ccu(r.GasUsed), "cumulativeGasUsed": ccu(r.Cumulative), "contractAddress": ccoa(r.Address), "status": ccu(r.Status),
		"logs": "[" + strings.Join(ls, "|") + "]"}.canon(rxFields...)
}

func canonBlock(b *seth.Block, full bool) string {
	var us, ts []string
	for i := range b.Uncles {
		us = append(us, ccb(b.Uncles[i][:]))
	}
	if full {
		txs, err := b.ParseTransactions()
		if err != nil {
			return "ParseTransactions: " + err.Error()
		}
		for i := range txs {
			ts = append(ts, canonTx(&txs[i]))
		}
	} else {
		for i := range b.Transactions {
			ts = append(ts, string(b.Transactions[i]))
		}
	}
	return obj{"number": ccou(b.Number), "hash": ccoh(b.Hash), "parentHash": ccb(b.Parent[:]), "nonce": ccu(b.Nonce), "sha3Uncles": ccb(b.UncleHash[:]),
		"logsBloom": ccb(b.Bloom), "transactionsRoot": ccb(b.TxRoot[:]), "stateRoot": ccb(b.StateRoot[:]), "receiptsRoot": ccb(b.ReceiptsRoot[:]),
		"miner": ccb(b.Miner[:]), "gasLimit": ccu(b.GasLimit), "gasUsed": ccu(b.GasUsed), "difficulty": cci(b.Difficulty),
		"totalDifficulty": cci(b.TotalDifficulty), "timestamp": ccu(b.Timestamp), "extraData": ccb(b.Extra),
		"uncles": "[" + strings.Join(us, ",") + "]", "transactions": "[" + strings.Join(ts, "|") + "]"}.canon(blockFields...)
}

// kind of result of each call
var ccResult = map[string]string{"ProtocolVersion": "str", "Syncing": "sync", "Coinbase": "addr", "Mining": "bool", "Hashrate": "u63", "GasPrice": "u63",
	"Accounts": "addrs", "BlockNumber": "u63", "Pending": "pending", "GetNonceAt": "u63", "GetNonce": "u63", "GetBalanceAt": "int", "GetBalance": "int",
	"GetBlock": "block", "Latest": "block", "GetTransaction": "tx", "GetReceipt": "rx", "GetCodeAt": "data", "GetCode": "data", "StorageAt": "hash",
	"UnlockAccount": "bool", "Call": "hash", "RawCall": "hash", "EstimateGas": "int", "ConstCall": "data", "ConstCallAt": "data", "Do": "str"}

// results of the wrong form
func (g ccGen) malformed(kind string) string {
	any := func(l ...string) string { return l[g.r.Intn(len(l))] }
	switch kind {
	case "str":
		return any(`5`, `[]`, `{}`, `true`)
	case "bool":
		return any(`5`, `[]`, `{}`, `"true"`)
	case "addr":
		return any(`5`, `[]`, `{}`, `true`, g.hex(19), g.hex(21), g.hex(32), `"0xzz`+strings.Repeat("0", 38)+`"`, `""`, `"0x"`)
	case "hash":
		return any(`5`, `[]`, `{}`, `true`, g.hex(31), g.hex(33), g.hex(20), `"0xzz`+strings.Repeat("0", 62)+`"`, `""`, `"0x"`)
	case "addrs":
		return any(`5`, `{}`, `true`, g.hex(20), `[`+g.hex(20)+`,`+g.hex(19)+`]`, `["0x"]`, `[5]`)
	case "u63", "int":
		l := []string{`[]`, `{}`, `true`, `"0xzz"`, `"hello"`, `""`, `"0x-1"`, `"12z"`, `"0x1 "`}
		if kind == "u63" {
			l = append(l, `"0x10000000000000000"`, g.hex(9)[:4]+"f"+g.hex(9)[5:])
			l = l[:len(l)-1]
		}
		return any(l...)
	case "data":
		return any(`5`, `[]`, `{}`, `true`, `"0xzz"`, `"hello"`)
	case "sync":
		return any(`5`, `[]`, `"x"`, `{"startingBlock":"zz","currentBlock":"0x1","highestBlock":"0x2"}`)
	}
	var o obj
	switch kind {
	case "tx":
		o = g.tx()
	case "rx":
		o, _ = g.receipt()
	case "block", "pending":
		o, _ = g.block(true)
	}
	if g.r.Intn(3) == 0 {
		return any(`5`, `"x"`, `[]`, `true`)
	}
	switch kind {
	case "tx":
		o[any("hash", "from", "to", "nonce", "value", "gasPrice", "input", "transactionIndex")] = any(`"0xzz"`, `[]`, `"0x123z"`)
	case "rx":
		o[any("transactionHash", "contractAddress", "status", "gasUsed", "blockNumber", "logs")] = any(`"0xzz"`, `{"a":1}`, `"0x123z"`)
	default:
		o[any("number", "hash", "parentHash", "timestamp", "gasUsed", "transactions", "uncles", "miner")] = any(`"0xzz"`, `{"a":1}`, `"0x123z"`)
	}
	return o.text()
}

func runCall(h *Hist, sc *ccScript, rng *rand.Rand) {
	g := ccGen{rng}
	h.Emit(M{"op": "reset"})
	strip := func(s string) string { return strings.Trim(s, `"`) }
	var blk int64
	bn := new(big.Int)
	switch sc.Blk.Tag {
	case "latest":
		blk = seth.Latest
	case "pending":
		blk = seth.Pending
	default:
		if len(sc.Blk.N) > 0 {
			bn = rbig(rng, 62)
		}
		blk = bn.Int64()
	}
	addrS, hashS := strip(g.hex(20)), strip(g.hex(32))
	addr, err1 := seth.ParseAddress(addrS)
	hash, err2 := seth.ParseHash(hashS)
	if err1 != nil || err2 != nil {
		h.Emit(M{"op": "PANIC", "in": "parsing"})
		return
	}
	str := []string{"custom_method", "", "p", `quote " \ and é`, "long " + strings.Repeat("x", 100)}[rng.Intn(5)]
	raw := make([]byte, rng.Intn(200))
	rng.Read(raw)
	tx := noTx()
	opts := new(seth.CallOpts)
	initOnce.Do(initSender)
	if rng.Intn(2) == 0 {
		opts.From, tx["from"] = ptrA(sndAddrs["S"]), "S"
	}
	if rng.Intn(4) > 0 {
		opts.To, tx["to"] = ptrA(sndAddrs["T"]), "T"
	}
	nums := map[string]**seth.Int{"gas": &opts.Gas, "price": &opts.GasPrice, "value": &opts.Value}
	for _, k := range []string{"gas", "price", "value"} {
		if rng.Intn(2) == 0 {
			n := rbig(rng, 200)
			*nums[k], tx[k] = (*seth.Int)(n), bOpt(n)
		}
	}
	if rng.Intn(3) == 0 {
		n := rbig(rng, 62)
		u := seth.Uint64(n.Uint64())
		opts.Nonce, tx["nonce"] = &u, bOpt(n)
	}
	opts.Data = raw[:rng.Intn(len(raw)+1)]
	tx["data"] = hex.EncodeToString(opts.Data)
	txb, _ := json.Marshal(tx)
	switch sc.F {
	case "RawCall":
		str = hex.EncodeToString(raw)
	case "Do":
		hashS, str = str, "custom_method"
	}
	h.Emit(M{"op": "begin", "call": M{"f": sc.F, "addr": addrS, "hash": hashS, "blk": M{"tag": sc.Blk.Tag, "n": bigB(bn)}, "full": sc.Full,
		"str": str, "tx": string(txb)}})
	// the answer
	kind := ccResult[sc.F]
	a := M{"k": strings.TrimSuffix(sc.K, "0"), "s": "", "n": []int{}}
	an := answer{kind: sc.K}
	full := sc.Full
	switch sc.K {
	case "ok":
		switch kind {
		case "str":
			a["s"] = []string{"63", "0x3f", "geth é", ""}[rng.Intn(4)]
			b, _ := json.Marshal(a["s"])
			an.result = string(b)
		case "bool":
			a["s"] = fmt.Sprint(rng.Intn(2) == 0)
			an.result = a["s"].(string)
		case "addr":
			an.result = g.hex(20)
			a["s"] = strip(an.result)
		case "hash":
			an.result = g.hex(32)
			a["s"] = strip(an.result)
		case "data":
			an.result = g.hex(rng.Intn(100))
			a["s"] = strip(an.result)
		case "addrs":
			var l []string
			for n := rng.Intn(4); n > 0; n-- {
				l = append(l, g.hex(20))
			}
			an.result = "[" + strings.Join(l, ",") + "]"
			a["s"] = strings.Replace(an.result, `"`, "", -1)
		case "u63":
			n := rbig(rng, 63)
			a["n"] = bigB(n)
			an.result = fmt.Sprintf(`"0x%x"`, n)
		case "int":
			n := rbig(rng, 256)
			a["n"] = bigB(n)
			an.result = fmt.Sprintf(`"0x%x"`, n)
		case "sync":
			if rng.Intn(2) == 0 {
				an.result, a["s"] = "false", "false"
			} else {
				o := obj{"startingBlock": g.num(60), "currentBlock": g.num(60), "highestBlock": g.num(60), "pulledStates": `"0x1"`}
				an.result, a["s"] = o.text(), o.canon("startingBlock", "currentBlock", "highestBlock")
			}
		case "tx":
			o := g.tx()
			an.result, a["s"] = o.text(), o.canon(txFields...)
		case "rx":
			o, c := g.receipt()
			an.result, a["s"] = o.text(), c
		case "block":
			o, c := g.block(full)
			an.result, a["s"] = o.text(), c
		case "pending":
			o, _ := g.block(false)
			var ts, cs []string
			for n := rng.Intn(4); n > 0; n-- {
				x := g.tx()
				ts, cs = append(ts, x.text()), append(cs, x.canon(txFields...))
			}
			o["transactions"] = "[" + strings.Join(ts, ",") + "]"
			an.result, a["s"] = o.text(), strings.Join(cs, "|")
		}
	case "form":
		an.kind, an.result = "ok", g.malformed(kind)
	case "rpc":
		code := []int{-32000, -32601, 3, 0, 1 << 30}[rng.Intn(5)]
		msg := []string{"refused", "", "é \" \\"}[rng.Intn(3)]
		if code == 0 {
			msg = "refused without a code"
		}
		data := []string{"", `"0x08c379a0"`, `{"a":[1,2]}`}[rng.Intn(3)]
		mb, _ := json.Marshal(msg)
		an.kind, an.result = "rawerr", fmt.Sprintf(`{"code":%d,"message":%s`, code, mb)
		if data != "" {
			an.result += `,"data":` + data
		}
		an.result += "}"
		a["s"] = fmt.Sprintf("%d:%s:%s", code, msg, data)
	}
	kindT := []string{"direct", "infura", "http", "stream", "ipc"}[rng.Intn(5)]
	var mu sync.Mutex
	cl, stop := ccClient(kindT, rng, func(m string, p []json.RawMessage) answer {
		mu.Lock()
		defer mu.Unlock()
		ps := A{}
		kinds, ok := ccParams[m]
		if !ok || len(kinds) != len(p) {
			h.Emit(M{"op": "garbled", "m": m, "p": fmt.Sprintf("%s", p)})
			return answer{kind: "rpc"}
		}
		for i := range p {
			ps = append(ps, ccParam(kinds[i], p[i]))
		}
		h.Emit(M{"op": "req", "m": m, "ps": ps})
		h.Emit(M{"op": "ans", "a": a})
		return an
	})
	defer stop()
	out := M{"k": "", "s": "", "n": []int{}}
	set := func(err error, s string, n *big.Int) {
		var re *seth.RPCError
		switch {
		case err == seth.PasswordDenied:
			out["k"] = "denied"
		case errors.As(err, &re):
			out["k"], out["s"] = "rpc", fmt.Sprintf("%d:%s:%s", re.Code, re.Message, string(re.Data))
		case err != nil:
			out["k"] = errKind(err)
		default:
			out["k"], out["s"] = "ok", s
			if n != nil {
				out["n"] = bigB(n)
				if n.Sign() < 0 {
					out["s"] = "negative"
				}
			}
		}
	}
	setI64 := func(i int64, err error) { set(err, "", big.NewInt(i)) }
	setInt := func(i seth.Int, err error) { set(err, "", (*big.Int)(&i)) }
	setHash := func(x seth.Hash, err error) { set(err, strip(ccb(x[:])), nil) }
	setData := func(b []byte, err error) { set(err, strip(ccb(b)), nil) }
	done := make(chan struct{})
	go func() {
		defer close(done)
		h.guard(sc.F, func() {
			switch sc.F {
			case "ProtocolVersion":
				s, err := cl.ProtocolVersion()
				set(err, s, nil)
			case "Syncing":
				s, err := cl.Syncing()
				x := "false"
				if s != nil {
					x = obj{"startingBlock": ccu(s.Starting), "currentBlock": ccu(s.Current), "highestBlock": ccu(s.Highest)}.canon("startingBlock", "currentBlock", "highestBlock")
				}
				set(err, x, nil)
			case "Coinbase":
				ad, err := cl.Coinbase()
				set(err, strip(ccoa(ad)), nil)
			case "Mining":
				b, err := cl.Mining()
				set(err, fmt.Sprint(b), nil)
			case "Hashrate":
				setI64(cl.Hashrate())
			case "GasPrice":
				setI64(cl.GasPrice())
			case "BlockNumber":
				setI64(cl.BlockNumber())
			case "Accounts":
				as, err := cl.Accounts()
				var l []string
				for i := range as {
					l = append(l, strip(ccb(as[i][:])))
				}
				set(err, "["+strings.Join(l, ",")+"]", nil)
			case "Pending":
				ts, err := cl.Pending()
				var l []string
				for i := range ts {
					l = append(l, canonTx(&ts[i]))
				}
				set(err, strings.Join(l, "|"), nil)
			case "GetNonceAt":
				setI64(cl.GetNonceAt(addr, blk))
			case "GetNonce":
				setI64(cl.GetNonce(addr))
			case "GetBalanceAt":
				setInt(cl.GetBalanceAt(addr, blk))
			case "GetBalance":
				setInt(cl.GetBalance(addr))
			case "GetBlock", "Latest":
				var b *seth.Block
				var err error
				if sc.F == "Latest" {
					b, err = cl.Latest(full)
				} else {
					b, err = cl.GetBlock(blk, full)
				}
				s := ""
				if err == nil {
					s = canonBlock(b, full)
				}
				set(err, s, nil)
			case "GetTransaction":
				t, err := cl.GetTransaction(hash)
				s := ""
				if err == nil {
					s = canonTx(t)
				}
				set(err, s, nil)
			case "GetReceipt":
				r, err := cl.GetReceipt(hash)
				s := ""
				if err == nil {
					s = canonReceipt(r)
				}
				set(err, s, nil)
			case "GetCodeAt":
				setData(cl.GetCodeAt(addr, blk))
			case "GetCode":
				setData(cl.GetCode(addr))
			case "StorageAt":
				setHash(cl.StorageAt(addr, hash, blk))
			case "UnlockAccount":
				err := cl.UnlockAccount(addr, str)
				set(err, "true", nil)
			case "Call":
				setHash(cl.Call(opts))
			case "RawCall":
				setHash(cl.RawCall(raw))
			case "EstimateGas":
				setInt(cl.EstimateGas(opts))
			case "ConstCall":
				var d seth.Data
				err := cl.ConstCall(opts, &d, full)
				setData(d, err)
			case "ConstCallAt":
				var d seth.Data
				err := cl.ConstCallAt(opts, &d, blk)
				setData(d, err)
			case "Do":
				var s string
				pb, _ := json.Marshal(hashS)
				err := cl.Do("custom_method", []json.RawMessage{pb}, &s)
				set(err, s, nil)
			}
		})
	}()
	select {
	case <-done:
	case <-time.After(sndHang):
		h.Emit(M{"op": "HANG", "what": sc.F})
		return
	}
	h.Emit(M{"op": "end", "out": out})
}

var initOnce sync.Once

// ipcDir is a home directory, in which geth has its socket; one client at
// a time dials it there
var (
	ipcDir  string
	ipcUser sync.Mutex
)

// ipcClient gives a client of a server on a unix socket: the one at the
// usual place, or one that is named
func ipcClient(rng *rand.Rand, fn wireFn) (*seth.Client, func()) {
	path, dial := filepath.Join(ipcDir, fmt.Sprintf("s%x", rng.Int63())), seth.IPCDial
	usual := rng.Intn(2) == 0
	if usual {
		ipcUser.Lock()
		path = filepath.Join(ipcDir, ".ethereum", "geth.ipc")
	} else {
		dial = seth.IPCPath(path)
	}
	l, err := net.Listen("unix", path)
	cMust(err)
	go func() {
		for {
			b, err := l.Accept()
			if err != nil {
				return
			}
			go wireServe(b, fn)
		}
	}()
	return seth.NewClient(dial), func() {
		l.Close() // which removes the socket
		if usual {
			ipcUser.Unlock()
		}
	}
}

// infura stands in for the service that InfuraTransport talks to:
// one client at a time, because the transport has nothing to tell
// clients apart by
var infura = &infuraHost{others: http.DefaultTransport}

func init() { http.DefaultTransport = infura }

type infuraHost struct {
	sync.Mutex
	others http.RoundTripper
	fn     wireFn
	how    int
}

func (f *infuraHost) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.URL.Host != "api.infura.io" {
		return f.others.RoundTrip(r)
	}
	const path = "/v1/jsonrpc/mainnet"
	var m string
	var p []json.RawMessage
	id := 7
	switch {
	case r.URL.Scheme != "https":
		m = "not over TLS"
	case r.Method == "POST" && r.URL.Path == path:
		b, _ := ioutil.ReadAll(r.Body)
		m, p, id = decodeReq(b)
	case r.Method == "GET" && strings.HasPrefix(r.URL.Path, path+"/"):
		q := r.URL.Query()
		m = strings.TrimPrefix(r.URL.Path, path+"/")
		if len(q) != 1 || len(q["params"]) != 1 || json.Unmarshal([]byte(q.Get("params")), &p) != nil {
			m = "malformed"
		}
		switch m {
		case "eth_sendRawTransaction", "eth_estimateGas", "eth_submitWork", "eth_submitHashrate":
			m += " has to be a POST"
		}
	default:
		m = "malformed"
	}
	a := f.fn(m, p)
	rsp := func(st int, b []byte) (*http.Response, error) {
		return &http.Response{StatusCode: st, Status: fmt.Sprint(st, " ", http.StatusText(st)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{"Content-Type": {"application/json"}}, Body: ioutil.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: r}, nil
	}
	if a.kind != "transport" {
		return rsp(200, wireText(id, a))
	}
	whole := wireText(id, answer{"ok", `"0x1"`})
	switch f.how {
	case 0:
		return rsp(429, whole)
	case 1:
		return rsp(502, nil)
	case 2:
		return rsp(200, whole[:len(whole)-3])
	}
	return nil, io.ErrUnexpectedEOF
}

// ccClient is clientVia with more ways of failing over HTTP
func ccClient(kind string, rng *rand.Rand, fn wireFn) (*seth.Client, func()) {
	if kind == "ipc" {
		return ipcClient(rng, fn)
	}
	if kind == "infura" {
		infura.Lock()
		infura.fn, infura.how = fn, rng.Intn(4)
		return seth.NewClientTransport(seth.InfuraTransport{}), infura.Unlock
	}
	if kind != "http" {
		return clientVia(kind, fn)
	}
	how := rng.Intn(5)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var req json.RawMessage
		if json.NewDecoder(r.Body).Decode(&req) != nil || r.Method != "POST" {
			fn("not a POST of JSON", nil)
			return
		}
		m, p, id := decodeReq(req)
		a := fn(m, p)
		if a.kind != "transport" {
			w.Write(wireText(id, a))
			return
		}
		whole := wireText(id, answer{"ok", `"0x1"`})
		switch how {
		case 0:
			w.WriteHeader(502)
		case 1: // an error page that is JSON
			w.WriteHeader(500)
			w.Write(whole)
		case 2: // cut off
			w.Write(whole[:rng.Intn(len(whole)-1)])
		case 3:
			w.Write([]byte("<html>"))
		default:
			if hj, ok := w.(http.Hijacker); ok {
				var c net.Conn
				if c, _, _ = hj.Hijack(); c != nil {
					c.Close()
				}
			}
		}
	}))
	return seth.NewHTTPClient(s.URL), s.Close
}

func driveCalls(t *Trace, a *Args) {
	initOnce.Do(initSender)
	base := os.Getenv("VSCRATCH")
	if len(base) > 60 {
		base = "" // the names of sockets are short
	}
	dir, err := ioutil.TempDir(base, "ipc")
	cMust(err)
	defer os.RemoveAll(dir)
	cMust(os.Mkdir(filepath.Join(dir, ".ethereum"), 0700))
	ipcDir = dir
	os.Setenv("HOME", dir)
	var list []*ccScript
	for _, raw := range a.Scripts {
		s := new(ccScript)
		if err := json.Unmarshal(raw, s); err != nil {
			panic("HARNESS BUG: " + err.Error())
		}
		for i := 0; i < a.Steps; i++ {
			list = append(list, s)
		}
	}
	seeds := make([]int64, len(list))
	for i := range seeds {
		seeds[i] = a.Rng.Int63()
	}
	for i := 0; i < 40*a.Steps; i++ {
		logCalls(t, a.Rng)
	}
	t.parallel(len(list), 64, func(i int, h *Hist) {
		runCall(h, list[i], rand.New(rand.NewSource(seeds[i])))
	})
}

// logCalls parses a receipt's log as the transfer of a token
func logCalls(t *Trace, r *rand.Rand) {
	bs := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
	l := seth.Log{Data: seth.Data(bs([]int{32, 32, 32, 0, 31, 1}[r.Intn(6)]))}
	if r.Intn(3) == 0 {
		for i := 0; i < len(l.Data) && i < r.Intn(33); i++ {
			l.Data[i] = 0
		}
	}
	r.Read(l.Address[:])
	sig := append([]byte{}, seth.ERC20Transfer[:]...)
	switch r.Intn(8) {
	case 0:
		sig[r.Intn(32)] ^= 1
	case 1:
		sig = sig[:31]
	}
	l.Topics = []seth.Data{sig, bs(32), bs(32)}
	for i := 1; i < 3; i++ {
		if r.Intn(3) > 0 {
			copy(l.Topics[i], make([]byte, 12))
		}
	}
	switch r.Intn(10) {
	case 0:
		l.Topics = l.Topics[:r.Intn(3)]
	case 1:
		l.Topics = append(l.Topics, bs(32))
	case 2:
		l.Topics[1+r.Intn(2)] = bs([]int{0, 12, 20, 31, 33}[r.Intn(5)])
	}
	ts := A{}
	for _, b := range l.Topics {
		ts = append(ts, ints(b))
	}
	rc := seth.Receipt{BlockNumber: seth.Uint64(r.Intn(1 << 30)), Index: seth.Uint64(r.Intn(300)), Status: seth.Uint64(r.Intn(3))}
	h := new(Hist)
	h.Emit(M{"op": "reset"})
	h.guard("ParseTransfer", func() {
		x, ok := rc.ParseTransfer(&l)
		out := M{"from": []int{}, "to": []int{}, "token": []int{}, "amount": []int{}, "block": 0, "height": 0}
		if ok {
			out = M{"from": ints(x.From[:]), "to": ints(x.To[:]), "token": ints(x.Token[:]), "amount": ints(x.Amount.Big().Bytes()), "block": int(x.Block), "height": x.TxHeight}
		}
		h.Emit(M{"op": "transfer", "log": M{"addr": ints(l.Address[:]), "topics": ts, "data": ints(l.Data)},
			"r": M{"block": int(rc.BlockNumber), "index": int(rc.Index), "status": int(rc.Status)}, "ok": ok, "out": out, "threw": rc.Threw()})
	})
	t.Append(h)
}
