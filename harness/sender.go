package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/philhofer/seth"
)

func init() { drivers["sender"] = driveSender }

// numbers as in BigNum.tla
func bigB(n *big.Int) []int {
	o := []int{}
	for _, b := range n.Bytes() {
		o = append(o, int(b))
	}
	return o
}

func bOpt(n *big.Int) M {
	if n == nil {
		return M{"has": false, "v": []int{}}
	}
	return M{"has": true, "v": bigB(n)}
}

// parseQuantity is strict about the form of a quantity
func parseQuantity(s string) (*big.Int, bool) {
	if !strings.HasPrefix(s, "0x") || len(s) < 3 || (s[2] == '0' && len(s) > 3) {
		return nil, false
	}
	return new(big.Int).SetString(s[2:], 16)
}

type sndOp struct {
	Kind   string `json:"kind"`
	From   string `json:"from"`
	To     string `json:"to"`
	Gas    optB   `json:"gas"`
	Price  optB   `json:"price"`
	Value  optB   `json:"value"`
	Data   string `json:"data"`
	Nonce  optB   `json:"nonce"`
	Signer string `json:"signer"`
	Num    int    `json:"num"`
	Den    int    `json:"den"`
	H      string `json:"h"`
	Prompt bool   `json:"prompt"`
}

type optB struct {
	Has bool  `json:"has"`
	V   []int `json:"v"`
}

type sndAns struct {
	K     string   `json:"k"`
	V     int      `json:"v"`
	Mined bool     `json:"mined"`
	Good  bool     `json:"good"`
	Addr  bool     `json:"addr"`
	Txs   []string `json:"txs"`
}

type sndScript struct {
	Call sndOp    `json:"call"`
	Said []sndAns `json:"said"`
}

var (
	sndKeys  = map[string]*seth.PrivateKey{}
	sndAddrs = map[string]seth.Address{}
)

func initSender() {
	for i, l := range []string{"S", "T", "U", "N"} {
		k := seth.NewPrivateKey(new(big.Int).SetBytes(crypto.Keccak256([]byte{byte(i), 's'})))
		ek, err := crypto.ToECDSA(crypto.Keccak256([]byte{byte(i), 's'}))
		if err != nil {
			panic("HARNESS BUG: " + err.Error())
		}
		sndKeys[l] = k
		sndAddrs[l] = seth.Address(crypto.PubkeyToAddress(ek.PublicKey))
	}
}

func sndLabel(b []byte) string {
	for l, a := range sndAddrs {
		if bytes.Equal(a[:], b) {
			return l
		}
	}
	return "?" + hex.EncodeToString(b)
}

func sndLabelHex(s string) string {
	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil || !strings.HasPrefix(s, "0x") {
		return "?" + s
	}
	return sndLabel(b)
}

func hashOf(label string) (h seth.Hash) {
	copy(h[:], crypto.Keccak256([]byte(label)))
	return
}

func noTx() M {
	return M{"from": "", "to": "", "gas": bOpt(nil), "price": bOpt(nil), "value": bOpt(nil), "data": "", "nonce": bOpt(nil)}
}

// jsonTx is a transaction of a request in canonical form
func jsonTx(raw json.RawMessage) (M, bool) {
	var m map[string]json.RawMessage
	if json.Unmarshal(raw, &m) != nil {
		return nil, false
	}
	tx := noTx()
	for k, v := range m {
		var s string
		if string(v) == "null" {
			continue
		}
		if json.Unmarshal(v, &s) != nil {
			return nil, false
		}
		switch k {
		case "from", "to":
			tx[k] = sndLabelHex(s)
		case "gas", "gasPrice", "value", "nonce":
			n, ok := parseQuantity(s)
			if !ok {
				return nil, false
			}
			if k == "gasPrice" {
				k = "price"
			}
			tx[k] = bOpt(n)
		case "data", "input":
			b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
			if err != nil || !strings.HasPrefix(s, "0x") {
				return nil, false
			}
			tx["data"] = hex.EncodeToString(b)
		default:
			return nil, false
		}
	}
	return tx, true
}

// rawTx is a signed transaction in canonical form, as go-ethereum understands it
func rawTx(raw json.RawMessage) (M, bool) {
	var s string
	if json.Unmarshal(raw, &s) != nil || !strings.HasPrefix(s, "0x") {
		return nil, false
	}
	b, err := hex.DecodeString(s[2:])
	if err != nil {
		return nil, false
	}
	var t types.Transaction
	if rlp.DecodeBytes(b, &t) != nil {
		return nil, false
	}
	from, err := types.Sender(types.NewEIP155Signer(big.NewInt(1)), &t)
	if err != nil || !t.Protected() || t.ChainId().Int64() != 1 {
		return nil, false
	}
	tx := noTx()
	tx["from"] = sndLabel(from[:])
	if t.To() != nil {
		tx["to"] = sndLabel(t.To()[:])
	}
	tx["gas"] = bOpt(new(big.Int).SetUint64(t.Gas()))
	tx["price"] = bOpt(t.GasPrice())
	tx["value"] = bOpt(t.Value())
	tx["nonce"] = bOpt(new(big.Int).SetUint64(t.Nonce()))
	tx["data"] = hex.EncodeToString(t.Data())
	return tx, true
}

func rbig(rng *rand.Rand, maxbits int) *big.Int {
	if rng.Intn(12) == 0 {
		return new(big.Int)
	}
	n := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(1+rng.Intn(maxbits))))
	if rng.Intn(6) == 0 { // around the boundaries of bytes
		n.Lsh(big.NewInt(1), uint(rng.Intn(maxbits/8)*8))
		n.Sub(n, big.NewInt(int64(rng.Intn(2))))
	}
	return n
}

var sndFails = []string{"rpc", "transport", "null", "form", "rpc0"}

// hang is how long an operation may take without making a request
const sndHang = 60 * time.Second

func runSender(h *Hist, sc *sndScript, rng *rand.Rand) {
	h.Emit(M{"op": "reset"})
	op := &sc.Call
	sprice := rbig(rng, 80)
	var gas, price, value, nonce *big.Int
	if op.Gas.Has {
		gas = rbig(rng, 40)
	}
	if op.Price.Has {
		price = rbig(rng, 100)
	}
	if op.Value.Has {
		value = rbig(rng, 128)
		if len(op.Value.V) == 0 {
			value = new(big.Int)
		}
	}
	if op.Nonce.Has {
		nonce = rbig(rng, 40)
	}
	num, den := 6, 5
	if rng.Intn(3) == 0 {
		num, den = 1+rng.Intn(20), 1+rng.Intn(20)
	}
	data := make([]byte, []int{0, 1, 4, 36, 55, 56, 100, 300}[rng.Intn(8)])
	rng.Read(data)
	viaSend := op.Kind == "constcall" || (op.Kind == "call" && op.From == "" && op.To != "" && !op.Gas.Has && !op.Price.Has && !op.Value.Has && !op.Nonce.Has && rng.Intn(2) == 0)
	var args []seth.EtherType
	method := "f()"
	if viaSend {
		// encoded by hand
		arg := rbig(rng, 255)
		data = nil
		switch rng.Intn(4) {
		case 0:
			method, args = "pay(address,uint256)", []seth.EtherType{ptrA(sndAddrs["U"]), (*seth.Int)(arg)}
			data = append(crypto.Keccak256([]byte(method))[:4], pad32(ptrA(sndAddrs["U"])[:])...)
			data = append(data, pad32(arg.Bytes())...)
		case 1:
			b := seth.Bytes("some bytes")
			method, args = "put(uint256,bytes)", []seth.EtherType{(*seth.Int)(arg), &b}
			data = append(crypto.Keccak256([]byte(method))[:4], pad32(arg.Bytes())...)
			data = append(data, pad32([]byte{64})...)
			data = append(data, pad32([]byte{10})...)
			data = append(append(data, b...), make([]byte, 22)...)
		default:
			data = crypto.Keccak256([]byte(method))[:4]
		}
	}
	if op.Kind == "cancel" || op.Kind == "wait" || op.Kind == "drain" {
		data = nil
	}
	call := M{"kind": op.Kind, "from": op.From, "to": op.To, "gas": bOpt(gas), "price": bOpt(price), "value": bOpt(value),
		"data": hex.EncodeToString(data), "nonce": bOpt(nonce), "signer": op.Signer, "num": num, "den": den,
		"sprice": bigB(sprice), "h": op.H, "prompt": op.Prompt}
	if op.Kind == "constcall" {
		call["value"] = bOpt(nil)
	}
	h.Emit(M{"op": "begin", "call": call})

	var mu sync.Mutex
	said := sc.Said
	nh := 10
	hashes := map[string]string{}
	hlab := func(raw json.RawMessage) string {
		var s string
		json.Unmarshal(raw, &s)
		for _, l := range append([]string{"H1", "H2", "H3"}, keysOf(hashes)...) {
			x := hashOf(l)
			if s == "0x"+hex.EncodeToString(x[:]) {
				return l
			}
		}
		return "?" + s
	}
	newHash := func() string {
		nh++
		l := fmt.Sprintf("H%d", nh)
		hashes[l] = l
		return l
	}
	hx := func(l string) string { x := hashOf(l); return "0x" + hex.EncodeToString(x[:]) }
	retdata := fmt.Sprintf("%x", data)
	serve := func(m string, p []json.RawMessage) answer {
		mu.Lock()
		defer mu.Unlock()
		r := M{"m": m, "tx": noTx(), "blk": "", "h": "", "addr": ""}
		good := true
		blk := func(i int) {
			var s string
			if json.Unmarshal(p[i], &s) != nil {
				good = false
			}
			r["blk"] = s
		}
		need := map[string]int{"eth_estimateGas": 2, "eth_call": 2, "eth_getTransactionCount": 2, "eth_sendTransaction": 1,
			"eth_sendRawTransaction": 1, "eth_getTransactionByHash": 1, "eth_getTransactionReceipt": 1, "eth_getBlockByNumber": 2}[m]
		if len(p) != need {
			h.Emit(M{"op": "garbled", "m": m})
			return answer{kind: "rpc"}
		}
		switch m {
		case "eth_estimateGas", "eth_call":
			blk(1)
			r["tx"], good = jsonTx(p[0])
		case "eth_sendTransaction":
			r["tx"], good = jsonTx(p[0])
		case "eth_sendRawTransaction":
			r["tx"], good = rawTx(p[0])
		case "eth_getTransactionCount":
			var s string
			json.Unmarshal(p[0], &s)
			r["addr"] = sndLabelHex(s)
			blk(1)
		case "eth_getBlockByNumber":
			blk(0)
			good = string(p[1]) == "true"
		default:
			r["h"] = hlab(p[0])
		}
		if !good {
			h.Emit(M{"op": "garbled", "m": m, "p": fmt.Sprintf("%s", p)})
			return answer{kind: "rpc"}
		}
		h.Emit(M{"op": "req", "r": r})
		var sa sndAns
		if len(said) > 0 {
			sa, said = said[0], said[1:]
		} else {
			sa = sndAns{K: "ok", Mined: true, Good: true, Addr: true, V: 1}
		}
		a := M{"k": strings.TrimSuffix(sa.K, "0"), "v": []int{}, "h": "", "mined": sa.Mined, "nonce": []int{}, "good": sa.Good, "txs": A{}}
		if sa.K != "ok" {
			h.Emit(M{"op": "ans", "a": a})
			switch {
			case sa.K != "form":
				return answer{kind: sa.K}
			case rng.Intn(2) == 0:
				return answer{"ok", `["0x1"]`}
			}
			return answer{"ok", `{"blockNumber":[],"nonce":{},"status":[],"number":{}}`}
		}
		res := ""
		switch m {
		case "eth_estimateGas":
			g := rbig(rng, 45)
			if sa.V == 0 {
				g = new(big.Int)
			}
			a["v"] = bigB(g)
			res = fmt.Sprintf(`"0x%x"`, g)
		case "eth_getTransactionCount":
			n := rbig(rng, 33)
			a["v"] = bigB(n)
			res = fmt.Sprintf(`"0x%x"`, n)
		case "eth_sendTransaction", "eth_sendRawTransaction":
			l := newHash()
			a["h"] = l
			res = `"` + hx(l) + `"`
		case "eth_call":
			a["h"] = retdata
			res = `"0x` + retdata + `"`
		case "eth_getTransactionByHash":
			pr, n := rbig(rng, 90), rbig(rng, 40)
			if op.Kind == "cancel" {
				// around the sender's own price
				pr.Add(sprice, big.NewInt(int64(sa.V)*int64(1+rng.Intn(300))))
				if pr.Sign() < 0 {
					pr.SetInt64(0)
				}
			}
			a["v"], a["nonce"] = bigB(pr), bigB(n)
			ix, bh, bn := "null", "null", "null"
			if sa.Mined {
				ix, bh, bn = fmt.Sprintf(`"0x%x"`, rng.Intn(3)), `"`+hx("B")+`"`, `"0x10"`
			}
			from := sndAddrs["S"]
			if bh == "null" {
				// nodes disagree about the block of a pending transaction
				if rng.Intn(2) == 0 {
					bh, bn = fmt.Sprintf(`"0x%064x"`, 0), `"0x0"`
				}
			}
			res = fmt.Sprintf(`{"hash":%q,"nonce":"0x%x","blockHash":%s,"blockNumber":%s,"transactionIndex":%s,"from":"0x%x","to":"0x%x","value":"0x5","gasPrice":"0x%x","gas":"0x5208","input":"0x1234"}`,
				hx(r["h"].(string)), n, bh, bn, ix, from[:], from[:], pr)
		case "eth_getTransactionReceipt":
			ad, st := "null", "0x0"
			if sa.Addr {
				x := sndAddrs["N"]
				ad = fmt.Sprintf(`"0x%x"`, x[:])
				a["h"] = "N"
			}
			if sa.Good {
				st = "0x1"
			}
			res = fmt.Sprintf(`{"transactionHash":%q,"transactionIndex":"0x0","blockHash":%q,"blockNumber":"0x1","gasUsed":"0x1","cumulativeGasUsed":"0x1","contractAddress":%s,"status":%q,"logs":[]}`,
				hx(r["h"].(string)), hx("B"), ad, st)
		case "eth_getBlockByNumber":
			var txs A
			var ts []string
			for _, f := range sa.Txs {
				l := newHash()
				x := sndAddrs[f]
				txs = append(txs, M{"h": l, "from": f})
				ts = append(ts, fmt.Sprintf(`{"hash":%q,"nonce":"0x%x","blockHash":"0x%064x","blockNumber":"0x0","transactionIndex":%s,"from":"0x%x","to":null,"value":"0x5","gasPrice":"0x1","gas":"0x5208","input":"0x"}`,
					hx(l), nh, 0, []string{"null", fmt.Sprintf(`"0x%x"`, len(ts))}[rng.Intn(2)], x[:]))
			}
			if txs != nil {
				a["txs"] = txs
			}
			res = fmt.Sprintf(`{"number":null,"hash":null,"parentHash":%q,"transactions":[%s]}`, hx("B"), strings.Join(ts, ","))
		}
		h.Emit(M{"op": "ans", "a": a})
		return answer{"ok", res}
	}
	cl, stop := clientVia([]string{"direct", "direct", "direct", "stream"}[rng.Intn(4)], serve)
	defer stop()
	addr := sndAddrs["S"]
	s := seth.NewSender(cl, &addr)
	s.GasPrice = seth.Int(*sprice)
	s.GasRatio.Num, s.GasRatio.Denom = num, den
	switch op.Signer {
	case "ok":
		s.Signer = sndKeys["S"].Signer()
	case "wrong":
		s.Signer = sndKeys["T"].Signer()
	case "fail":
		s.Signer = func(*seth.Hash) (*seth.Signature, error) { return nil, errors.New("the signer refuses") }
	}
	out := M{"k": "", "v": ""}
	set := func(err error, v string) {
		switch {
		case err == seth.ErrCannotCancel:
			out["k"] = "cannotcancel"
		case err != nil:
			out["k"] = errKind(err)
		default:
			out["k"], out["v"] = "ok", v
		}
	}
	setHash := func(x seth.Hash, err error) {
		l := "?" + x.String()
		for _, k := range keysOf(hashes) {
			if x == hashOf(k) {
				l = k
			}
		}
		set(err, l)
	}
	optI := func(n *big.Int) *seth.Int {
		if n == nil {
			return nil
		}
		return (*seth.Int)(n)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		h.guard("Sender."+op.Kind, func() {
			switch op.Kind {
			case "call":
				if viaSend {
					to := sndAddrs[op.To]
					setHash(s.Send(&to, method, args...))
					return
				}
				o := &seth.CallOpts{Gas: optI(gas), GasPrice: optI(price), Value: optI(value), Data: data}
				if op.From != "" {
					o.From = ptrA(sndAddrs[op.From])
				}
				if op.To != "" {
					o.To = ptrA(sndAddrs[op.To])
				}
				if nonce != nil {
					n := seth.Uint64(nonce.Uint64())
					o.Nonce = &n
				}
				setHash(s.Call(o))
			case "create":
				ad, err := s.Create(data, optI(value))
				set(err, sndLabel(ad[:]))
			case "constcall":
				var ret seth.Data
				to := sndAddrs[op.To]
				err := s.ConstCall(&to, method, &ret, args...)
				set(err, hex.EncodeToString(ret))
			case "cancel":
				x := hashOf(op.H)
				setHash(s.Cancel(&x))
			case "wait":
				x := hashOf(op.H)
				set(s.Wait(&x), "")
			case "drain":
				pr := func(t *seth.Transaction) {
					l := "?"
					mu.Lock()
					for _, k := range keysOf(hashes) {
						if t.Hash == hashOf(k) {
							l = k
						}
					}
					mu.Unlock()
					h.Emit(M{"op": "prompt", "h": l})
				}
				if op.Prompt {
					set(s.Drain(pr), "")
				} else {
					set(s.Drain(), "")
				}
			}
		})
	}()
	select {
	case <-done:
	case <-time.After(sndHang):
		h.Emit(M{"op": "HANG", "what": op.Kind})
		return
	}
	h.Emit(M{"op": "end", "out": out})
}

func keysOf(m map[string]string) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	return
}

func ptrA(a seth.Address) *seth.Address { return &a }

func pad32(b []byte) []byte { return append(make([]byte, 32-len(b)), b...) }

func driveSender(t *Trace, a *Args) {
	initSender()
	var list []*sndScript
	for _, raw := range a.Scripts {
		s := new(sndScript)
		if err := json.Unmarshal(raw, s); err != nil {
			panic("HARNESS BUG: " + err.Error())
		}
		list = append(list, s)
	}
	kinds := []string{"call", "call", "call", "create", "constcall", "cancel"}
	if a.Profile == "waits" {
		kinds = []string{"create", "cancel", "cancel", "cancel", "cancel", "wait", "drain", "drain", "drain"}
	}
	for i := 0; i < a.N; i++ {
		r := a.Rng
		s := new(sndScript)
		o := &s.Call
		o.Kind = kinds[r.Intn(len(kinds))]
		o.Signer = []string{"none", "none", "ok", "ok", "wrong", "fail"}[r.Intn(6)]
		o.Prompt = r.Intn(2) == 0
		o.H = "H1"
		switch o.Kind {
		case "call":
			o.From = []string{"", "", "S", "T"}[r.Intn(4)]
			o.To = []string{"", "T", "U", "S"}[r.Intn(4)]
			o.Gas.Has, o.Price.Has, o.Value.Has, o.Nonce.Has = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
			o.Value.V = []int{1}
		case "create":
			o.Value.Has, o.Value.V = r.Intn(2) == 0, []int{1}
		case "constcall":
			o.To = "T"
		}
		for n := r.Intn(5); n > 0; n-- {
			an := sndAns{K: "ok", V: r.Intn(4) - 1, Mined: r.Intn(3) > 0, Good: r.Intn(4) > 0, Addr: r.Intn(5) > 0}
			if r.Intn(8) == 0 {
				an.K = sndFails[r.Intn(len(sndFails))]
			}
			for k := r.Intn(6); k > 0; k-- {
				an.Txs = append(an.Txs, []string{"S", "T", "U"}[r.Intn(3)])
			}
			s.Said = append(s.Said, an)
		}
		list = append(list, s)
	}
	seeds := make([]int64, len(list))
	for i := range seeds {
		seeds[i] = a.Rng.Int63()
	}
	t.parallel(len(list), 600, func(i int, h *Hist) {
		runSender(h, list[i], rand.New(rand.NewSource(seeds[i])))
	})
}
