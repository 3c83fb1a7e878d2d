package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
)

// Programs of the specification (spec/EVM.tla) are run by a hand-assembled
// interpreter contract, whose input is the encoded program. The same code
// followed by a program is init code that runs the program and deploys
// the interpreter.

// Ins is one instruction
type Ins struct {
	I  string   `json:"i"`
	S  string   `json:"s,omitempty"`  // slot
	K  string   `json:"k,omitempty"`  // kind of value or call
	V  string   `json:"v,omitempty"`  // operand of the value
	T  []string `json:"t,omitempty"`  // topics
	D  string   `json:"d,omitempty"`  // data of a log
	To string   `json:"to,omitempty"` // account
	N  int      `json:"n"`            // ether sent, in units
	G  string   `json:"g,omitempty"`  // gas: "big" or "tiny"
	F  string   `json:"f,omitempty"`  // what to do with the result: ignore, bubble, store
	P  []Ins    `json:"p"`            // program of the callee
}

var interp = assemble()

type asm struct {
	b      []byte
	labels map[string]int
	refs   map[int]string
}

func (a *asm) op(ops ...vm.OpCode) *asm {
	for _, o := range ops {
		a.b = append(a.b, byte(o))
	}
	return a
}

func (a *asm) push(n int) *asm {
	if n < 256 {
		a.b = append(a.b, byte(vm.PUSH1), byte(n))
	} else {
		a.b = append(a.b, byte(vm.PUSH2), byte(n>>8), byte(n))
	}
	return a
}

func (a *asm) ref(l string) *asm {
	a.b = append(a.b, byte(vm.PUSH2))
	a.refs[len(a.b)] = l
	a.b = append(a.b, 0, 0)
	return a
}

func (a *asm) label(l string) *asm {
	a.labels[l] = len(a.b)
	return a.op(vm.JUMPDEST)
}

const progbase = 0x80

// word i of the operands of the instruction at the pc, which is depth items below the top
func (a *asm) arg(i, depth int) *asm {
	return a.op(vm.DUP1+vm.OpCode(depth)).push(1+32*i).op(vm.ADD, vm.MLOAD)
}

func assemble() []byte {
	a := &asm{labels: map[string]int{}, refs: map[int]string{}}
	sel := crypto.Keccak256([]byte("run(bytes)"))[:4]

	// runtime or init code?
	a.ref("LEN").op(vm.CODESIZE, vm.EQ).ref("runtime").op(vm.JUMPI)
	a.ref("LEN").op(vm.CODESIZE, vm.SUB)
	a.ref("LEN").push(progbase).op(vm.CODECOPY)
	a.ref("start").op(vm.JUMP)
	a.label("runtime")
	a.push(0).op(vm.CALLDATALOAD).push(224).op(vm.SHR)
	a.b = append(a.b, byte(vm.PUSH4))
	a.b = append(a.b, sel...)
	a.op(vm.EQ).ref("abi").op(vm.JUMPI)
	a.op(vm.CALLDATASIZE).push(0).push(progbase).op(vm.CALLDATACOPY)
	a.ref("start").op(vm.JUMP)
	a.label("abi")
	a.push(68).op(vm.CALLDATASIZE, vm.SUB).push(68).push(progbase).op(vm.CALLDATACOPY)
	a.label("start")
	a.push(progbase) // the pc
	a.label("loop")
	a.op(vm.DUP1, vm.MLOAD).push(0).op(vm.BYTE)
	for i, l := range []string{"end", "sstore", "log", "call", "create", "destroy", "revert", "invalid", "ret"} {
		a.op(vm.DUP1).push(i).op(vm.EQ).ref(l).op(vm.JUMPI)
	}
	a.op(vm.OpCode(0xfe))

	a.label("end")
	a.ref("LEN").op(vm.CODESIZE, vm.EQ).ref("stop").op(vm.JUMPI)
	a.ref("LEN").push(0).push(0).op(vm.CODECOPY)
	a.ref("LEN").push(0).op(vm.RETURN)
	a.label("stop").op(vm.STOP)

	// value of kind at word i, operand at word i+1; stack: [pc] -> [pc value]
	n := 0
	eval := func(i int) {
		l := fmt.Sprintf("evalret%d", n)
		n++
		a.ref(l)
		a.arg(i+1, 1)
		a.arg(i, 2)
		a.ref("eval").op(vm.JUMP)
		a.label(l)
	}

	a.label("sstore").op(vm.POP)
	eval(1)
	a.arg(0, 1).op(vm.SSTORE)
	a.push(1 + 3*32).op(vm.ADD).ref("loop").op(vm.JUMP)

	a.label("log").op(vm.POP)
	a.arg(3, 0).push(0).op(vm.MSTORE)
	a.arg(0, 0).op(vm.ISZERO).ref("log0").op(vm.JUMPI)
	a.arg(0, 0).push(1).op(vm.EQ).ref("log1").op(vm.JUMPI)
	a.arg(2, 0).arg(1, 1).push(32).push(0).op(vm.LOG2).ref("logend").op(vm.JUMP)
	a.label("log1").arg(1, 0).push(32).push(0).op(vm.LOG1).ref("logend").op(vm.JUMP)
	a.label("log0").push(32).push(0).op(vm.LOG0)
	a.label("logend").push(1 + 4*32).op(vm.ADD).ref("loop").op(vm.JUMP)

	// words: kind gas to value flag slot len
	a.label("call").op(vm.POP)
	a.push(0).push(0)                                         // out size, out offset
	a.arg(6, 2)                                               // in size
	a.op(vm.DUP4).push(1 + 7*32).op(vm.ADD)                   // in offset
	a.arg(0, 4).push(2).op(vm.LT).ref("novalue").op(vm.JUMPI) // 2 < kind
	a.arg(3, 4).arg(2, 5).arg(1, 6)
	a.arg(0, 7).push(1).op(vm.EQ).ref("docall").op(vm.JUMPI)
	a.op(vm.CALLCODE).ref("called").op(vm.JUMP)
	a.label("docall").op(vm.CALL).ref("called").op(vm.JUMP)
	a.label("novalue")
	a.arg(2, 4).arg(1, 5)
	a.arg(0, 6).push(3).op(vm.EQ).ref("dodelegate").op(vm.JUMPI)
	a.op(vm.STATICCALL).ref("called").op(vm.JUMP)
	a.label("dodelegate").op(vm.DELEGATECALL)
	a.label("called") // [pc result]
	a.arg(4, 1).push(1).op(vm.EQ).ref("bubble7").op(vm.JUMPI)
	a.arg(4, 1).push(2).op(vm.EQ).ref("store7").op(vm.JUMPI)
	a.label("skip7").op(vm.POP)
	a.arg(6, 0).op(vm.ADD).push(1 + 7*32).op(vm.ADD).ref("loop").op(vm.JUMP)
	a.label("bubble7").op(vm.DUP1).ref("skip7").op(vm.JUMPI).push(0).push(0).op(vm.REVERT)
	a.label("store7").op(vm.DUP1).arg(5, 2).op(vm.SSTORE).ref("skip7").op(vm.JUMP)

	// words: value - - - flag slot len
	a.label("create").op(vm.POP)
	a.arg(6, 0)
	a.op(vm.DUP2).push(1 + 7*32).op(vm.ADD)
	a.arg(0, 2)
	a.op(vm.CREATE)
	a.ref("called").op(vm.JUMP)

	a.label("destroy").op(vm.POP)
	a.arg(0, 0).op(vm.SELFDESTRUCT)

	a.label("revert").op(vm.POP)
	a.arg(0, 0).push(0).op(vm.MSTORE).push(32).push(0).op(vm.REVERT)

	a.label("invalid").op(vm.OpCode(0xfe))

	a.label("ret").op(vm.POP)
	eval(0)
	a.push(0).op(vm.MSTORE).push(32).push(0).op(vm.RETURN)

	// [ret operand kind] -> [value], jumps to ret
	a.label("eval")
	for i := range evalkinds {
		a.op(vm.DUP1).push(i).op(vm.EQ).ref("ev-" + evalkinds[i]).op(vm.JUMPI)
	}
	a.op(vm.OpCode(0xfe))
	fin := func() { a.op(vm.SWAP1, vm.JUMP) }
	a.label("ev-const").op(vm.POP)
	fin()
	a.label("ev-sload").op(vm.POP, vm.SLOAD)
	fin()
	a.label("ev-balance").op(vm.POP, vm.BALANCE)
	fin()
	a.label("ev-caller").op(vm.POP, vm.POP, vm.CALLER)
	fin()
	a.label("ev-value").op(vm.POP, vm.POP, vm.CALLVALUE)
	fin()
	a.label("ev-self").op(vm.POP, vm.POP, vm.ADDRESS)
	fin()
	a.label("ev-number").op(vm.POP, vm.POP, vm.NUMBER)
	fin()
	a.label("ev-origin").op(vm.POP, vm.POP, vm.ORIGIN)
	fin()
	a.label("ev-hascode").op(vm.POP, vm.EXTCODESIZE, vm.ISZERO, vm.ISZERO)
	fin()
	a.label("ev-time").op(vm.POP, vm.POP, vm.TIMESTAMP)
	fin()
	a.label("ev-gasprice").op(vm.POP, vm.POP, vm.GASPRICE)
	fin()
	a.label("ev-parent").op(vm.POP, vm.POP).push(1).op(vm.NUMBER, vm.SUB, vm.BLOCKHASH)
	fin()
	a.label("ev-codehash").op(vm.POP, vm.EXTCODEHASH)
	fin()

	a.labels["LEN"] = len(a.b)
	for at, l := range a.refs {
		n, ok := a.labels[l]
		if !ok {
			panic("HARNESS BUG: label " + l)
		}
		a.b[at], a.b[at+1] = byte(n>>8), byte(n)
	}
	return a.b
}

var evalkinds = []string{"const", "sload", "balance", "caller", "value", "self", "number", "origin", "hascode", "time", "gasprice", "parent", "codehash"}

func kindno(s string) int {
	for i, k := range evalkinds {
		if k == s {
			return i
		}
	}
	panic("HARNESS BUG: kind " + s)
}

// Names relates the labels of the specification to real addresses and values
type Names struct {
	unit  *big.Int
	label map[common.Address]string
	addr  map[string]common.Address
	word  map[common.Hash]string
}

var baseLabels = []string{"A", "B", "C", "D", "X", "Y", "Z"}

var globalLabel = map[common.Address]string{}
var globalAddr = map[string]common.Address{}

var deepLabel map[common.Address]string

func addBase(label string, a common.Address, lm map[common.Address]string, am map[string]common.Address, depth int) {
	lm[a] = label
	am[label] = a
	if depth == 0 {
		return
	}
	for n := 0; n < 12; n++ {
		addBase(label+"/"+strconv.Itoa(n), crypto.CreateAddress(a, uint64(n)), lm, am, depth-1)
	}
}

func init() {
	for i, l := range baseLabels {
		var a common.Address
		copy(a[:], crypto.Keccak256([]byte("account "+l)))
		if l == "Y" {
			// an address with leading zeros
			a[0], a[1], a[2] = 0, 0, 0
		}
		a[19] = byte(i)
		addBase(l, a, globalLabel, globalAddr, 3)
	}
}

func newNames(unit *big.Int) *Names {
	return &Names{unit: unit, label: map[common.Address]string{}, addr: map[string]common.Address{}, word: map[common.Hash]string{}}
}

func (n *Names) add(label string, a common.Address) { addBase(label, a, n.label, n.addr, 1) }

func (n *Names) Addr(l string) common.Address {
	if a, ok := globalAddr[l]; ok {
		return a
	}
	if a, ok := n.addr[l]; ok {
		return a
	}
	panic("HARNESS BUG: no address " + l)
}

func (n *Names) SAddr(l string) *seth.Address {
	a := seth.Address(n.Addr(l))
	return &a
}

func (n *Names) Label(a common.Address) string {
	if l, ok := globalLabel[a]; ok {
		return l
	}
	if l, ok := n.label[a]; ok {
		return l
	}
	// perhaps a contract deeper down
	if deepLabel == nil {
		deepLabel = map[common.Address]string{}
		for p, l := range globalLabel {
			if strings.Count(l, "/") == 3 {
				for i := 0; i < 8; i++ {
					deepLabel[crypto.CreateAddress(p, uint64(i))] = l + "/" + strconv.Itoa(i)
				}
			}
		}
	}
	if l, ok := deepLabel[a]; ok {
		return l
	}
	return "?" + a.Hex()
}

// Units is a balance in units
func (n *Names) Units(b *big.Int) int {
	var q, r big.Int
	q.QuoRem(b, n.unit, &r)
	if r.Sign() != 0 || !q.IsInt64() || q.Int64() > 1<<30 || q.Int64() < -(1<<30) {
		return -999
	}
	return int(q.Int64())
}

func (n *Names) Wei(u int) *big.Int {
	return new(big.Int).Mul(big.NewInt(int64(u)), n.unit)
}

// Value renders a word
func (n *Names) Value(b []byte) string {
	v := new(big.Int).SetBytes(b)
	if v.BitLen() > 200 {
		h := common.BigToHash(v)
		if l, ok := n.word[h]; ok {
			return l
		}
		if l, ok := codeHashes[h]; ok {
			return "code:" + l
		}
	} else if p := priceLabel(v); p >= 100 {
		return "p" + strconv.Itoa(p)
	}
	if v.BitLen() <= 160 && v.Sign() != 0 {
		a := common.BigToAddress(v)
		if l := n.Label(a); l[0] != '?' {
			return l
		}
	}
	if v.Sign() != 0 && n.unit.Cmp(big.NewInt(1)) != 0 {
		var q, r big.Int
		q.QuoRem(v, n.unit, &r)
		if r.Sign() == 0 {
			return "u" + q.String()
		}
	}
	return v.String()
}

func word(b *big.Int) []byte { return common.LeftPadBytes(b.Bytes(), 32) }
func iword(i int) []byte     { return word(big.NewInt(int64(i))) }

func (n *Names) dec(s string) []byte {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("HARNESS BUG: number " + s)
	}
	return word(v)
}

func (n *Names) aword(l string) []byte {
	a := n.Addr(l)
	return common.LeftPadBytes(a[:], 32)
}

func (n *Names) evalwords(k, v string) []byte {
	o := iword(kindno(k))
	switch k {
	case "const", "sload":
		return append(o, n.dec(v)...)
	case "balance", "hascode", "codehash":
		return append(o, n.aword(v)...)
	}
	return append(o, iword(0)...)
}

// Compile encodes a program that runs with the given amount of gas
func (n *Names) Compile(p []Ins, gas int) []byte {
	var o []byte
	w := func(b ...[]byte) {
		for _, x := range b {
			o = append(o, x...)
		}
	}
	flag := map[string]int{"ignore": 0, "": 0, "bubble": 1, "store": 2}
	for _, i := range p {
		switch i.I {
		case "stop":
			w([]byte{0})
		case "sstore":
			w([]byte{1}, n.dec(i.S), n.evalwords(i.K, i.V))
		case "log":
			t := [2][]byte{iword(0), iword(0)}
			for j, x := range i.T {
				t[j] = n.dec(x)
			}
			w([]byte{2}, iword(len(i.T)), t[0], t[1], n.dec(i.D))
		case "call":
			g := gas / 8
			if i.G == "tiny" {
				g = 2000
			}
			sub := n.Compile(i.P, gas/8)
			kind := map[string]int{"call": 1, "callcode": 2, "delegate": 3, "static": 4}[i.K]
			if kind == 0 {
				panic("HARNESS BUG: call kind " + i.K)
			}
			w([]byte{3}, iword(kind), iword(g), n.aword(i.To), word(n.Wei(i.N)), iword(flag[i.F]))
			if i.F == "store" {
				w(n.dec(i.S))
			} else {
				w(iword(0))
			}
			w(iword(len(sub)), sub)
		case "create":
			sub := n.InitCode(i.P, gas/8)
			w([]byte{4}, word(n.Wei(i.N)), iword(0), iword(0), iword(0), iword(flag[i.F]))
			if i.F == "store" {
				w(n.dec(i.S))
			} else {
				w(iword(0))
			}
			w(iword(len(sub)), sub)
		case "destroy":
			w([]byte{5}, n.aword(i.To))
		case "revert":
			w([]byte{6}, iword(7))
		case "invalid":
			w([]byte{7})
		case "ret":
			w([]byte{8}, n.evalwords(i.K, i.V))
		default:
			panic("HARNESS BUG: instruction " + i.I)
		}
	}
	return append(o, 0)
}

// InitCode is code that runs p and deploys the interpreter
func (n *Names) InitCode(p []Ins, gas int) []byte {
	return append(append([]byte(nil), interp...), n.Compile(p, gas)...)
}

// CodeLabel renders the code of an account
func codeLabel(b []byte) string {
	switch {
	case len(b) == 0:
		return ""
	case string(b) == string(interp):
		return "I"
	case strings.HasPrefix(string(b), "\xfe\xfdcode"):
		return "c" + string(b[6:])
	}
	return "?"
}

var codeLabels = []string{"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9"}

// hashes of code that there may be
var codeHashes = map[common.Hash]string{}

func init() {
	for _, l := range append([]string{"", "I"}, codeLabels...) {
		codeHashes[crypto.Keccak256Hash(codeBytes(l))] = l
	}
}

func codeBytes(l string) []byte {
	switch {
	case l == "":
		return nil
	case l == "I":
		return append([]byte(nil), interp...)
	}
	return []byte("\xfe\xfdcode" + l[1:])
}

// jsonable copies v by way of JSON
func jsonable(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic("HARNESS BUG: " + err.Error())
	}
	var o interface{}
	json.Unmarshal(b, &o)
	return o
}
