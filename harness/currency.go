package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/big"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/cc"
)

func init() { drivers["currency"] = driveCurrency }

type curFacts struct {
	Name   []int  `json:"name"`
	Digits int    `json:"digits"`
	Addr   string `json:"addr"`
}

var curTable []curFacts
var curIndex = map[cc.Currency]int{"": 0}

func curName(c int) cc.Currency {
	if c == 0 {
		return ""
	}
	return cc.Currency(raw(curTable[c-1].Name))
}

func initCurrencies(file string) {
	b, err := ioutil.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &curTable)
	}
	if err != nil {
		panic("HARNESS BUG: " + err.Error())
	}
	for i, f := range curTable {
		n := curName(i + 1)
		curIndex[n] = i + 1
		if strings.HasPrefix(string(n), "T") && n != "TKN" { // ours
			if f.Addr != "" {
				cc.NewToken(string(n), f.Digits, f.Addr)
			} else {
				cc.NewCurrency(string(n), f.Digits)
			}
		}
	}
}

type curWorld struct {
	h    *Hist
	r    *rand.Rand
	amt  [4]*cc.Amount
	rate [4]*cc.Rate
	pair [4]*cc.Pair
	aok  [4]bool
	rok  [4]bool
	pok  [4]bool
}

func zof(n *big.Int) M                { return M{"neg": n.Sign() < 0, "b": bigB(new(big.Int).Abs(n))} }
func rof(r *cc.Rate) M                { return zof((*big.Int)(r)) }
func curOf(c cc.Currency) interface{} { return curIndex[c] }
func aof(a *cc.Amount) M {
	m := zof(&a.Amount)
	m["cur"] = curOf(a.Currency)
	return m
}
func pof(p *cc.Pair) M {
	return M{"from": curOf(p.From), "to": curOf(p.To), "rate": rof(&p.Rate)}
}

var noAmt = M{"cur": 0, "neg": false, "b": []int{}}
var noRate = M{"neg": false, "b": []int{}}
var noPair = M{"from": 0, "to": 0, "rate": noRate}

func (w *curWorld) num() *big.Int {
	var n *big.Int
	switch w.r.Intn(4) {
	case 0:
		n = big.NewInt(int64(w.r.Intn(200)))
	case 1: // around a power of ten
		n = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(w.r.Intn(45))), nil)
		n.Add(n, big.NewInt(int64(w.r.Intn(3)-1)))
	case 2:
		n = rbig(w.r, 70)
	default:
		n = rbig(w.r, 256)
	}
	if w.r.Intn(4) == 0 {
		n.Neg(n)
	}
	return n
}

// favorites have few digits, or share them
func (w *curWorld) cur() int {
	if w.r.Intn(4) == 0 {
		return 1 + w.r.Intn(len(curTable))
	}
	return len(curTable) - w.r.Intn(6)
}

// call runs f, in which seth may panic on purpose
func (w *curWorld) call(f func()) (st string) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(string)
			if !ok || !strings.HasPrefix(s, "cc: ") {
				panic(r)
			}
			st = "panic"
		}
	}()
	f()
	return "ok"
}

func (w *curWorld) lookAll() {
	for i := range w.amt {
		if w.aok[i] {
			w.h.Emit(M{"op": "look", "i": i + 1, "v": aof(w.amt[i])})
		}
		if w.rok[i] {
			w.h.Emit(M{"op": "lookR", "i": i + 1, "v": rof(w.rate[i])})
		}
		if w.pok[i] {
			w.h.Emit(M{"op": "lookP", "i": i + 1, "v": pof(w.pair[i])})
		}
	}
}

func plain(s string) bool {
	return strings.IndexFunc(s, func(r rune) bool {
		return r < 32 || r > 126 && r != '🦄' || r == '"' || r == '\\' || r == '<' || r == '>' || r == '&'
	}) < 0
}

func (w *curWorld) readAmt(i int, x string) {
	if !utf8.ValidString(x) || !plain(x) {
		return
	}
	v := new(cc.Amount)
	if w.r.Intn(2) == 0 {
		v = w.amt[i]
	}
	var err error
	switch w.r.Intn(3) {
	case 0:
		var n *cc.Amount
		if n, err = cc.ParseAmount(x); err == nil {
			v = n
		}
	case 1:
		err = v.UnmarshalText([]byte(x))
	case 2:
		err = json.Unmarshal([]byte(`"`+x+`"`), v)
	}
	e := M{"op": "readamt", "i": i + 1, "x": ints([]byte(x)), "st": "ok", "v": noAmt}
	if err != nil {
		e["st"] = "err"
	} else {
		e["v"] = aof(v)
		w.amt[i] = v
	}
	w.aok[i] = err == nil
	w.h.Emit(e)
}

func (w *curWorld) readNum(i, c int, x string) {
	v, err := curName(c).ParseAmount(x)
	e := M{"op": "readnum", "i": i + 1, "c": c, "x": ints([]byte(x)), "st": "ok", "v": noAmt}
	if err != nil {
		e["st"] = "err"
	} else {
		e["v"] = aof(v)
		w.amt[i] = v
	}
	w.aok[i] = err == nil
	w.h.Emit(e)
}

func (w *curWorld) readRate(i int, x string) {
	var err error
	v := w.rate[i]
	switch how := w.r.Intn(4); {
	case how == 0 && plain(x):
		err = json.Unmarshal([]byte(`"`+x+`"`), v)
	case how == 1 && json.Valid([]byte(x)) && plain(x) && x != "null" && x[0] != ' ' && x[len(x)-1] != ' ':
		s := struct{ X *cc.Rate }{v}
		err = json.Unmarshal([]byte(`{"X":`+x+`}`), &s)
	case how == 2 && len(x) > 0 && strings.Trim(x, "0123456789.-+") == "":
		_, err = fmt.Sscan(x, v)
	default:
		var n *cc.Rate
		if n, err = cc.ParseRate(x); err == nil {
			*v = *n
		}
	}
	e := M{"op": "readR", "i": i + 1, "x": ints([]byte(x)), "st": "ok", "v": noRate}
	if err != nil {
		e["st"] = "err"
	} else {
		e["v"] = rof(v)
	}
	w.rok[i] = err == nil
	w.h.Emit(e)
}

func (w *curWorld) readPair(i int, x string) {
	var err error
	v := w.pair[i]
	switch w.r.Intn(4) {
	case 0:
		err = v.FromString(x)
	case 1:
		err = v.UnmarshalText([]byte(x))
	case 2:
		if plain(x) {
			err = json.Unmarshal([]byte(`"`+x+`"`), v)
			break
		}
		fallthrough
	default:
		var n *cc.Pair
		if n, err = cc.ParsePair(x); err == nil {
			*v = *n
		}
	}
	e := M{"op": "readP", "i": i + 1, "x": ints([]byte(x)), "st": "ok", "v": noPair}
	if err != nil {
		e["st"] = "err"
	} else {
		e["v"] = pof(v)
	}
	w.pok[i] = err == nil
	w.h.Emit(e)
}

func (w *curWorld) text(v interface {
	String() string
	MarshalText() ([]byte, error)
}) string {
	var b []byte
	var err error
	switch w.r.Intn(4) {
	case 0:
		b, err = v.MarshalText()
	case 1:
		if b, err = json.Marshal(v); err == nil {
			var s string
			err = json.Unmarshal(b, &s)
			b = []byte(s)
		}
	case 2:
		b = []byte(fmt.Sprint(v))
	default:
		b = []byte(v.String())
	}
	if err != nil {
		return "ERROR " + err.Error()
	}
	return string(b)
}

func (w *curWorld) rateText(v *cc.Rate) string {
	switch w.r.Intn(3) {
	case 0:
		b, err := v.MarshalJSON()
		if err != nil {
			return err.Error()
		}
		return string(b)
	case 1:
		b, err := json.Marshal(map[string]*cc.Rate{"x": v})
		if err != nil {
			return err.Error()
		}
		return strings.TrimSuffix(strings.TrimPrefix(string(b), `{"x":`), "}")
	}
	return v.String()
}

func (w *curWorld) dirty(x string) string {
	r := w.r
	b := []byte(x)
	for n := 1 + r.Intn(2); n > 0; n-- {
		k := 0
		if len(b) > 0 {
			k = r.Intn(len(b))
		}
		c := "0019.-+ eA_/x"[r.Intn(13)]
		switch r.Intn(6) {
		case 0:
			if len(b) > 0 {
				b = append(b[:k:k], b[k+1:]...)
			}
		case 1:
			if len(b) > 0 {
				b[k] = c
			}
		case 2, 3:
			b = append(b[:k:k], append([]byte{c}, b[k:]...)...)
		case 4:
			b = b[k:]
		case 5:
			b = b[:k]
		}
	}
	return string(b)
}

// decimal makes a text that says n * 10^-d, perhaps not in the printed form
func (w *curWorld) decimal(n *big.Int, d int) string {
	s := new(big.Int).Abs(n).String()
	if len(s) < d+1 && w.r.Intn(2) == 0 {
		s = strings.Repeat("0", d+1-len(s)) + s
	}
	if d > 0 && len(s) >= d {
		s = s[:len(s)-d] + "." + s[len(s)-d:]
		if w.r.Intn(2) == 0 {
			s = strings.TrimRight(s, "0")
		}
	}
	if w.r.Intn(4) == 0 {
		s = strings.Repeat("0", 1+w.r.Intn(3)) + s
	}
	if n.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func (w *curWorld) step() {
	r := w.r
	i, j, k := r.Intn(4), r.Intn(4), r.Intn(4)
	anyA := func() bool { return w.aok[i] && w.aok[j] }
	switch r.Intn(24) {
	case 0, 1, 2: // a fresh variable, so that nothing is shared on our side
		c := w.cur()
		w.amt[i] = &cc.Amount{Currency: curName(c)}
		w.amt[i].Amount.Set(w.num())
		if r.Intn(8) == 0 {
			w.amt[i] = new(cc.Amount)
		}
		w.aok[i] = true
		w.h.Emit(M{"op": "setA", "i": i + 1, "v": aof(w.amt[i])})
	case 3:
		n := new(big.Int).Set(w.num())
		w.rate[k] = (*cc.Rate)(n)
		w.rok[k] = true
		w.h.Emit(M{"op": "setR", "i": k + 1, "v": rof(w.rate[k])})
	case 4:
		w.pair[k] = &cc.Pair{From: curName(w.cur()), To: curName(w.cur()), Rate: cc.Rate(*w.num())}
		w.pok[k] = true
		w.h.Emit(M{"op": "setP", "i": k + 1, "v": pof(w.pair[k])})
	case 5, 6, 7:
		if w.aok[i] && !w.amt[i].Nil() {
			x := w.text(w.amt[i])
			w.h.Emit(M{"op": "print", "i": i + 1, "out": ints([]byte(x))})
			if r.Intn(3) == 0 {
				x = w.dirty(x)
			}
			w.readAmt(j, x)
		}
	case 8:
		c := w.cur()
		d := curTable[c-1].Digits
		if r.Intn(4) == 0 {
			d++
		}
		x := w.decimal(w.num(), d)
		if r.Intn(3) == 0 {
			x = w.dirty(x)
		}
		w.readNum(i, c, x)
	case 9:
		if w.rok[k] {
			x := w.rateText(w.rate[k])
			w.h.Emit(M{"op": "printR", "i": k + 1, "out": ints([]byte(x))})
			if r.Intn(3) == 0 {
				x = w.dirty(x)
			}
			w.readRate(j, x)
		}
	case 10:
		d := cc.RateDigits
		if r.Intn(4) == 0 {
			d++
		}
		x := w.decimal(w.num(), d)
		if r.Intn(3) == 0 {
			x = w.dirty(x)
		}
		w.readRate(k, x)
	case 11:
		if w.pok[k] {
			x := w.text(w.pair[k])
			w.h.Emit(M{"op": "printP", "i": k + 1, "out": ints([]byte(x))})
			if r.Intn(3) == 0 {
				x = w.dirty(x)
			}
			w.readPair(j, x)
		}
	case 12, 13:
		if anyA() {
			if r.Intn(2) == 0 { // more often of one currency
				w.amt[i] = &cc.Amount{Currency: w.amt[j].Currency}
				w.amt[i].Amount.Set(w.num())
				w.h.Emit(M{"op": "setA", "i": i + 1, "v": aof(w.amt[i])})
			}
			op := []string{"add", "sub"}[r.Intn(2)]
			if i == j && w.amt[i].Nil() {
				return
			}
			var ret *cc.Amount
			st := w.call(func() {
				if op == "add" {
					ret = w.amt[i].Add(w.amt[j])
				} else {
					ret = w.amt[i].Sub(w.amt[j])
				}
			})
			e := M{"op": op, "i": i + 1, "j": j + 1, "st": st, "v": noAmt}
			if st == "ok" {
				e["v"] = aof(ret)
				if ret != w.amt[i] {
					e["st"] = "other"
				}
			}
			w.h.Emit(e)
		}
	case 14:
		if w.aok[i] {
			w.h.Emit(M{"op": "neg", "i": i + 1, "v": aof(w.amt[i].Neg())})
		}
	case 15:
		if anyA() {
			n := 0
			st := w.call(func() { n = w.amt[i].Cmp(w.amt[j]) })
			w.h.Emit(M{"op": "cmp", "i": i + 1, "j": j + 1, "st": st, "n": n})
			w.h.Emit(M{"op": "sign", "i": i + 1, "n": w.amt[i].Sign()})
		}
	case 16:
		if w.aok[i] {
			if r.Intn(2) == 0 {
				w.amt[j] = w.amt[i].Copy()
			} else {
				w.amt[j].Set(w.amt[i])
			}
			w.aok[j] = true
			w.h.Emit(M{"op": "copy", "i": i + 1, "j": j + 1, "v": aof(w.amt[j])})
		}
	case 17, 18:
		if w.aok[i] && w.rok[k] && !w.amt[i].Nil() {
			c := w.cur()
			w.amt[j] = cc.Convert(w.amt[i], curName(c), w.rate[k])
			w.aok[j] = true
			w.h.Emit(M{"op": "convert", "i": i + 1, "j": j + 1, "k": k + 1, "c": c, "v": aof(w.amt[j])})
		}
	case 19:
		if w.rok[k] {
			m := r.Intn(4)
			v := w.rate[k].Inverse()
			w.rate[m] = (*cc.Rate)(new(big.Int).Set((*big.Int)(v)))
			w.rok[m] = true
			w.h.Emit(M{"op": "invertR", "i": k + 1, "j": m + 1, "v": rof(v)})
			w.h.Emit(M{"op": "signR", "i": m + 1, "n": w.rate[m].Sign()})
		}
	case 20:
		if w.pok[k] {
			m := r.Intn(4)
			v := w.pair[k].Inverse()
			w.pair[m] = &cc.Pair{From: v.From, To: v.To, Rate: cc.Rate(*new(big.Int).Set((*big.Int)(&v.Rate)))}
			w.pok[m] = true
			w.h.Emit(M{"op": "invertP", "i": k + 1, "j": m + 1, "v": pof(v)})
		}
	case 21:
		if w.pok[k] && w.aok[i] {
			if r.Intn(2) == 0 {
				w.amt[i] = &cc.Amount{Currency: w.pair[k].From}
				if r.Intn(2) == 0 {
					w.amt[i].Currency = w.pair[k].To
				}
				w.amt[i].Amount.Set(w.num())
				w.h.Emit(M{"op": "setA", "i": i + 1, "v": aof(w.amt[i])})
			}
			inv := (*big.Int)(w.pair[k].Rate.Inverse())
			e := M{"op": "convertP", "k": k + 1, "i": i + 1, "j": j + 1, "inv": zof(inv), "v": noAmt}
			st := w.call(func() {
				w.amt[j] = w.pair[k].Convert(w.amt[i])
				e["v"] = aof(w.amt[j])
			})
			w.aok[j] = w.aok[j] || st == "ok"
			e["st"] = st
			w.h.Emit(e)
		}
	case 22:
		exp := r.Intn(9)
		num := int64(r.Intn(1<<20)) - 1<<18
		f := math.Ldexp(float64(num), -exp)
		v := cc.NewRate(f)
		if v.Float() != f {
			v = cc.NewRate(12345678) // shows up as a wrong value
		}
		w.rate[k] = v
		w.rok[k] = true
		w.h.Emit(M{"op": "float", "i": k + 1, "num": zof(big.NewInt(num)), "exp": exp, "v": rof(v)})
	case 23:
		c := w.cur()
		f := curFacts{Name: ints([]byte(curName(c).Name())), Digits: curName(c).Digits()}
		if a := curName(c).Addr(); a != nil {
			f.Addr = strings.ToLower(a.String())
		}
		w.h.Emit(M{"op": "facts", "c": c, "d": f})
		x := string(curName(c))
		if r.Intn(3) == 0 {
			x = w.dirty(x)
		}
		got, ok := cc.CurrencyByName(x)
		if !ok {
			got = ""
		}
		w.h.Emit(M{"op": "byname", "x": ints([]byte(x)), "c": curOf(got)})
		if y := f.Addr; y != "" {
			var a seth.Address
			a.FromString(y)
			if r.Intn(3) == 0 {
				a[r.Intn(20)] ^= 1
			}
			got, ok := cc.TokenByAddress(&a)
			if !ok {
				got = ""
			}
			w.h.Emit(M{"op": "byaddr", "x": strings.ToLower(a.String()), "c": curOf(got)})
		}
	}
	w.lookAll()
}

func newCurWorld(a *Args) *curWorld {
	w := &curWorld{h: new(Hist), r: rand.New(rand.NewSource(a.Rng.Int63()))}
	for i := range w.amt {
		w.amt[i], w.rate[i], w.pair[i] = new(cc.Amount), new(cc.Rate), new(cc.Pair)
		w.aok[i] = true
	}
	w.h.Emit(M{"op": "reset"})
	return w
}

func driveCurrency(t *Trace, a *Args) {
	initCurrencies(a.Data)
	for s := 0; s < len(a.Scripts); s += 50 {
		w := newCurWorld(a)
		w.h.guard("currency", func() {
			for k := s; k < s+50 && k < len(a.Scripts); k++ {
				var x []int
				json.Unmarshal(a.Scripts[k], &x)
				text := string(raw(x))
				d := len(curTable) - 5 + w.r.Intn(4) // T0 to T8
				w.readNum(w.r.Intn(4), d, text)
				w.readRate(w.r.Intn(4), text)
				w.readAmt(w.r.Intn(4), text+" T2")
				// the names of the alphabet of the model
				y := strings.NewReplacer("A", "T0", "B", "T1").Replace(text)
				w.readAmt(w.r.Intn(4), y)
				w.readPair(w.r.Intn(4), y+"/T2")
			}
		})
		t.Append(w.h)
	}
	for n := a.N; n > 0; n-- {
		w := newCurWorld(a)
		w.h.guard("currency", func() {
			for k := 3 + w.r.Intn(a.Steps); k > 0; k-- {
				w.step()
			}
		})
		t.Append(w.h)
	}
	if _, ok := curIndex[""]; !ok {
		panic("HARNESS BUG: table")
	}
}
