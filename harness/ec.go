package main

import (
	"hash"
	"math/big"
	"math/rand"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/ec"
	"github.com/philhofer/seth/keccak"
)

func init() {
	drivers["keccak"] = driveKeccak
	drivers["curve"] = driveCurve
}

// ---- hashing

var kcSizes = []int{28, 32, 48, 64}

func kcNew(size int) hash.Hash {
	switch size {
	case 28:
		return keccak.New224()
	case 32:
		return keccak.New256()
	case 48:
		return keccak.New384()
	}
	return keccak.New512()
}

func kcBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(5) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = []byte{1, 0x80, 0x81, 0}[r.Intn(4)]
		}
	default:
		r.Read(b)
	}
	return b
}

// a length about the ends of blocks
func kcLen(r *rand.Rand, rate int) int {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1 + r.Intn(9)
	case 2:
		return r.Intn(rate)
	case 3:
		return rate*(1+r.Intn(2)) + r.Intn(rate)
	case 4:
		return rate*3 + r.Intn(5) - 2
	}
	return rate*(1+r.Intn(2)) + r.Intn(5) - 2
}

func driveKeccak(t *Trace, a *Args) {
	for i := 0; i < a.N; i++ {
		h := new(Hist)
		h.Emit(M{"op": "reset"})
		h.guard("keccak", func() { kcHistory(h, a.Rng, a.Steps) })
		t.Append(h)
	}
	if a.Shard == 0 { // every length up to beyond two blocks
		h := new(Hist)
		h.Emit(M{"op": "reset"})
		h.guard("keccak", func() {
			for _, size := range kcSizes {
				rate := 200 - 2*size
				for n := 0; n < 2*rate+3; n++ {
					if n > 3 && n%rate > 2 && n%rate < rate-2 && n%a.every() != int(a.Seed)%a.every() {
						continue
					}
					kcWhole(h, a.Rng, size, kcBytes(a.Rng, n))
				}
			}
		})
		t.Append(h)
	}
}

// with -profile all nothing is left out
func (a *Args) every() int {
	if a.Profile == "all" {
		return 1
	}
	return 16
}

func kcWhole(h *Hist, r *rand.Rand, size int, b []byte) {
	var out []byte
	buf := kcPlaced(r, b)
	switch size {
	case 28:
		s := keccak.Sum224(buf)
		out = s[:]
	case 32:
		switch r.Intn(3) {
		case 0:
			s := keccak.Sum256(buf)
			out = s[:]
		case 1:
			s := seth.HashBytes(buf)
			out = s[:]
		default:
			s := seth.HashString(string(buf))
			out = s[:]
		}
	case 48:
		s := keccak.Sum384(buf)
		out = s[:]
	default:
		s := keccak.Sum512(buf)
		out = s[:]
	}
	h.Emit(M{"op": "whole", "b": ints(b), "size": size, "out": ints(out)})
}

// a copy at some offset, with something behind it
func kcPlaced(r *rand.Rand, b []byte) []byte {
	o := r.Intn(9)
	buf := make([]byte, o+len(b)+8)
	r.Read(buf)
	copy(buf[o:], b)
	return buf[o : o+len(b)]
}

func kcHistory(h *Hist, r *rand.Rand, steps int) {
	var hs [3]hash.Hash
	var size [3]int
	for k := 0; k < steps; k++ {
		i := r.Intn(3)
		if hs[i] == nil || r.Intn(30) == 0 {
			size[i] = kcSizes[r.Intn(4)]
			if r.Intn(2) == 0 {
				size[i] = 32
			}
			hs[i] = kcNew(size[i])
			h.Emit(M{"op": "new", "h": i, "size": size[i]})
		}
		switch r.Intn(12) {
		case 0, 1, 2, 3, 4, 5, 6:
			b := kcBytes(r, kcLen(r, 200-2*size[i]))
			buf := kcPlaced(r, b)
			hs[i].Write(buf)
			for j := range buf { // what was written is the hasher's no more
				buf[j] ^= byte(1 + j)
			}
			h.Emit(M{"op": "write", "h": i, "b": ints(b)})
		case 7, 8, 9:
			before := kcBytes(r, r.Intn(3))
			in := make([]byte, len(before), len(before)+r.Intn(80))
			copy(in, before)
			out := hs[i].Sum(in)
			h.Emit(M{"op": "sum", "h": i, "before": ints(before), "out": ints(out)})
		case 10:
			if r.Intn(3) == 0 {
				hs[i].Reset()
				h.Emit(M{"op": "clear", "h": i})
			} else {
				var p seth.PublicKey
				copy(p[:], kcBytes(r, 64))
				h.Emit(M{"op": "address", "b": ints(p[:]), "out": ints(p.Address()[:])})
			}
		default:
			kcWhole(h, r, kcSizes[r.Intn(4)], kcBytes(r, kcLen(r, 136)))
		}
	}
}

// ---- the curve

var (
	ecP, _      = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	ecBeta, _   = new(big.Int).SetString("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee", 16)
	ecLambda, _ = new(big.Int).SetString("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72", 16)
	ecGx, _     = new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
	ecGy, _     = new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)
	big1        = big.NewInt(1)
)

type ecPoint struct{ x, y *big.Int } // nil for infinity

func (p ecPoint) args() (*big.Int, *big.Int) {
	if p.x == nil {
		return new(big.Int), new(big.Int)
	}
	return new(big.Int).Set(p.x), new(big.Int).Set(p.y)
}

func (p ecPoint) neg() ecPoint {
	if p.x == nil {
		return p
	}
	return ecPoint{p.x, new(big.Int).Sub(ecP, p.y)}
}

// times beta: the same y
func (p ecPoint) turn() ecPoint {
	if p.x == nil {
		return p
	}
	x := new(big.Int).Mul(p.x, ecBeta)
	return ecPoint{x.Mod(x, ecP), p.y}
}

// bytes of a number; of 33 bytes and more for what is none of the field
func ecNum(x *big.Int) []int {
	if x.Sign() < 0 {
		return ints(make([]byte, 33))
	}
	return ints(x.Bytes())
}

func (p ecPoint) enc() A {
	if p.x == nil {
		return A{}
	}
	return A{ecNum(p.x), ecNum(p.y)}
}

// a point as the curve's methods return it
func ecRet(x, y *big.Int) ecPoint {
	if x.Sign() == 0 && y.Sign() == 0 {
		return ecPoint{}
	}
	return ecPoint{new(big.Int).Set(x), new(big.Int).Set(y)}
}

func ecRHS(x *big.Int) *big.Int {
	c := new(big.Int).Exp(x, big.NewInt(3), ecP)
	c.Add(c, big.NewInt(7))
	return c.Mod(c, ecP)
}

// y of x, even or odd, or nil
func ecY(x *big.Int, odd uint) *big.Int {
	y := new(big.Int).ModSqrt(ecRHS(x), ecP)
	if y != nil && y.Bit(0) != odd {
		y.Sub(ecP, y)
	}
	return y
}

// the point of coordinate y, or none
func ecX(y *big.Int, r *rand.Rand) *big.Int {
	c := new(big.Int).Mul(y, y)
	c.Sub(c, big.NewInt(7))
	c.Mod(c, ecP)
	e := new(big.Int).Add(ecP, big.NewInt(2))
	e.Div(e, big.NewInt(9))
	x := new(big.Int).Exp(c, e, ecP)
	if new(big.Int).Exp(x, big.NewInt(3), ecP).Cmp(c) != 0 {
		return nil
	}
	for i := r.Intn(3); i > 0; i-- {
		x.Mul(x, ecBeta)
		x.Mod(x, ecP)
	}
	return x
}

// a field element about the edges of its representations
func ecEdge(r *rand.Rand) *big.Int {
	x := new(big.Int)
	switch r.Intn(6) {
	case 0:
		return x.SetInt64(int64(1 + r.Intn(50)))
	case 1:
		return x.Sub(ecP, big.NewInt(int64(1+r.Intn(50))))
	case 2: // words of ones and zeros
		w := []uint{26, 13, 32, 52, 64}[r.Intn(5)]
		for i := uint(0); i < 256; i += w {
			if r.Intn(2) == 0 {
				for j := i; j < i+w && j < 256; j++ {
					x.SetBit(x, int(j), 1)
				}
			}
		}
	case 3: // one run of ones
		i, j := r.Intn(257), r.Intn(257)
		for ; i < j; i++ {
			x.SetBit(x, i, 1)
		}
	case 4: // about a power of two
		x.Lsh(big1, uint(r.Intn(256)))
		x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
	default:
		x.Rand(r, ecP)
	}
	x.Mod(x.Abs(x), ecP)
	return x
}

func ecAny(r *rand.Rand) ecPoint {
	for {
		v := ecEdge(r)
		if r.Intn(4) == 0 { // y^2 = x^3 + 7 at the edge
			if y := new(big.Int).ModSqrt(v, ecP); y != nil {
				if x := ecX(y, r); x != nil {
					return ecPoint{x, y}
				}
			}
		} else if r.Intn(3) == 0 {
			if x := ecX(v, r); x != nil {
				return ecPoint{x, v}
			}
		} else if y := ecY(v, uint(r.Intn(2))); y != nil {
			return ecPoint{v, y}
		}
	}
}

// multiples tells those of some points which were seen
type ecWorld struct {
	h     *Hist
	r     *rand.Rand
	c     *ec.KoblitzCurve
	known map[string]map[string]bool
	list  map[string][]*big.Int
}

func (w *ecWorld) key(p ecPoint, base bool) string {
	if base {
		p = ecPoint{ecGx, ecGy}
	}
	if p.x == nil {
		return ""
	}
	return p.x.Text(16) + "," + p.y.Text(16)
}

func (w *ecWorld) knows(id string, k *big.Int) bool {
	return k.Sign() == 0 || k.Cmp(big1) == 0 || w.known[id][k.Text(16)]
}

// mult asks for k p, where a and b are known and a + b = k
func (w *ecWorld) mult(p ecPoint, base bool, k, a, b *big.Int) {
	kb := k.Bytes()
	if w.r.Intn(8) == 0 {
		kb = append(make([]byte, w.r.Intn(34)), kb...)
	}
	kc := append([]byte(nil), kb...)
	id := w.key(p, base)
	if base && w.r.Intn(6) != 0 {
		x, y := w.c.ScalarBaseMult(kc)
		w.h.Emit(M{"op": "basemult", "k": ints(kb), "a": ecNum(a), "b": ecNum(b), "r": ecRet(x, y).enc()})
	} else {
		if base {
			p = ecPoint{ecGx, ecGy}
		}
		px, py := p.args()
		x, y := w.c.ScalarMult(px, py, kc)
		w.h.Emit(M{"op": "mult", "p": p.enc(), "k": ints(kb), "a": ecNum(a), "b": ecNum(b), "r": ecRet(x, y).enc()})
	}
	if !w.knows(id, k) {
		if w.known[id] == nil {
			w.known[id] = map[string]bool{}
		}
		w.known[id][k.Text(16)] = true
		w.list[id] = append(w.list[id], k)
	}
}

// chain leads to k by doubling and adding
func (w *ecWorld) chain(p ecPoint, base bool, k *big.Int) {
	id := w.key(p, base)
	if w.knows(id, k) {
		return
	}
	h := new(big.Int).Rsh(k, 1)
	w.chain(p, base, h)
	d := new(big.Int).Lsh(h, 1)
	if !w.knows(id, d) {
		w.mult(p, base, d, h, h)
	}
	if d.Cmp(k) != 0 {
		w.mult(p, base, k, d, big1)
	}
}

// some more multiples: sums of known ones
func (w *ecWorld) sums(p ecPoint, base bool, n int) {
	id := w.key(p, base)
	for ; n > 0; n-- {
		l := w.list[id]
		a, b := l[w.r.Intn(len(l))], l[len(l)-1-w.r.Intn(1+len(l)/4)]
		k := new(big.Int).Add(a, b)
		if k.BitLen() > 330 {
			continue
		}
		w.mult(p, base, k, a, b)
	}
}

func ecScalar(r *rand.Rand) *big.Int {
	k := new(big.Int)
	switch r.Intn(8) {
	case 0: // about multiples of the order
		k.Mul(kOrder, big.NewInt(int64(1+r.Intn(3))))
		k.Add(k, big.NewInt(int64(r.Intn(5)-2)))
	case 1: // about multiples of the eigenvalue of the endomorphism
		k.Mul(ecLambda, big.NewInt(int64(1+r.Intn(4))))
		k.Add(k, big.NewInt(int64(r.Intn(5)-2)))
		if r.Intn(2) == 0 {
			k.Mod(k, kOrder)
		}
		if r.Intn(3) == 0 {
			k.Sub(kOrder, k.Mod(k, kOrder))
		}
	case 2: // its square
		k.Mul(ecLambda, ecLambda)
		k.Mod(k, kOrder)
		k.Add(k, big.NewInt(int64(r.Intn(5)-2)))
	case 3: // halves of the scalar small or alike
		k.Rand(r, new(big.Int).Lsh(big1, 128))
		l := new(big.Int).Mul(ecLambda, big.NewInt(int64(r.Intn(3))))
		if r.Intn(2) == 0 {
			l.Mul(ecLambda, k)
		}
		k.Add(k, l)
		k.Mod(k, kOrder)
	case 4: // longer than 32 bytes
		k.Rand(r, new(big.Int).Lsh(big1, uint(257+r.Intn(70))))
	case 5:
		k = ecEdge(r)
	default:
		k.Rand(r, kOrder)
	}
	return k
}

func (w *ecWorld) chains(p ecPoint, base bool, steps int) {
	if !base && w.r.Intn(3) == 0 { // small ones, all of them
		for k := int64(0); k < 40; k++ {
			w.mult(p, base, big.NewInt(k), big.NewInt(k/2), big.NewInt(k-k/2))
		}
	}
	w.mult(p, base, new(big.Int), new(big.Int), new(big.Int))
	w.mult(p, base, big1, new(big.Int), big1)
	for i := 0; i < 2; i++ {
		k := ecScalar(w.r)
		w.chain(p, base, k)
		for j := 0; j < 2; j++ {
			w.mult(p, base, new(big.Int).Add(k, big1), k, big1)
			k = new(big.Int).Add(k, big1)
		}
	}
	w.sums(p, base, steps)
}

// points of some kind, added, doubled, looked at
func (w *ecWorld) points(steps int) {
	r := w.r
	var pool []ecPoint
	pick := func() ecPoint {
		if len(pool) == 0 || r.Intn(6) == 0 {
			pool = append(pool, ecAny(r))
		}
		p := pool[r.Intn(len(pool))]
		if len(pool) > 12 {
			pool = pool[6:]
		}
		switch r.Intn(14) {
		case 0:
			return ecPoint{}
		case 1, 2:
			return p.neg()
		case 3:
			return p.turn()
		case 4:
			return p.turn().neg()
		}
		return p
	}
	// the summand that makes the sum (or the double) a point at the edge
	towards := func(p ecPoint) ecPoint {
		s := ecAny(r)
		sx, sy := s.args()
		if p.x == nil {
			h := new(big.Int).Add(kOrder, big1)
			return ecRet(w.c.ScalarMult(sx, sy, h.Rsh(h, 1).Bytes()))
		}
		nx, ny := p.neg().args()
		return ecRet(w.c.Add(sx, sy, nx, ny))
	}
	for i := 0; i < steps; i++ {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			p, q := pick(), pick()
			switch r.Intn(8) {
			case 4, 5:
				q = towards(p)
			case 0:
				q = p
			case 1:
				q = p.turn()
			case 2:
				q = p.turn().neg()
			case 3:
				q = p.neg()
			}
			px, py := p.args()
			qx, qy := q.args()
			x, y := w.c.Add(px, py, qx, qy)
			s := ecRet(x, y)
			w.h.Emit(M{"op": "add", "p": p.enc(), "q": q.enc(), "r": s.enc()})
			if r.Intn(3) == 0 {
				pool = append(pool, s)
			}
		case 4, 5:
			p := pick()
			if r.Intn(3) == 0 {
				p = towards(ecPoint{})
			}
			px, py := p.args()
			x, y := w.c.Double(px, py)
			s := ecRet(x, y)
			w.h.Emit(M{"op": "double", "p": p.enc(), "r": s.enc()})
			if r.Intn(3) == 0 {
				pool = append(pool, s)
			}
		case 6:
			p := ecAny(r)
			x, y := p.args()
			switch r.Intn(6) {
			case 0:
				y = ecEdge(r)
			case 1:
				y.Add(y, big1)
				y.Mod(y, ecP)
			case 2:
				y.SetBit(y, r.Intn(255), 1-y.Bit(0))
				y.Mod(y, ecP)
			case 3:
				x.Xor(x, new(big.Int).Lsh(big1, uint(r.Intn(255))))
				x.Mod(x, ecP)
			}
			ok := w.c.IsOnCurve(new(big.Int).Set(x), new(big.Int).Set(y))
			w.h.Emit(M{"op": "check", "x": ecNum(x), "y": ecNum(y), "ok": ok})
		default:
			x := ecEdge(r)
			if r.Intn(2) == 0 {
				x = ecAny(r).x
			}
			odd := r.Intn(2)
			y := new(big.Int)
			if r.Intn(2) == 0 {
				y.SetInt64(int64(r.Intn(100)))
			}
			seth.CurvePoint(new(big.Int).Set(x), y, odd)
			w.h.Emit(M{"op": "lift", "x": ecNum(x), "odd": odd == 1, "y": ecNum(y), "w": ecNum(ecWitness(x))})
		}
	}
}

// a square root of -(x^3 + 7), if there is one
func ecWitness(x *big.Int) *big.Int {
	c := new(big.Int).Sub(ecP, ecRHS(x))
	s := new(big.Int).ModSqrt(c.Mod(c, ecP), ecP)
	if s == nil {
		return new(big.Int)
	}
	return s
}

func ecPub(k *seth.PublicKey) ecPoint {
	return ecPoint{new(big.Int).SetBytes(k[:32]), new(big.Int).SetBytes(k[32:])}
}

// told: the multiples that say whose signature (r, s, v) of hash e is, if it is one
func (w *ecWorld) told(rp ecPoint, s, e *big.Int) {
	w.chain(rp, false, s)
	w.chain(ecPoint{}, true, e)
}

func ecFill(dst []byte, v *big.Int) {
	b := v.Bytes()
	copy(dst[len(dst)-len(b):], b)
}

// recover asks for the key of a signature
func (w *ecWorld) recover(rn, s *big.Int, v int, hash *seth.Hash) {
	var sig seth.Signature
	ecFill(sig[:32], rn)
	ecFill(sig[32:64], s)
	sig[64] = byte(v)
	e := new(big.Int).SetBytes(hash[:])
	rp := ecPoint{}
	good := rn.Sign() > 0 && rn.Cmp(kOrder) < 0 && s.Sign() > 0 && s.Cmp(kHalf) <= 0 && v < 2
	if good {
		if y := ecY(rn, uint(v)); y != nil {
			rp = ecPoint{rn, y}
			w.told(rp, s, e)
		}
	}
	q, err := sig.Recover(hash)
	if err != nil {
		x, wit := new(big.Int), new(big.Int)
		if rn.Cmp(ecP) < 0 {
			x, wit = rn, ecWitness(rn)
		}
		w.h.Emit(M{"op": "refuse", "rn": ecNum(rn), "s": ecNum(s), "v": v, "e": ecNum(e), "x": ecNum(x), "rp": rp.enc(), "w": ecNum(wit)})
		return
	}
	qp := ecPub(q)
	if rp.x != nil {
		w.chain(qp, false, rn)
	}
	w.h.Emit(M{"op": "recover", "rn": ecNum(rn), "s": ecNum(s), "v": v, "e": ecNum(e), "rp": rp.enc(), "q": qp.enc()})
}

func (w *ecWorld) hash() *seth.Hash {
	h := new(seth.Hash)
	switch w.r.Intn(5) {
	case 0:
		h[31] = byte(w.r.Intn(3))
	case 1:
		ecFill(h[:], new(big.Int).Add(kOrder, big.NewInt(int64(w.r.Intn(3)-1))))
	case 2:
		for i := range h {
			h[i] = 0xff
		}
	default:
		w.r.Read(h[:])
	}
	return h
}

// signatures that are refused
func (w *ecWorld) bad() {
	r := w.r
	for i := 0; i < 12; i++ {
		rn, s, v, hash := ecAny(r).x, ecScalar(r), r.Intn(2), w.hash()
		rn = new(big.Int).Mod(rn, kOrder)
		s.Mod(s, kHalf)
		switch i % 6 {
		case 0:
			rn.SetInt64(0)
		case 1:
			rn.Add(kOrder, big.NewInt(int64(r.Intn(100))))
			if r.Intn(2) == 0 {
				rn.Sub(new(big.Int).Lsh(big1, 256), big.NewInt(int64(1+r.Intn(100))))
			}
		case 2:
			s.SetInt64(0)
		case 3:
			s.Add(kHalf, big.NewInt(int64(1+r.Intn(3))))
			if r.Intn(2) == 0 {
				s.Sub(new(big.Int).Lsh(big1, 256), big.NewInt(int64(1+r.Intn(100))))
			}
		case 4:
			v = 2 + r.Intn(254)
			if r.Intn(2) == 0 {
				v = 27 + r.Intn(2)
			}
		default: // no point there
			for rn.Cmp(kOrder) >= 0 || rn.Sign() == 0 || ecY(rn, 0) != nil {
				rn = ecEdge(r)
			}
			s.SetInt64(int64(1 + r.Intn(9)))
			hash = new(seth.Hash)
			hash[31] = byte(r.Intn(5))
		}
		w.recover(rn, s, v, hash)
	}
	// the point at infinity: s R = e G
	k, e := big.NewInt(int64(2+r.Intn(30))), big.NewInt(int64(1+r.Intn(200)))
	x, y := w.c.ScalarBaseMult(k.Bytes())
	if x.Cmp(kOrder) < 0 {
		s := new(big.Int).ModInverse(k, kOrder)
		s.Mul(s, e)
		s.Mod(s, kOrder)
		v := int(y.Bit(0))
		if s.Cmp(kHalf) > 0 {
			s.Sub(kOrder, s)
			v ^= 1
		}
		h := new(seth.Hash)
		ecFill(h[:], e)
		w.recover(x, s, v, h)
	}
}

// signatures
func (w *ecWorld) signatures() {
	r := w.r
	switch r.Intn(3) {
	case 0: // a key and what it signs
		var d *big.Int
		for d == nil || d.Sign() == 0 || d.Cmp(kOrder) >= 0 {
			d = ecScalar(r)
		}
		k := seth.NewPrivateKey(d)
		w.chain(ecPoint{}, true, d)
		q := ecPub(k.PublicKey())
		w.h.Emit(M{"op": "pubkey", "d": ecNum(d), "q": q.enc()})
		hash := w.hash()
		sig := k.Sign(hash)
		rn, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
		v := int(sig[64])
		e := new(big.Int).SetBytes(hash[:])
		rp := ecPoint{}
		if y := ecY(rn, uint(v&1)); y != nil {
			rp = ecPoint{rn, y}
			w.told(rp, s, e)
			w.chain(q, false, rn)
		}
		w.h.Emit(M{"op": "sign", "d": ecNum(d), "rn": ecNum(rn), "s": ecNum(s), "v": v, "e": ecNum(e), "rp": rp.enc()})
	case 1: // any signature
		p := ecAny(r)
		for p.x.Cmp(kOrder) >= 0 {
			p = ecAny(r)
		}
		s := big.NewInt(int64(1 + r.Intn(100)))
		hash := w.hash()
		switch r.Intn(3) {
		case 0:
			s.Sub(kHalf, big.NewInt(int64(r.Intn(3))))
			hash = new(seth.Hash)
			hash[31] = byte(r.Intn(9))
		case 1:
			hash = new(seth.Hash)
			hash[31] = byte(r.Intn(9))
		}
		w.recover(p.x, s, int(p.y.Bit(0)), hash)
	default:
		w.bad()
	}
}

// the multiples of the generator of which one byte is not zero
func (w *ecWorld) window(i int) {
	b := new(big.Int).Lsh(big1, uint(8*i))
	w.chain(ecPoint{}, true, b)
	for k := int64(2); k < 256; k++ {
		v := new(big.Int).Mul(b, big.NewInt(k))
		w.mult(ecPoint{}, true, v, new(big.Int).Sub(v, b), b)
	}
}

func driveCurve(t *Trace, a *Args) {
	hist := func(what string, fn func(w *ecWorld)) {
		h := new(Hist)
		h.Emit(M{"op": "reset", "what": what})
		w := &ecWorld{h: h, r: a.Rng, c: ec.S256(), known: map[string]map[string]bool{}, list: map[string][]*big.Int{}}
		h.guard("curve", func() { fn(w) })
		t.Append(h)
	}
	if a.Profile == "windows" {
		for i := a.Shard; i < 32; i += a.Shards {
			hist("window", func(w *ecWorld) { w.window(i) })
		}
		return
	}
	for i := 0; i < a.N; i++ {
		hist("points", func(w *ecWorld) { w.points(a.Steps * 4) })
		hist("base", func(w *ecWorld) { w.chains(ecPoint{}, true, a.Steps) })
		p := ecAny(a.Rng)
		if a.Rng.Intn(12) == 0 {
			p = ecPoint{}
		}
		hist("multiples", func(w *ecWorld) { w.chains(p, false, a.Steps) })
		hist("towards", func(w *ecWorld) {
			k := ecScalar(w.r)
			inv := new(big.Int).Mod(k, kOrder)
			if inv.Sign() == 0 {
				return
			}
			px, py := ecAny(w.r).args()
			w.chain(ecRet(w.c.ScalarMult(px, py, inv.ModInverse(inv, kOrder).Bytes())), false, k)
		})
		hist("signatures", func(w *ecWorld) { w.signatures() })
	}
}
