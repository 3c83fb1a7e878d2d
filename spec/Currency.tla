------------------------------ MODULE Currency ------------------------------
(***************************************************************************)
(* C21: amounts of currencies, conversion rates and pairs of currencies,   *)
(* held in variables.                                                      *)
(*                                                                         *)
(* Texts are sequences of character codes.  A signed integer is [neg, b]   *)
(* with b a BigNum, zero not negative.  Curs is the table of currencies:   *)
(* a sequence of [name, digits, addr]; a currency is an index into it, 0   *)
(* is none.  An amount is [cur, neg, b]: that many of the smallest units.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, BigNum
CONSTANTS Curs, RateDigits
VARIABLES amt, rate, pair  \* sequences of << value >>, or << >> if not known

----------------------------------------------------------------------------
(* signed integers *)
Z(n, b) == [neg |-> n /\ b # << >>, b |-> b]
Zero == Z(FALSE, << >>)
ZNeg(x) == Z(~x.neg, x.b)
ZAdd(x, y) == IF x.neg = y.neg THEN Z(x.neg, Add(x.b, y.b))
              ELSE IF Cmp(x.b, y.b) >= 0 THEN Z(x.neg, Sub(x.b, y.b)) ELSE Z(y.neg, Sub(y.b, x.b))
ZCmp(x, y) == LET d == ZAdd(x, ZNeg(y)) IN IF d = Zero THEN 0 ELSE IF d.neg THEN -1 ELSE 1
ZSign(x) == ZCmp(x, Zero)
Mul(a, b) == FoldLeft(LAMBDA acc, x : Add(IF acc = << >> THEN acc ELSE Append(acc, 0), MulSmall(a, x)), << >>, b)
ZMul(x, y) == Z(x.neg # y.neg, Mul(x.b, y.b))
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN <<1>> ELSE MulSmall(Ten(n - 1), 10)
\* division by 10^n: << quotient, exact >>
RECURSIVE Cut(_, _)
Cut(b, n) == IF n = 0 THEN <<b, TRUE>> ELSE LET q == DivSmall(b, 10) r == Cut(q[1], n - 1) IN <<r[1], r[2] /\ q[2] = 0>>
\* towards minus infinity
Floor10(x, n) == LET q == Cut(x.b, n) IN Z(x.neg, IF x.neg /\ ~q[2] THEN AddSmall(q[1], 1) ELSE q[1])
Shift10(x, n) == IF n >= 0 THEN Z(x.neg, Mul(x.b, Ten(n))) ELSE Floor10(x, -n)

----------------------------------------------------------------------------
(* decimal texts *)
Dot == 46
Minus == 45
Space == 32
IsDec(c) == c \in 48..57
All(P(_), x) == \A i \in 1..Len(x) : P(x[i])
Rest(x, n) == SubSeq(x, n + 1, Len(x))
Natural(x) == FoldLeft(LAMBDA a, c : AddSmall(MulSmall(a, 10), c - 48), << >>, x)
RECURSIVE Decimal(_)
Decimal(b) == IF b = << >> THEN << >> ELSE LET q == DivSmall(b, 10) IN Append(Decimal(q[1]), 48 + q[2])
Find(x, c) == LET is == {i \in 1..Len(x) : x[i] = c} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

\* always with all digits
Fixed(x, d) ==
  LET s == Decimal(x.b)
      p == IF Len(s) < d + 1 THEN [i \in 1..(d + 1 - Len(s)) |-> 48] \o s ELSE s
      k == Len(p) - d
  IN (IF x.neg THEN <<Minus>> ELSE << >>) \o (IF d = 0 THEN p ELSE SubSeq(p, 1, k) \o <<Dot>> \o Rest(p, k))

Bad == [ok |-> FALSE, v |-> Zero]
ParseFixed(x, d) ==
  LET neg == x # << >> /\ x[1] = Minus
      u == IF neg THEN Tail(x) ELSE x
      k == Find(u, Dot)
      ip == IF k = 0 THEN u ELSE SubSeq(u, 1, k - 1)
      fp == IF k = 0 THEN << >> ELSE Rest(u, k)
  IN IF (ip = << >> /\ fp = << >>) \/ ~All(IsDec, ip) \/ ~All(IsDec, fp) \/ Len(fp) > d THEN Bad
     ELSE [ok |-> TRUE, v |-> Z(neg, Natural(ip \o fp \o [i \in 1..(d - Len(fp)) |-> 48]))]

Digits(c) == Curs[c].digits
Names == [n \in {Curs[c].name : c \in 1..Len(Curs)} |-> CHOOSE c \in 1..Len(Curs) : Curs[c].name = n]
Named(n) == IF n \in DOMAIN Names THEN Names[n] ELSE 0
At(a) == LET s == {c \in 1..Len(Curs) : Curs[c].addr = a} IN IF a = "" \/ s = {} THEN 0 ELSE CHOOSE c \in s : TRUE

A(c, v) == [cur |-> c, neg |-> v.neg, b |-> v.b]
V(a) == Z(a.neg, a.b)
None == A(0, Zero)  \* an uninitialized amount
AmountText(a) == Fixed(V(a), Digits(a.cur)) \o <<Space>> \o Curs[a.cur].name

NumChar(c) == IsDec(c) \/ c \in {Dot, Minus, 43}
Past(P(_), x) == LET is == {i \in 1..Len(x) : ~P(x[i])} IN IF is = {} THEN Len(x) ELSE (CHOOSE i \in is : \A j \in is : i <= j) - 1
IsSpace(c) == c = Space
NoSpace(c) == c # Space
\* a number and the name of a currency; must: whether it has to be accepted
ParseAmount(x) ==
  LET s0 == Past(IsSpace, x)
      x1 == Rest(x, s0)
      n == Past(NumChar, x1)
      x2 == Rest(x1, n)
      s1 == Past(IsSpace, x2)
      x3 == Rest(x2, s1)
      m == Past(NoSpace, x3)
      end == Rest(x3, m)
      c == Named(SubSeq(x3, 1, m))
      p == IF c = 0 THEN Bad ELSE ParseFixed(SubSeq(x1, 1, n), Digits(c))
  IN [may |-> p.ok /\ All(IsSpace, end), must |-> s0 = 0 /\ s1 = 1 /\ end = << >>, v |-> IF p.ok THEN A(c, p.v) ELSE None]

Slash == 47
PairText(p) == Fixed(p.rate, RateDigits) \o <<Space>> \o Curs[p.to].name \o <<Slash>> \o Curs[p.from].name
NoPair == [from |-> 0, to |-> 0, rate |-> Zero]
ParsePair(x) ==
  LET i == Find(x, Space)
      j == Find(x, Slash)
  IN IF i = 0 \/ j = 0 \/ j < i THEN [ok |-> FALSE, v |-> NoPair]
     ELSE LET r == ParseFixed(SubSeq(x, 1, i - 1), RateDigits)
              to == Named(SubSeq(x, i + 1, j - 1))
              from == Named(Rest(x, j))
          IN IF ~r.ok \/ to = 0 \/ from = 0 THEN [ok |-> FALSE, v |-> NoPair]
             ELSE [ok |-> TRUE, v |-> [from |-> from, to |-> to, rate |-> r.v]]

----------------------------------------------------------------------------
(* conversion *)
Converted(a, to, r) == A(to, Shift10(ZMul(V(a), r), Digits(to) - Digits(a.cur) - RateDigits))
\* q is the inverse of r, cut to the digits of a rate
InverseOf(r, q) ==
  IF r = Zero THEN q = Zero
  ELSE /\ (q.neg = (r.neg /\ q.b # << >>))
       /\ LET one == Ten(2 * RateDigits) IN Cmp(Mul(q.b, r.b), one) <= 0 /\ Cmp(Mul(AddSmall(q.b, 1), r.b), one) > 0

----------------------------------------------------------------------------
(* what can happen.  v is always what the variable is seen to hold afterwards *)
Vars == <<amt, rate, pair>>
Same == UNCHANGED Vars
HasA(i) == amt[i] # << >>
Put(i, v) == amt' = [amt EXCEPT ![i] = <<v>>] /\ UNCHANGED <<rate, pair>>
Lose(i) == amt' = [amt EXCEPT ![i] = << >>] /\ UNCHANGED <<rate, pair>>
PutR(i, v) == rate' = [rate EXCEPT ![i] = <<v>>] /\ UNCHANGED <<amt, pair>>
LoseR(i) == rate' = [rate EXCEPT ![i] = << >>] /\ UNCHANGED <<amt, pair>>
PutP(i, v) == pair' = [pair EXCEPT ![i] = <<v>>] /\ UNCHANGED <<amt, rate>>
LoseP(i) == pair' = [pair EXCEPT ![i] = << >>] /\ UNCHANGED <<amt, rate>>

SetA(i, v) == Put(i, v)
SetR(i, v) == PutR(i, v)
SetP(i, v) == PutP(i, v)
PrintA(i, out) == HasA(i) /\ amt[i][1].cur > 0 /\ out = AmountText(amt[i][1]) /\ Same
ReadNum(i, c, x, st, v) ==   \* as an amount of currency c
  LET p == ParseFixed(x, Digits(c)) IN
  IF p.ok THEN st = "ok" /\ v = A(c, p.v) /\ Put(i, v) ELSE st = "err" /\ Lose(i)
ReadAmt(i, x, st, v) ==
  LET p == ParseAmount(x) IN
  IF st = "ok" THEN p.may /\ v = p.v /\ Put(i, v) ELSE st = "err" /\ ~(p.may /\ p.must) /\ Lose(i)
\* arithmetic on i, in place; amounts of different currencies do not mix
Arith(op, i, j, st, v) ==
  LET a == amt[i][1]
      x == amt[j][1]
      y == IF op = "sub" THEN ZNeg(V(x)) ELSE V(x)
  IN /\ HasA(i) /\ HasA(j)
     /\ IF a = None THEN st = "ok" /\ v = A(x.cur, y) /\ Put(i, v)
        ELSE IF a.cur # x.cur THEN st = "panic" /\ Same
        ELSE st = "ok" /\ v = A(a.cur, ZAdd(V(a), y)) /\ Put(i, v)
Negate(i, v) == HasA(i) /\ v = A(amt[i][1].cur, ZNeg(V(amt[i][1]))) /\ Put(i, v)
Compare(i, j, st, n) == /\ HasA(i) /\ HasA(j)
                        /\ IF amt[i][1].cur # amt[j][1].cur THEN st = "panic" ELSE st = "ok" /\ n = ZCmp(V(amt[i][1]), V(amt[j][1]))
                        /\ Same
SignOf(i, n) == HasA(i) /\ n = ZSign(V(amt[i][1])) /\ Same
CopyTo(i, j, v) == HasA(i) /\ v = amt[i][1] /\ Put(j, v)
ConvertTo(i, j, to, k, v) == HasA(i) /\ rate[k] # << >> /\ v = Converted(amt[i][1], to, rate[k][1]) /\ Put(j, v)
LookA(i, v) == HasA(i) /\ v = amt[i][1] /\ Same

PrintR(k, out) == rate[k] # << >> /\ out = Fixed(rate[k][1], RateDigits) /\ Same
ReadR(k, x, st, v) ==
  LET p == ParseFixed(x, RateDigits) IN
  IF p.ok THEN st = "ok" /\ v = p.v /\ PutR(k, v) ELSE st = "err" /\ LoseR(k)
InvertR(k, m, v) == rate[k] # << >> /\ InverseOf(rate[k][1], v) /\ PutR(m, v)
SignR(k, n) == rate[k] # << >> /\ n = ZSign(rate[k][1]) /\ Same
\* num / 2^exp has an exact form
FloatR(k, num, exp, v) == v = Z(num.neg, Mul(num.b, FoldLeft(LAMBDA a, i : DivSmall(a, 2)[1], Ten(RateDigits), [i \in 1..exp |-> i]))) /\ PutR(k, v)
LookR(k, v) == rate[k] # << >> /\ v = rate[k][1] /\ Same

PrintP(k, out) == pair[k] # << >> /\ out = PairText(pair[k][1]) /\ Same
ReadP(k, x, st, v) ==
  LET p == ParsePair(x) IN IF p.ok THEN st = "ok" /\ v = p.v /\ PutP(k, v) ELSE st = "err" /\ LoseP(k)
InvertP(k, m, v) == pair[k] # << >> /\ v.from = pair[k][1].to /\ v.to = pair[k][1].from /\ InverseOf(pair[k][1].rate, v.rate) /\ PutP(m, v)
\* inv is the inverse of the rate, used for the other direction
ConvertP(k, i, j, st, inv, v) ==
  /\ HasA(i) /\ pair[k] # << >>
  /\ LET p == pair[k][1]
         a == amt[i][1]
     IN IF a.cur = p.from THEN st = "ok" /\ v = Converted(a, p.to, p.rate) /\ Put(j, v)
        ELSE IF a.cur = p.to THEN st = "ok" /\ InverseOf(p.rate, inv) /\ v = Converted(a, p.from, inv) /\ Put(j, v)
        ELSE st = "panic" /\ Same
LookP(k, v) == pair[k] # << >> /\ v = pair[k][1] /\ Same

ByName(x, c) == c = Named(x) /\ Same
ByAddr(x, c) == c = At(x) /\ Same
Facts(c, d) == d = Curs[c] /\ Same
=============================================================================
