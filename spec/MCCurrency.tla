----------------------------- MODULE MCCurrency -----------------------------
(* The laws of the texts and of the arithmetic, for all short texts and small  *)
(* numbers; the texts are also printed, for the harness.                       *)
EXTENDS Currency, TLC, Json
CONSTANTS N, M, Emit
VARIABLES x, n, stage
Table == << [name |-> <<65>>, digits |-> 0, addr |-> ""], [name |-> <<66, 49>>, digits |-> 1, addr |-> "a"], [name |-> <<67>>, digits |-> 3, addr |-> "b"] >>
Alphabet == {48, 49, 57, 46, 45, 43, 32, 65, 66, 101, 95}
MInit == amt = << >> /\ rate = << >> /\ pair = << >> /\ x = << >> /\ n = 0 /\ stage = "text"
More == stage = "text" /\ Len(x) < N /\ \E c \in Alphabet : x' = Append(x, c) /\ UNCHANGED <<Vars, n, stage>>
Done == /\ stage = "text" /\ stage' = "done" /\ UNCHANGED <<Vars, x, n>> /\ IF Emit THEN PrintT(<<"SCRIPT", ToJson(x)>>) ELSE TRUE
Pick == stage = "text" /\ x = << >> /\ ~Emit /\ stage' = "value" /\ n' \in -M..M /\ UNCHANGED <<Vars, x>>
MNext == More \/ Done \/ Pick
MSpec == MInit /\ [][MNext]_<<Vars, x, n, stage>>
Zof(k) == IF k < 0 THEN Z(TRUE, FromNat(-k)) ELSE Z(FALSE, FromNat(k))
IntOf(z) == IF z.neg THEN -ToNat(z.b) ELSE ToNat(z.b)
Ds == {0, 1, 2, 3}
\* printing and parsing are inverse
Inverse1 == stage = "value" => \A d \in Ds : ParseFixed(Fixed(Zof(n), d), d) = [ok |-> TRUE, v |-> Zof(n)]
Inverse2 == stage = "value" => \A c \in 1..3 : LET a == A(c, Zof(n)) p == ParseAmount(AmountText(a)) IN p.may /\ p.must /\ p.v = a
Inverse3 == stage = "value" => \A c, e \in 1..3 : LET p == [from |-> c, to |-> e, rate |-> Zof(n)] IN ParsePair(PairText(p)) = [ok |-> TRUE, v |-> p]
\* what is accepted says the number, in decimal: d digits more multiply by ten
Scale == stage = "done" => \A d \in Ds : LET p == ParseFixed(x, d) q == ParseFixed(x, d + 1) IN
           p.ok => q.ok /\ q.v = Z(p.v.neg, MulSmall(p.v.b, 10))
Again == stage = "done" => \A d \in Ds : LET p == ParseFixed(x, d) IN p.ok => ParseFixed(Fixed(p.v, d), d) = p
NoJunk == stage = "done" /\ (\E i \in 1..Len(x) : x[i] \notin {46, 45} \cup 48..57) => \A d \in Ds : ~ParseFixed(x, d).ok
Must == stage = "done" => LET p == ParseAmount(x) IN (p.may /\ Len(x) >= 3 => p.v.cur > 0)
\* arithmetic against TLC's
Arithmetic == stage = "value" => \A k \in -M..M : /\ IntOf(ZAdd(Zof(n), Zof(k))) = n + k
                                                 /\ IntOf(ZMul(Zof(n), Zof(k))) = n * k
                                                 /\ ZCmp(Zof(n), Zof(k)) = (IF n < k THEN -1 ELSE IF n > k THEN 1 ELSE 0)
                                                 /\ ZNeg(Zof(n)) = Zof(-n)
Floors == stage = "value" => \A d \in 0..2 : IntOf(Floor10(Zof(n), d)) = n \div (10 ^ d)
\* at the rate of one nothing is lost on the way to more digits
There == stage = "value" => \A c, e \in 1..3 : LET a == A(c, Zof(n)) one == Z(FALSE, Ten(RateDigits)) IN
           Digits(c) <= Digits(e) => Converted(Converted(a, e, one), c, one) = a
\* there is one inverse
Unique == stage = "value" => LET s == {q \in -120..120 : InverseOf(Zof(n), Zof(q))} IN s # {} /\ \A q, r \in s : q = r
=============================================================================
