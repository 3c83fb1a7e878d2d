------------------------------- MODULE MCRlp -------------------------------
(* The laws of the serialization, with short headers up to Short only; and     *)
(* the combinations of boundary values of the fields, for the harness.         *)
EXTENDS Rlp, TLC, Json
CONSTANTS N, L, Emit
VARIABLES items, stage
Bytes == {0, 1, 127, 128, 255}
Grow == /\ stage = "list" /\ Len(items) > 0 /\ Len(items[Len(items)]) < L /\ \E b \in Bytes : items' = [items EXCEPT ![Len(items)] = Append(@, b)]
        /\ UNCHANGED <<tx, stage>>
More == stage = "list" /\ Len(items) < N /\ items' = Append(items, << >>) /\ UNCHANGED <<tx, stage>>

\* reading back: <<item, rest>>, or << >> if there is none
HeadLen(b, base) == IF b[1] <= base + Short THEN <<1, b[1] - base>>
                    ELSE LET k == b[1] - base - Short IN <<1 + k, ToNat(SubSeq(b, 2, 1 + k))>>
ReadStr(b) ==
  IF b[1] < 128 THEN <<<<b[1]>>, Tail(b)>>
  ELSE LET h == HeadLen(b, 128) IN <<SubSeq(b, h[1] + 1, h[1] + h[2]), SubSeq(b, h[1] + h[2] + 1, Len(b))>>
RECURSIVE ReadAll(_)
ReadAll(b) == IF b = << >> THEN << >> ELSE LET r == ReadStr(b) IN <<r[1]>> \o ReadAll(r[2])
ReadList(b) == LET h == HeadLen(b, 192) IN IF Len(b) = h[1] + h[2] THEN ReadAll(SubSeq(b, h[1] + 1, Len(b))) ELSE <<"bad">>

\* nothing is lost, so different lists have different forms
Readable == ReadList(Listed(items)) = items
\* the headers are as short as they can be
Minimal == \A i \in 1..Len(items) : LET x == items[i] s == Str(x) IN
             /\ (Len(x) = 1 /\ x[1] < 128 => Len(s) = 1)
             /\ (Len(x) <= Short => Len(s) <= Len(x) + 1)
             /\ Len(s) <= Len(x) + 1 + Len(FromNat(Len(x)))

\* classes of values, by field; the harness makes the bytes
Nums == {"0", "1", "127", "128", "255", "256", "full"}
Bigs == {"0", "127", "128", "1000", "half", "full"}
Tos == {"none", "zero", "some"}
Inputs == {"none", "b0", "b127", "b128", "n2", "n55", "n56", "n255", "n256"}
Fill1 == /\ stage = "list" /\ items = << >> /\ stage' = "tx" /\ UNCHANGED items
         /\ \E a \in Nums, b \in Bigs, c \in Nums, d \in Tos, e \in Bigs, f \in Inputs :
              tx' = [nonce |-> a, price |-> b, gas |-> c, to |-> d, value |-> e, input |-> f]
Done == stage = "tx" /\ stage' = "done" /\ UNCHANGED <<tx, items>> /\ IF Emit THEN PrintT(<<"SCRIPT", ToJson(tx)>>) ELSE TRUE
MInit == items = << >> /\ tx = Blank /\ stage = "list"
MNext == More \/ Grow \/ (Emit /\ (Fill1 \/ Done))
MSpec == MInit /\ [][MNext]_<<tx, items, stage>>
=============================================================================
