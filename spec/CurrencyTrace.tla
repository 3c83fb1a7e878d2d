--------------------------- MODULE CurrencyTrace ---------------------------
EXTENDS Currency, TraceLib
VARIABLE l
Table == JsonDeserialize("currencies.json")
Ev == Events[l]
Many == [i \in 1..4 |-> << >>]
Step ==
  CASE Ev.op = "reset" -> amt' = [i \in 1..4 |-> <<None>>] /\ rate' = Many /\ pair' = Many
    [] Ev.op = "setA" -> SetA(Ev.i, Ev.v)
    [] Ev.op = "setR" -> SetR(Ev.i, Ev.v)
    [] Ev.op = "setP" -> SetP(Ev.i, Ev.v)
    [] Ev.op = "print" -> PrintA(Ev.i, Ev.out)
    [] Ev.op = "readnum" -> ReadNum(Ev.i, Ev.c, Ev.x, Ev.st, Ev.v)
    [] Ev.op = "readamt" -> ReadAmt(Ev.i, Ev.x, Ev.st, Ev.v)
    [] Ev.op \in {"add", "sub"} -> Arith(Ev.op, Ev.i, Ev.j, Ev.st, Ev.v)
    [] Ev.op = "neg" -> Negate(Ev.i, Ev.v)
    [] Ev.op = "cmp" -> Compare(Ev.i, Ev.j, Ev.st, Ev.n)
    [] Ev.op = "sign" -> SignOf(Ev.i, Ev.n)
    [] Ev.op = "copy" -> CopyTo(Ev.i, Ev.j, Ev.v)
    [] Ev.op = "convert" -> ConvertTo(Ev.i, Ev.j, Ev.c, Ev.k, Ev.v)
    [] Ev.op = "look" -> LookA(Ev.i, Ev.v)
    [] Ev.op = "printR" -> PrintR(Ev.i, Ev.out)
    [] Ev.op = "readR" -> ReadR(Ev.i, Ev.x, Ev.st, Ev.v)
    [] Ev.op = "invertR" -> InvertR(Ev.i, Ev.j, Ev.v)
    [] Ev.op = "signR" -> SignR(Ev.i, Ev.n)
    [] Ev.op = "float" -> FloatR(Ev.i, Ev.num, Ev.exp, Ev.v)
    [] Ev.op = "lookR" -> LookR(Ev.i, Ev.v)
    [] Ev.op = "printP" -> PrintP(Ev.i, Ev.out)
    [] Ev.op = "readP" -> ReadP(Ev.i, Ev.x, Ev.st, Ev.v)
    [] Ev.op = "invertP" -> InvertP(Ev.i, Ev.j, Ev.v)
    [] Ev.op = "convertP" -> ConvertP(Ev.k, Ev.i, Ev.j, Ev.st, Ev.inv, Ev.v)
    [] Ev.op = "lookP" -> LookP(Ev.i, Ev.v)
    [] Ev.op = "byname" -> ByName(Ev.x, Ev.c)
    [] Ev.op = "byaddr" -> ByAddr(Ev.x, Ev.c)
    [] Ev.op = "facts" -> Facts(Ev.c, Ev.d)
    [] OTHER -> FALSE
TInit == amt = << >> /\ rate = << >> /\ pair = << >> /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<amt, rate, pair, l>>
=============================================================================
