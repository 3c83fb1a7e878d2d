------------------------------- MODULE MCKeys -------------------------------
(* Two key files, and every file that can be put together from their parts and *)
(* from junk, opened with every passphrase.                                    *)
EXTENDS Keys, TLC, Json
CONSTANTS Emit
VARIABLES mix, pass, stage
Same2 == {TRUE, FALSE}
F(i, samekdf, samepass) == [kdf |-> IF i = 1 \/ samekdf THEN "scrypt" ELSE "pbkdf2", params |-> ("params" \o ToString(i)),
     cipher |-> "aes-128-ctr", iv |-> ("iv" \o ToString(i)), ct |-> ("ct" \o ToString(i)), mac |-> ("mac" \o ToString(i)), addr |-> ("addr" \o ToString(i))]
K(i) == ("key" \o ToString(i))
Junk(x) == x \o "3"
P(i, samepass) == IF samepass THEN "p1" ELSE IF i = 1 THEN "p1" ELSE "p2"
VARIABLES sk, sp
MInit == /\ sk \in BOOLEAN /\ sp \in BOOLEAN /\ sigs = {} /\ stage = "make"
         /\ files = <<F(1, sk, sp), F(2, sk, sp), F(1, sk, sp)>>
         /\ known = {[key |-> K(i), pub |-> ("pub" \o ToString(i)), addr |-> ("addr" \o ToString(i))] : i \in 1..2}
         /\ encs = {[dk |-> Derived(files[i], P(i, sp)), iv |-> files[i].iv, key |-> K(i), ct |-> files[i].ct] : i \in 1..2}
         /\ macs = {[dk |-> Derived(files[i], P(i, sp)), ct |-> files[i].ct, mac |-> files[i].mac] : i \in 1..2}
         /\ mix = << >> /\ pass = ""
Part(x, j) == IF j = 3 THEN Junk(x) ELSE files[j][x]
Mixed == /\ stage = "make" /\ stage' = "mixed"
         /\ \E a, b, c, d, e \in 1..3, g \in 0..3, q \in {"p1", "p2", "p3"}, ci \in {1, 3} :
              /\ mix' = <<a, b, c, d, e, g, ci>> /\ pass' = q
              /\ Change(3, [kdf |-> Part("kdf", a), params |-> Part("params", b), iv |-> Part("iv", c), ct |-> Part("ct", d),
                            mac |-> Part("mac", e), cipher |-> Part("cipher", ci), addr |-> IF g = 0 THEN "" ELSE Part("addr", g)])
         /\ UNCHANGED <<sk, sp>>
Done == /\ stage = "mixed" /\ stage' = "done" /\ UNCHANGED <<vars, mix, pass, sk, sp>>
        /\ IF Emit THEN PrintT(<<"SCRIPT", ToJson([samekdf |-> sk, samepass |-> sp, mix |-> mix, pass |-> pass])>>) ELSE TRUE
MNext == Mixed \/ Done
MSpec == MInit /\ [][MNext]_<<vars, mix, pass, stage, sk, sp>>
O == Opened(files[3], pass)
\* a file and its passphrase yield its key
Right == stage = "make" => \A i \in 1..2 : Opened(files[i], P(i, sp)) = {K(i)}
\* only a passphrase it was made with opens a file
Wrong == stage = "mixed" /\ O # {""} => \E i \in 1..2 : pass = P(i, sp) /\ files[3].ct = files[i].ct /\ files[3].mac = files[i].mac
                                                      /\ files[3].params = files[i].params
\* a file with an address yields its key or none
Named == stage = "mixed" /\ files[3].addr # "" => \A k \in O \ {""} : k # "other" /\ Addr(k) = files[3].addr
\* without it, only a changed iv goes unnoticed
Unnamed == stage = "mixed" /\ "other" \in O => \A i \in 1..2 : files[3].ct = files[i].ct => files[3].iv # files[i].iv
=============================================================================
