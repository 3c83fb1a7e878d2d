-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* C25: key files and signatures.                                          *)
(*                                                                         *)
(* Cryptography is symbolic: a key derived from a passphrase is the term   *)
(* <<kdf, params, pass>>; what a cipher or a MAC gives is an opaque string *)
(* which is known to come from its arguments because it was made from them *)
(* (encs, macs).  Keys, hashes and strings are opaque, too; that a private *)
(* key has a public one and an address is told by the environment (known). *)
(* Signatures are sequences of 65 bytes, for their form matters.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BigNum
CONSTANTS Order, HalfOrder  \* of the group, as BigNums
VARIABLES files,  \* records [kdf, params, cipher, iv, ct, mac, addr]
          encs,   \* [dk, iv, key, ct]
          macs,   \* [dk, ct, mac]
          known,  \* [key, pub, addr]
          sigs    \* [sig, hash, key]
vars == <<files, encs, macs, known, sigs>>

Pub(k) == (CHOOSE e \in known : e.key = k).pub
Addr(k) == (CHOOSE e \in known : e.key = k).addr
Known(k) == \E e \in known : e.key = k

----------------------------------------------------------------------------
(* key files *)
Derived(f, pass) == <<f.kdf, f.params, pass>>
Authentic(f, pass) == \E m \in macs : m.dk = Derived(f, pass) /\ m.ct = f.ct /\ m.mac = f.mac
Plain(f, pass) == {e \in encs : e.dk = Derived(f, pass) /\ e.ct = f.ct}
\* the keys that opening f with pass may yield; "" stands for an error
Opened(f, pass) ==
  IF ~Authentic(f, pass) \/ f.cipher # "aes-128-ctr" THEN {""}
  ELSE LET e == CHOOSE e \in Plain(f, pass) : TRUE IN
       IF e.iv = f.iv THEN IF f.addr \in {"", Addr(e.key)} THEN {e.key} ELSE {""}
       \* the MAC does not cover this; only the address does
       ELSE IF f.addr = "" THEN {"", "other"} ELSE {""}

Make(i, f, key, pass) ==
  /\ Known(key)
  /\ files' = [files EXCEPT ![i] = f]
  /\ encs' = encs \cup {[dk |-> Derived(f, pass), iv |-> f.iv, key |-> key, ct |-> f.ct]}
  /\ macs' = macs \cup {[dk |-> Derived(f, pass), ct |-> f.ct, mac |-> f.mac]}
  /\ UNCHANGED <<known, sigs>>
\* the code's own files: nothing is used twice, and nothing tells whose key it is
Export(i, f, key, pass, name, id, version) ==
  /\ f.addr = "" /\ version = 3 /\ id # "" /\ f.cipher = "aes-128-ctr"
  /\ \A e \in encs : e.iv # f.iv /\ e.dk[2] # f.params
  /\ Make(i, f, key, pass)
Change(i, f) == files' = [files EXCEPT ![i] = f] /\ UNCHANGED <<encs, macs, known, sigs>>
Open(i, pass, st, key) ==
  /\ LET o == Opened(files[i], pass) IN
       IF st = "err" THEN "" \in o
       ELSE key \in o \/ ("other" \in o /\ \A e \in Plain(files[i], pass) : e.key # key)
  /\ UNCHANGED vars

----------------------------------------------------------------------------
(* signatures *)
R(s) == Strip(SubSeq(s, 1, 32))
S(s) == Strip(SubSeq(s, 33, 64))
WellFormed(s) == /\ R(s) # << >> /\ Cmp(R(s), Order) < 0
                 /\ S(s) # << >> /\ Cmp(S(s), HalfOrder) <= 0
                 /\ s[65] \in {0, 1}
Meet(key, pub, addr) ==
  /\ Known(key) => Pub(key) = pub /\ Addr(key) = addr
  /\ \A e \in known : e.key # key => e.pub # pub /\ e.addr # addr
  /\ known' = known \cup {[key |-> key, pub |-> pub, addr |-> addr]}
  /\ UNCHANGED <<files, encs, macs, sigs>>
\* what the code says about a key is what is known of it
Tell(key, pub, addr) == Known(key) /\ pub = Pub(key) /\ addr = Addr(key) /\ UNCHANGED vars
\* ref is the public key that the signature stands for, by another implementation
Sign(key, hash, s, ref) ==
  /\ Known(key) /\ WellFormed(s) /\ ref = Pub(key)
  \* a nonce is never used for another message or key: two such signatures give the keys away
  /\ \A t \in sigs : (t.key # key \/ t.hash # hash) => R(t.sig) # R(s)
  /\ sigs' = sigs \cup {[sig |-> s, hash |-> hash, key |-> key]}
  /\ UNCHANGED <<files, encs, macs, known>>
Recover(s, hash, st, pub, ref) ==
  /\ IF ~WellFormed(s) \/ ref = "" THEN st = "err" ELSE st = "ok" /\ pub = ref
  /\ \A t \in sigs : /\ t.sig = s /\ t.hash = hash => st = "ok" /\ pub = Pub(t.key)
                     /\ t.sig = s /\ t.hash # hash => pub # Pub(t.key)
                     /\ t.sig # s /\ t.hash = hash /\ R(t.sig) = R(s) => pub # Pub(t.key)
  /\ UNCHANGED vars
\* r, s and v as numbers: the smaller one of s and -s is used
Compose(r, s, v, out) ==
  /\ Strip(SubSeq(out, 1, 32)) = r
  /\ IF Cmp(s, HalfOrder) > 0 THEN S(out) = Sub(Order, s) /\ out[65] = 1 - v ELSE S(out) = s /\ out[65] = v
  /\ Len(out) = 65 /\ UNCHANGED vars
Decompose(z, r, s, v) == R(z) = r /\ S(z) = s /\ z[65] = v /\ UNCHANGED vars
\* a signature off the curve is in range all the same
Judge(s, ok) == (ok <=> WellFormed(s)) /\ UNCHANGED vars
=============================================================================
