#!/usr/bin/env python3
"""writes the configurations of MCChain and GenChain, one per property"""
import os
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
S = lambda *x: "{" + ", ".join('"%s"' % y for y in x) + "}"
N = lambda *x: "{" + ", ".join(str(y) for y in x) + "}"
BASE = dict(Accts=S("A", "B"), Targets=S("A/0", "X"), Amounts=N(0, 1, 9), MaxChains=1, MaxSeals=2, Progs=S("w1"), Fork="FALSE")
INV = "RemoteFixed TypeOK LedgerInv FilterExact"
PROP = "Isolated SealedFixed ReadOnly FailedAtomic Restored OneAccount"
M = {
 # name: (model, quick depth, thorough depth, generator: op kinds, BFS depth quick, thorough, overrides for the generator)
 "State": (dict(Acts=S("s.snap", "s.revert", "s.create", "s.suicide", "s.addbal", "s.setnonce", "s.setcode", "s.setst", "s.addrefund", "s.log")), 6, 7, {}, 3, 4),
 "Exec": (dict(Acts=S("call", "create", "createat", "mine"), Targets=S("A/0", "X", "B"), Amounts=N(0, 1, 9),
               Progs=S("w1", "wr", "wi", "log1", "sub", "subi", "subok", "deep", "dele", "stat", "make", "maker", "makesub", "die", "dier")), 3, 4, {}, 2, 3),
 "Ether": (dict(Acts=S("addbal", "subbal", "call", "send", "create", "mine"), Targets=S("A/0", "X", "B"),
                Progs=S("none", "sub", "subok", "deep", "make", "maker", "makesub", "die", "dier")), 3, 4, dict(Progs=S("none", "sub", "subok", "deep", "maker", "makesub", "die", "dier", "dieself")), 2, 3),
 "Read": (dict(Acts=S("createat", "mine", "seal", "static", "rcall", "rest", "rbal"), Progs=S("w1", "log1", "make", "sub", "ret1", "stat", "die")), 3, 4, dict(Progs=S("w1", "make", "sub", "ret1", "stat")), 2, 3),
 "History": (dict(Acts=S("addbal", "call", "mine", "seal", "rcall", "rbal", "view"), Targets=S("A/0"), Amounts=N(1), MaxChains=3,
                  Progs=S("w1", "w2", "log1", "ret1")), 5, 6, dict(Acts=S("addbal", "call", "mine", "seal", "view"), Accts=S("A"), Progs=S("w1", "w2")), 4, 5),
 "Ledger": (dict(Acts=S("mine", "rsend", "seal"), Targets=S("A/0"), Amounts=N(0, 9), Progs=S("log2", "logr", "sub")), 6, 7, {}, 4, 5),
 "Filter": (dict(Acts=S("call", "mine", "seal", "newf", "poll", "unf"), Targets=S("A/0"), Amounts=N(0), Progs=S("log1", "log2", "logr")), 4, 5, dict(Progs=S("log1", "log2")), 3, 4),
 "Fork": (dict(Acts=S("send", "mine", "createat", "s.snap", "s.revert", "s.addbal", "s.setnonce", "s.setcode", "s.setst"), Fork="TRUE",
               Targets=S("A/0", "X"), Accts=S("A", "X", "C"), Amounts=N(0, 1), Progs=S("w1", "ret1", "deep", "dele", "die")), 3, 4,
          dict(Accts=S("X", "C"), Progs=S("w1", "dele", "die")), 2, 3),
 "Copy": (dict(Acts=S("addbal", "call", "mine", "seal", "copy", "s.snap", "s.revert"), Targets=S("A/0"), Amounts=N(1), MaxChains=3,
               Accts=S("A"), Progs=S("w1", "log1")), 5, 6, {}, 4, 5),
 "Json": (dict(Acts=S("addbal", "mine", "seal", "save", "load", "s.setst"), Targets=S("A/0"), Amounts=N(1), MaxChains=2,
               Accts=S("A"), Progs=S("w1", "log1")), 5, 6, {}, 4, 5),
}
for name, (c, dq, dt, g, gq, gt) in M.items():
    for suffix, d in (("", dq), ("T", dt)):
        k = dict(BASE, **c)
        k["Depth"] = d
        with open("%s/MC%s%s.cfg" % (SPEC, name, suffix), "w") as f:
            f.write("SPECIFICATION MSpec\nCONSTANTS\n" + "".join("  %s = %s\n" % x for x in k.items()) +
                    "VIEW View\nCONSTRAINT Bound\nINVARIANTS %s\nPROPERTIES %s\nCHECK_DEADLOCK FALSE\n" % (INV + (" EtherKept" if name not in ("State", "Copy", "Json", "History", "Fork") else ""), PROP))
    for suffix, d in (("BFS", gq), ("BFST", gt), ("Sim", 14)):
        k = dict(BASE, **c)
        if suffix != "Sim":
            k.update(g)
        else:
            k.update(MaxSeals=6)
            if k["MaxChains"] > 1:
                k["MaxChains"] = 5
        k["Depth"] = d
        with open("%s/Gen%s%s.cfg" % (SPEC, name, suffix), "w") as f:
            f.write("SPECIFICATION GSpec\nCONSTANTS\n" + "".join("  %s = %s\n" % x for x in k.items()) + "CHECK_DEADLOCK FALSE\n")
