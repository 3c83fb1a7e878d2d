"""One function per property: which models are checked, what the real code is made to do, and
which specification judges the recorded traces."""
import json, os
from vlib import CheckError, ROOT, REPO, HARNESS, goenv


def write_scripts(c, name, scripts):
    p = os.path.join(c.out, name)
    with open(p, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    return p


def C01(c):
    c.mc("MCVersionedMap", require=["DoInsert", "DoDelete", "DoSnapshot", "DoRollback", "DoCopy"])
    sc = c.gen("GenVersionedMap", c.q("GenTreeBFS", "GenTreeBFS6"), 0, 0, simulate=False, timeout=1500)
    sc += c.gen("GenVersionedMap", "GenTreeSim", c.q(1500, 20000), 42)
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["tree", "-scripts", p, "-n", str(c.q(900, 12000)), "-steps", str(c.q(60, 120))], shards=8)
    c.validate(fs, "TreeTrace")


def chain(c, model, profile, n, steps, sim, require, race=False):
    """a property of tevm.Chain: the model family MCChain, generated scripts and random histories,
    judged by ChainTrace"""
    t = "T" if c.thorough else ""
    c.mc("MCChain", "MC" + model + t, timeout=3000)
    sc = c.gen("GenChain", "Gen%sBFS%s" % (model, t), 0, 0, simulate=False, timeout=3000, workers=6)
    sc += c.gen("GenChain", "Gen%sSim" % model, sim, 16)
    # the scripts come from the very actions that were model-checked: none of them may be dead
    dead = set(require.split()) - {o["op"] for x in sc for o in x}
    if dead:
        raise CheckError("vacuous model MC%s: never taken: %s" % (model, dead))
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["chain", "-profile", profile, "-scripts", p, "-n", str(n), "-steps", str(steps)], shards=8, timeout=1500)
    c.validate(fs, "ChainTrace", timeout=3000, heap="3g")


def C02(c):
    chain(c, "State", "statedb", c.q(1500, 20000), c.q(60, 100), c.q(300, 3000), "s.snap s.revert s.create s.suicide s.addbal s.setnonce s.setcode s.setst s.addrefund s.log")


def C03(c):
    chain(c, "Exec", "exec", c.q(1000, 12000), c.q(30, 60), c.q(200, 3000), "call create createat mine")


def C04(c):
    chain(c, "Ether", "ether", c.q(1000, 12000), c.q(30, 60), c.q(300, 3000), "addbal subbal call send create mine")


def C05(c):
    chain(c, "Read", "readonly", c.q(800, 10000), c.q(30, 50), c.q(200, 3000), "createat mine seal static rcall rest rbal")


def C06(c):
    chain(c, "History", "history", c.q(800, 10000), c.q(40, 60), c.q(300, 3000), "addbal call mine seal view rcall rbal")
    # the parts of the state that no transaction shows
    fs = c.drive(["chain", "-profile", "hstate", "-n", str(c.q(300, 4000)), "-steps", str(c.q(40, 60))], shards=6, name="h", timeout=1500)
    c.validate(fs, "ChainTrace", timeout=3000, heap="3g")


def C07(c):
    chain(c, "Ledger", "ledger", c.q(800, 10000), c.q(40, 60), c.q(300, 3000), "mine rsend seal")


def C08(c):
    chain(c, "Filter", "filters", c.q(1500, 15000), c.q(40, 80), c.q(300, 3000), "call mine seal newf poll unf")


def C09(c):
    # a fork is a chain with something below it; the random histories start from random remote chains
    chain(c, "Fork", "fork", c.q(1000, 12000), c.q(40, 80), c.q(300, 3000),
          "send mine createat s.snap s.revert s.addbal s.setnonce s.setcode s.setst")


def C10(c):
    chain(c, "Copy", "copies", c.q(800, 10000), c.q(40, 80), c.q(300, 3000), "addbal call mine seal copy s.snap s.revert")


def C11(c):
    chain(c, "Json", "json", c.q(800, 10000), c.q(40, 80), c.q(300, 3000), "addbal mine seal save load s.setst")


def rpc(c, faults):
    c.mc("RpcImpl", c.q("MCRpc", "MCRpcT"), timeout=2500,
         require="AStart DDialFail DDial DEncode DCut DEnd DResp DBreak DLookup DDeliver DReadErr".split())
    sc = c.gen("GenRpc", c.q("GenRpcBFS", "GenRpcBFST"), 0, 0, simulate=False)
    sc += c.gen("GenRpc", "GenRpcSim", c.q(150, 3000), 26)
    isfault = lambda s: any(o["op"] in ("brk", "cut", "dialfail") for o in s)
    sc = [s for s in sc if isfault(s) == faults] + [s for s in sc if isfault(s) != faults][:: c.q(8, 3)]
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["rpc", "-profile", "faults" if faults else "calm", "-scripts", p,
                  "-n", str(c.q(250, 5000)), "-steps", str(c.q(40, 80))], race=True, shards=6, timeout=2000)
    c.validate(fs, "RpcTrace")


def C12(c):
    rpc(c, False)


def C13(c):
    rpc(c, True)


def C14(c):
    c.mc("MCFilterClient", require="GFetch SAnswer SFail GSend GTick GExit GSetErr CRecv CEnd Close1 Close3 Close4".split())
    sc = c.gen("GenFilterClient", c.q("GenFilterClientQ", "GenFilterClientT"), 0, 0, simulate=False)
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["filterclient", "-scripts", p, "-n", str(c.q(500, 6000)), "-steps", str(c.q(5, 12))], shards=4, timeout=1500)
    c.validate(fs, "FilterClientTrace")


def C15(c):
    c.mc("MCBlockIter", require="GTop GAsk SBlock SFail GSend GClose URecv UEnd UStop".split())
    sc = c.gen("GenBlockIter", c.q("GenBlockIterQ", "GenBlockIterT"), 0, 0, simulate=False)
    sc = sc[:: max(1, len(sc) // 8000)]
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["blockiter", "-scripts", p, "-n", str(c.q(250, 2500)), "-steps", str(c.q(5, 12))], shards=4, timeout=1500)
    c.validate(fs, "BlockIterTrace")


def sender(c, gen, profile):
    c.mc("MCSender", require="DBegin DReq DPrompt DOk DBad DEnd".split())
    sc = c.gen("MCSender", gen + c.q("", "T"), 0, 0, simulate=False)
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["sender", "-profile", profile, "-scripts", p, "-n", str(c.q(4000, 100000))], shards=7, timeout=2000)
    c.validate(fs, "SenderTrace")


def C16(c):
    sender(c, "GenSenderCalls", "calls")


def C17(c):
    sender(c, "GenSenderWaits", "waits")


def C24(c):
    c.mc("MCEth", "MCEth", took="PickKeys RunKeys Done".split())
    c.mc("MCEth", "MCEthArgs", took="PickArgs RunArgs".split())
    exe = c.build_repo("./cmd/eth", "eth")
    sc = list({json.dumps(x, sort_keys=True): x for x in c.gen("MCEth", "GenEth", 0, 0, simulate=False)}.values())
    p = write_scripts(c, "scripts", sc[c.seed % c.q(80, 4)::c.q(80, 4)])
    fs = c.drive(["eth", "-bin", exe, "-scripts", p, "-n", str(c.q(240, 6000)), "-steps", "16"], shards=6, timeout=2400)
    fs += c.drive(["eth", "-bin", exe, "-profile", "keygen", "-n", str(c.q(2, 30))], shards=3, timeout=1200, name="keygen")
    c.validate(fs, "EthTrace")


def C29(c):
    c.mc("MCBindgen", "MCBindgen", require="Pick DoBind MInvoke".split())
    c.mc("MCBindgen", "MCBindgenOut", require="Pick DoBind MInvoke".split())
    if c.thorough:
        c.mc("MCBindgen", "MCBindgenT", require="Pick DoBind MInvoke".split(), timeout=3000)
    exe = c.build_repo("./bindgen", "bindgen")
    sc = c.gen("MCBindgen", "GenBindgen", 0, 0, simulate=False)
    p = write_scripts(c, "scripts", sc[c.seed % c.q(16, 1)::c.q(16, 1)])
    c.build()
    # the program around the bindings is built like the harness
    mod = HARNESS if REPO == "/repo" else os.path.join(c.out, "harness")
    fs = c.drive(["bindgen", "-bin", exe, "-data", mod, "-scripts", p, "-n", str(c.q(6, 60)), "-steps", "2"],
                 shards=7, timeout=c.q(600, 3000), env={k: v for k, v in goenv().items() if k == "PATH" or k == "HOME" or k.startswith(("GO", "CGO"))})
    c.validate(fs, "BindgenTrace")


def C25(c):
    c.mc("MCKeys", "MCKeys", require="Mixed Done".split())
    sc = c.gen("MCKeys", "GenKeys", 0, 0, simulate=False)
    p = write_scripts(c, "scripts", sc[::c.q(12, 1)])
    fs = c.drive(["keys", "-scripts", p, "-profile", "slow", "-n", str(c.q(600, 6000)), "-steps", str(c.q(30, 60))], shards=6, timeout=1500)
    c.validate(fs, "KeysTrace")


def C26(c):
    c.mc("MCConc", c.q("MCConc", "MCConcT"))
    fs = c.drive(["conc", "-n", str(c.q(450, 6000)), "-steps", "6"], race=True, shards=4, timeout=1500)
    fs += c.drive(["conc", "-n", str(c.q(200, 2500)), "-steps", "12"], race=True, shards=3, name="u", timeout=1500)
    fs += c.drive(["conc", "-n", str(c.q(300, 4000)), "-steps", "9"], shards=2, name="v", timeout=1500)
    c.validate(fs, "ConcTrace", dfs=True, chunk=10000)


def C27(c):
    c.mc("MCClientCalls", require="DBegin DAsk DAnswer DEnd".split())
    sc = c.gen("MCClientCalls", "GenClientCalls", 0, 0, simulate=False)
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["calls", "-scripts", p, "-steps", str(c.q(8, 200))], shards=6, timeout=1500)
    c.validate(fs, "ClientCallsTrace")



def C28(c):
    c.mc("MCCurve", c.q("MCCurve", "MCCurveT"))
    c.mc("MCField", c.q("MCField", "MCFieldT"))
    c.mc("MCKeccak", c.q("MCKeccak", "MCKeccakT"))
    prof = ["-profile", "all"] if c.q(0, 1) else []
    fs = c.drive(["keccak", "-n", str(c.q(5, 80)), "-steps", "60"] + prof, shards=7, name="k")
    c.validate(fs, "KeccakTrace")
    # all entries of the table of multiples of the generator
    fs = c.drive(["curve", "-profile", "windows"], shards=8, name="w")
    c.validate(fs, "CurveTrace", par=8)
    fs = c.drive(["curve", "-n", str(c.q(3, 40)), "-steps", "60"], shards=7, name="c")
    c.validate(fs, "CurveTrace", chunk=12000, timeout=1500)

def C18(c):
    c.mc("MCAbi", require="Put Pack Cut CutWord Spoil".split())
    sc = c.gen("GenAbi", c.q("GenAbi2", "GenAbi3"), 0, 0, simulate=False)
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["abi", "-scripts", p, "-n", str(c.q(600, 12000)), "-steps", str(c.q(20, 40))], shards=6, timeout=1500)
    c.validate(fs, "AbiTrace")


def C19(c):
    c.mc("MCScalars", require="More Done Pick".split())
    sc = c.gen("MCScalars", c.q("GenScalars3", "GenScalars4"), 0, 0, simulate=False)
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["scalars", "-scripts", p, "-n", str(c.q(600, 12000)), "-steps", str(c.q(40, 80))], shards=6, timeout=1500)
    c.validate(fs, "ScalarsTrace")


def C20(c):
    c.mc("MCRlp", c.q("MCRlp", "MCRlpDeep"), require=["More", "Grow"])
    sc = c.gen("MCRlp", "GenRlp", 0, 0, simulate=False)
    sc = sc[:: c.q(12, 1)]
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["rlp", "-scripts", p, "-n", str(c.q(300, 6000)), "-steps", str(c.q(12, 30))], shards=4, timeout=1500)
    c.validate(fs, "RlpTrace")


def C21(c):
    c.mc("MCCurrency", c.q("MCCurrency", "MCCurrencyT"), require="More Done Pick".split())
    sc = c.gen("MCCurrency", c.q("GenCurrency3", "GenCurrency4"), 0, 0, simulate=False)
    p = write_scripts(c, "scripts", sc)
    table = os.path.join(ROOT, "spec", "currencies.json")
    fs = c.drive(["currency", "-data", table, "-scripts", p, "-n", str(c.q(800, 15000)), "-steps", str(c.q(60, 120))], shards=6, timeout=1500)
    c.validate(fs, "CurrencyTrace")


def compiles(c, n, num):
    c.mc("MCCompile", c.q("MCCompile", "MCCompileT"), require=["MNext"])
    sc = c.gen("MCCompile", "GenCompile", num, 10)
    p = write_scripts(c, "scripts", sc)
    fs = c.drive(["compile", "-scripts", p, "-n", str(n), "-steps", str(c.q(30, 60))], shards=7, timeout=1500)
    c.validate(fs, "CompileTrace", chunk=20000)


def C22(c):
    compiles(c, c.q(130, 2500), c.q(700, 8000))


def C23(c):
    c.mc("MCSourceMap", c.q("MCSourceMap", "MCSourceMapT"), require="Add Turn Put Done".split())
    sc = c.gen("MCSourceMap", "GenSourceMap", 0, 0, simulate=False)
    p = write_scripts(c, "scripts", sc[::c.q(12, 1)])
    fs = c.drive(["srcmap", "-scripts", p, "-n", str(c.q(400, 8000)), "-steps", "10"], shards=6, timeout=1500)
    c.validate(fs, "SourceMapTrace", chunk=40000)
    # what a bundle holds
    fs = c.drive(["compile", "-n", str(c.q(40, 600)), "-steps", "30"], shards=6, name="b", timeout=1500)
    c.validate(fs, "CompileTrace", chunk=20000)
