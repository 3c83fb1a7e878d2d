"""How much of the recorded behaviour do the trace specifications judge?

  python3 bin/sensitivity.py [name...]

For every driver, a short trace of the real code is recorded; then one event at a time is dropped,
repeated, or has one of its fields altered, and the trace specification must reject the result.  Prints the
kinds of alteration (operation, field) for which none of the tries was rejected.  Not a check: a
tool to find parts of the traces that no specification looks at."""
import json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import ROOT, goenv, REPO

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
D = {
    "tree": ("TreeTrace", ["tree", "-n", "6", "-steps", "40"]),
    "rpc": ("RpcTrace", ["rpc", "-profile", "faults", "-n", "4", "-steps", "30"]),
    "filterclient": ("FilterClientTrace", ["filterclient", "-n", "6", "-steps", "5"]),
    "blockiter": ("BlockIterTrace", ["blockiter", "-n", "6", "-steps", "5"]),
    "calls": ("SenderTrace", ["sender", "-profile", "calls", "-n", "30"]),
    "waits": ("SenderTrace", ["sender", "-profile", "waits", "-n", "30"]),
    "clientcalls": ("ClientCallsTrace", ["calls", "-steps", "1"]),
    "abi": ("AbiTrace", ["abi", "-n", "10", "-steps", "12"]),
    "scalars": ("ScalarsTrace", ["scalars", "-n", "8", "-steps", "30"]),
    "rlp": ("RlpTrace", ["rlp", "-n", "8", "-steps", "8"]),
    "currency": ("CurrencyTrace", ["currency", "-data", os.path.join(ROOT, "spec", "currencies.json"), "-n", "8", "-steps", "40"]),
    "compile": ("CompileTrace", ["compile", "-n", "4", "-steps", "20"]),
    "srcmap": ("SourceMapTrace", ["srcmap", "-n", "6", "-steps", "8"]),
    "keys": ("KeysTrace", ["keys", "-n", "6", "-steps", "20"]),
    "keccak": ("KeccakTrace", ["keccak", "-n", "2", "-steps", "20"]),
    "curve": ("CurveTrace", ["curve", "-n", "1", "-steps", "20"]),
}
for p in "statedb exec ether readonly history hstate ledger filters fork copies json".split():
    D[p] = ("ChainTrace", ["chain", "-profile", p, "-n", "5", "-steps", "30"])


def tlc(module, trace, meta):
    out = subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx2g", "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", "1",
                          "-metadir", meta, "-noGenerateSpecTE", "-config", module + ".cfg", module + ".tla"],
                         cwd=os.path.join(ROOT, "spec"), env=dict(os.environ, TRACE=trace),
                         capture_output=True, text=True, timeout=600).stdout
    shutil.rmtree(meta, ignore_errors=True)
    for l in out.splitlines():
        if "TRACE_RESULT" in l:
            return int(l.replace("<", "").replace(">", "").split(",")[1])
    return -1


def paths(v, pre=(), depth=2):
    if isinstance(v, dict) and depth:
        for k in v:
            yield from paths(v[k], pre + (k,), depth - 1)
    elif pre:
        yield pre


def get(e, p):
    for k in p:
        e = e[k]
    return e


def alter(rnd, v, others):
    o = [x for x in others if x != v and type(x) == type(v)]
    if o:
        return rnd.choice(o)
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        return v + "~"
    if isinstance(v, list):
        return v[:-1] if v else v
    return v


def main():
    tmp = tempfile.mkdtemp(prefix="sens.")
    names = sys.argv[1:] or list(D)
    exe = os.path.join(tmp, "vharness")
    mod = os.path.join(tmp, "mod")
    subprocess.check_call(["go", "build", "-gcflags=all=-d=checkptr=0", "-o", exe, "."], cwd=os.path.join(ROOT, "harness"), env=goenv())
    rnd = random.Random(1)
    jobs, label = [], {}
    for n in names:
        module, args = D[n]
        tr = os.path.join(tmp, n + ".nd")
        subprocess.run([exe] + args + ["-seed", "5", "-out", tr], check=True, stderr=subprocess.DEVNULL)
        ev = [json.loads(l) for l in open(tr)]
        kinds = {}
        for i, e in enumerate(ev):
            op = e.get("op", "?")
            if op == "reset":
                continue
            for p in paths(e):
                if p != ("op",):
                    kinds.setdefault((op,) + p, []).append(i)
            kinds.setdefault((op, "<dropped>"), []).append(i)
            kinds.setdefault((op, "<repeated>"), []).append(i)
        for k, idx in kinds.items():
            others = [get(ev[i], k[1:]) for i in idx] if k[1][0] != "<" else []
            for t, i in enumerate(rnd.sample(idx, min(3, len(idx)))):
                new = [json.loads(json.dumps(e)) for e in ev]
                if k[1] == "<dropped>":
                    del new[i]
                elif k[1] == "<repeated>":
                    new.insert(i, new[i])
                else:
                    q = new[i]
                    for x in k[1:-1]:
                        q = q[x]
                    old = q[k[-1]]
                    q[k[-1]] = alter(rnd, old, others)
                    if q[k[-1]] == old:
                        continue
                jobs.append((n, module, k, i, new))
    bad, seen = {}, {}

    def run(j):
        n, module, k, i, new = j
        if seen.get((n, k)) is True:
            return
        f = os.path.join(tmp, "%s-%s-%d.nd" % (n, "-".join(k).replace("/", "_"), i))
        with open(f, "w") as o:
            for e in new:
                o.write(json.dumps(e) + "\n")
        got = tlc(module, f, f + ".meta")
        os.remove(f)
        if got != len(new):
            seen[(n, k)] = True
        else:
            seen.setdefault((n, k), False)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        list(ex.map(run, jobs))
    for n in names:
        ks = [k for m, k in seen if m == n]
        acc = sorted("/".join(k) for m, k in seen if m == n and not seen[(m, k)])
        print("%-12s %3d kinds of alteration, %3d rejected; never rejected: %s" % (n, len(ks), len(ks) - len(acc), " ".join(acc)))
    shutil.rmtree(tmp)


main()
