#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed checks below and properties.jsonl"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("The specification is model-checked exhaustively within small constants; the real code, built from /repo's "
          "working tree, runs behaviours generated from the specification and seeded random ones, and every recorded "
          "history has to be a behaviour of the specification (TLC trace validation). Holds for the histories explored, "
          "not for all. Trusts: TLC, the harness's projection of values. ")
T = "TLA+ specification (TLC): exhaustive model checking, generated scripts replayed on the real code, trace validation"
CH = "spec/EVM.tla + spec/Chain.tla (a chain as a value: world, ledger, sealed worlds, filters; programs of call frames) "
CLAIMS = {
 "C01": "spec/VersionedMap.tla against tevm.Tree: all op sequences to depth 5 (thorough 6) over 3 keys, plus long random ones.",
 "C02": CH + "against the vm.StateDB of the mock chain: writes, reads, nested snapshots, reverts incl. stale handles.",
 "C03": CH + "against Call, Create, CreateAt, Mine with hand-assembled interpreter contracts that run the generated programs (nested calls of all kinds, creations, reverts, failures, out of gas, selfdestructs).",
 "C04": CH + "all balances and their sum after every operation, in units of 1, 10^18 and 2^128 wei.",
 "C05": CH + "the whole state before and after constant calls, estimates and queries at pending and older blocks.",
 "C06": CH + "balances, constant calls and views at every sealed block, at the end of every history.",
 "C07": CH + "transactions, receipts and blocks through JSON-RPC, decoded independently of seth.",
 "C08": CH + "filters through JSON-RPC.",
 "C09": CH + "forks of generated remote chains served by a fake transport that answers differently at other blocks and records every request.",
 "C10": CH + "copies, copies of copies, views of copies; nothing is shared in the specification.",
 "C11": CH + "chains saved and loaded at random points, into new chains and into used ones.",
 "C12": "spec/Rpc.tla (what a client may do), refined by spec/RpcImpl.tla (locks, reader goroutine, pending table), against seth.Client over fake connections, under the race detector.",
 "C13": "spec/Rpc.tla and spec/RpcImpl.tla with cut writes, broken reads, failed dials; the harness breaks connections at every point of requests and responses, under the race detector.",
 "C14": "spec/FilterClient.tla, refined by spec/MCFilterClient.tla (goroutine, channel, lock), against seth.Filter over a fake server: all short sequences of answers, failures and closes.",
 "C15": "spec/BlockIter.tla, refined by spec/MCBlockIter.tla, against seth.BlockIterator over a fake server.",
 "C16": "spec/Sender.tla (the requests of a sender as a function of its options and the answers) against seth.Sender over a fake server; signed transactions are decoded with go-ethereum.",
 "C17": "spec/Sender.tla (cancel, wait, drain, create) against seth.Sender over a fake server, over pools, delays and failures.",
 "C27": "spec/ClientCalls.tla (each method's request and outcome as functions of arguments and answer) against seth.Client over three transports: all combinations of method, block designation and form of answer.",
 "C18": "spec/Abi.tla (the ABI encoding of a list of typed values, and what data decodes to) against ABIEncode and DecodeABI: lists and corruptions enumerated by the model, and random ones.",
 "C19": "spec/Scalars.tla (printing and parsing of the scalar types over bytes) against the Text, JSON and String methods: all short texts over a critical alphabet, random values and mutations of their forms.",
 "C20": "spec/Rlp.tla (serialized and to-be-signed forms of a transaction; hashing is an opaque function whose points go-ethereum supplies) against HashToSign, SignTransaction and Encode: all combinations of boundary values of the fields, and random ones.",
 "C21": "spec/Currency.tla (amounts, rates and pairs over decimal texts and integers of any size) against package cc: all short texts over a critical alphabet, and random sequences of parsing, printing, arithmetic and conversion in which every variable is compared after every step.",
 "C25": "spec/Keys.tla (key files and signatures over symbolic cryptography: what a passphrase derives, a MAC authenticates and an address names) against Keyfile, PrivateKey and Signature: every file put together from the parts of two others and junk, random files of all KDFs and single-field damage, and signatures bent in each of their numbers; go-ethereum gives the public keys.",
 "C26": "spec/ConcTrace.tla (linearizability with respect to spec/Chain.tla: every operation of recorded concurrent histories takes effect at one moment between its call and its return, sought by TLC) against a Chain, its copies and views, its client and its HTTP handler used by 2 to 4 goroutines, built with the race detector; MCConc checks the locking discipline on the specification.",
 "C22": "spec/Compile.tla (what is remembered, for which sources, and when the compiler may and must run) against Compile, CompileGlob and CompileString with a stand-in for solc that notes what it is given: histories generated from the model and random ones, with cache files cut, damaged and removed, failing compilers, caches that cannot be written, and decoys around the cache.",
 "C23": "spec/SourceMap.tla (the instruction of each byte of code, the entries of a compressed source map, and the text they stand for) against SourceOf on all short programs and maps and on random ones; spec/Compile.tla decides what a bundle holds for the compiler's output, unlinked code included.",
 "C24": "spec/Eth.tla (the eth command as a machine: key files by directory and name, code by address, calls, signatures, listings, key generation, reads, posts, jump tables, recovery) checked by TLC for which key is opened and which integers each type takes; its runs are replayed through the built binary against a fake node and every observation is checked against the specification.",
 "C28": "spec/Curve.tla (multiples of points as a machine that adds, sums recognised by the equations of chord and tangent, signatures as a relation of multiples; checked exhaustively over small fields) and spec/Keccak.tla (the permutation and the sponge, hashers written piece by piece), with the large field in spec/Field.tla checked against plain arithmetic: recorded calls of ec, keccak and the signing functions are steps of these machines; scalar products are verified by chains of additions, the table of the generator's multiples entirely.",
 "C29": "spec/Bindgen.tla (what a generated package offers, and the request and results of each of its methods, over the encoding of spec/Abi.tla) against the bindgen command: contracts of enumerated and random functions are bound, the package is compiled into a program that lists its types by reflection and calls every method over a fake node.",
}
NA = {
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash bin/setup.sh",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        m["checks"].append({"property": i,
                            "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                            "technique": T, "level": "model_checking",
                            "level_note": COMMON + CLAIMS[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet: the machinery for it is being built")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
