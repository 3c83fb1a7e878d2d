import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))

p("C01","The versioned tree behaves as an ordered map with saved versions",
 "For every sequence of inserts, deletes, snapshots, rollbacks and copies, lookups, deletions' results and iteration over the tree (each key once, in bytewise sorted order, stopping when the visitor says so) reflect exactly the updates made since the version last restored. Rolling back to a snapshot restores exactly the contents it was taken of (an empty tree included), any number of times and regardless of later updates or of the caller re-using the byte slices it inserted. A copy made at a snapshot starts with exactly those contents (and the snapshots up to it), and from then on the copy and the original never affect each other.",
 ["histories","inputs"],"all operation sequences over any number of keys, snapshots and copies of copies",
 "The tests insert one fixed word list and roll back a handful of times; aliasing between copies, rolled-back versions and the original needs particular interleavings of appends and truncations.",
 ["tevm/tree.go"],[("copy-on-write nodes tagged by epoch","tevm/tree.go:setLeft,setRight,setPair"),("capped slices on copy and rollback","tevm/tree.go:CopyAt,Rollback")],
 [("All","node storage shared by copies","tevm/tree.go"),("Snaps","saved roots","tevm/tree.go")],["Tree.Get","Tree.Iterate","Tree.Delete"])

p("C02","The mock chain's EVM state is a journal with nested snapshots",
 "Through the EVM state interface of the mock chain, every read of a balance, nonce, code (with its size and hash), storage slot, self-destruct flag, existence/emptiness, refund counter or log list returns what the preceding writes imply, and a write to one account or slot never changes another. Reverting to a snapshot restores all of these exactly as they were when it was taken, invalidates that snapshot and all newer ones (reverting to those is refused), and leaves older snapshots usable, for every nesting of snapshots and reverts. Creating an account that already holds ether keeps its balance and clears the rest, and self-destruction marks the account and zeroes its balance.",
 ["histories"],"all sequences of state writes, snapshots and reverts over any accounts and slots",
 "The tests only reach this state through a few compiled contracts, none of which reverts nested frames after interleaved writes.",
 ["tevm/evm.go","tevm/tree.go"],[("snapshot tuples over all trees","tevm/evm.go:Snapshot,RevertToSnapshot")],
 [("Snapshots","stack of version tuples","tevm/evm.go:snapshots")],["State.StateDB()"])

p("C03","Executing a program is atomic per call frame",
 "Whatever program a transaction runs on the mock chain, a call frame or contract creation that fails or reverts leaves no effect on balances, storage, code, created accounts or logs, at any nesting depth, while the effects of the frames that succeed are kept exactly, each attributed to the right account. A failed top-level call, transfer, creation (also at a chosen address) or mined transaction reports its failure and leaves the state as it was, except for the creator's nonce and the record of the transaction; a successful creation installs exactly the code its initialiser returned at the address it reports. A program that asks for its surroundings is told the truth: the number and time of the block it executes in (the pending one, or the one a view is of), the hash of that block's parent, the gas price of its transaction, and the code hashes and balances of the accounts as they are.",
 ["programs","histories"],"all programs built from storage writes, logs, calls of every kind, creations, self-destructs, reverts and failures, in all sequences of transactions",
 "The tests run a few straight-line contract calls that succeed; partial failure at depth needs specific programs.",
 ["tevm/evm.go"],[("snapshot before, revert after a failed frame","go-ethereum vm over tevm/evm.go:Snapshot,RevertToSnapshot"),("CreateAt's own snapshot","tevm/evm.go:CreateAt")],
 [],["Chain.Call","Chain.Create","Chain.CreateAt","Chain.Mine","Chain.Send"])

p("C04","Ether is never created or destroyed by executing transactions",
 "Every transfer, value-carrying call, contract creation and self-destruct on the mock chain debits one account by exactly what it credits to another (also when both are the same account), and is refused without any effect when the payer's balance is too small. The total therefore only changes by exactly the amounts explicitly added, subtracted or endowed to new accounts, and by a contract that destroys itself in favour of itself.",
 ["histories","programs","inputs"],"all sequences of transfers, mined transactions with value, nested value-carrying calls, creations and self-destructs, including to oneself, to fresh addresses, of zero and of more than the balance",
 "The tests look at two balances after one transfer.",
 ["tevm/evm.go"],[("transfer with funds check","tevm/evm.go:cantransfer,dotransfer"),("self-destruct","tevm/evm.go:Suicide")],
 [("Accounts","balances by address","tevm/evm.go:State")],["Chain.BalanceOf","Chain.Send","Chain.Mine"])

p("C05","Read-only operations leave no trace",
 "Constant calls, gas estimates, balance, block, transaction, receipt and log queries - through Go or JSON-RPC, succeeding or failing, at the pending or an older block - leave every balance, nonce, code, storage slot, log, block and receipt as it was and bring no account into existence. A constant call returns what the called code returns when executed in that state, and a constant call that tries to modify the state fails. A request for an unknown method, or with missing, surplus or malformed parameters, is refused and likewise leaves no trace.",
 ["histories","inputs","programs"],"all programs called, all states and all sequences of queries interleaved with transactions",
 "The tests never compare the state before and after queries.",
 ["tevm/evm.go","tevm/transport.go"],[("static execution","tevm/evm.go:StaticCall,EstimateGas"),("estimate's revert","tevm/transport.go:estimate")],
 [],["eth_call","eth_estimateGas","Chain.StaticCall","Chain.EstimateGas"])

p("C06","The state at a sealed block never changes",
 "For every sealed block, balance queries and constant calls that name it, and the view of the chain at it, always show balances, code, storage, logs, transactions and receipts exactly as they were when the block was sealed, whatever transactions, reverts, estimates or further seals happen later; the pending block always shows the current state, latest the state as of the last sealed block, and unknown blocks are refused. A view can itself be used and modified, and doing so changes neither the chain nor any other view of it.",
 ["histories"],"all sequences of transactions, seals, views and writes into views, at all sealed blocks",
 "The tests take at most one historical view of a short chain.",
 ["tevm/evm.go","tevm/transport.go","tevm/tree.go"],[("snapshot per sealed block","tevm/evm.go:seal,AtBlock")],
 [("block2snap","snapshot of each sealed block","tevm/evm.go:Chain")],["Chain.AtBlock","eth_getBalance","eth_call"])

p("C07","Blocks, transactions and receipts form one consistent ledger",
 "Every mined transaction can be retrieved by its unique hash with the contents it was mined with plus its block and index, is listed once at that index in its block (as hash or in full), and once sealed has a receipt whose status, gas, created address, block, index and logs are those of its execution; cumulative gas and log indices count up within the block. Sealing adds exactly one block, numbered one higher and linked to its parent, retrievable by number, by hash and by the names latest and pending; a retrieved block never changes once sealed, and unknown hashes and numbers are refused. The chain reports the number of the block it is building as its block number, and every response carries the id of its request.",
 ["histories"],"all sequences of mined transactions (successful and failing, calls and creations, with and without logs), seals and queries",
 "The tests mine one or two transactions and look up one receipt.",
 ["tevm/evm.go","tevm/transport.go"],[("mine and seal","tevm/evm.go:mine,seal"),("lookup","tevm/transport.go:getBlock,receipt,transaction")],
 [("Pending","the open block","tevm/evm.go:State"),("pendingrx","receipts awaiting the seal","tevm/evm.go:Chain")],["eth_getBlockByNumber","eth_getBlockByHash","eth_getTransactionByHash","eth_getTransactionReceipt"])

p("C08","The mock chain's log filters deliver each matching log exactly once",
 "Polling a log filter of the mock chain returns, in order of emission, exactly the logs emitted since the filter was created or last polled that match its address, its topics position by position (absent ones match anything) and its block range - no matching log is lost or repeated and no other is returned. Asking for all logs of a filter returns every matching log emitted so far and counts as a poll; filters are independent of each other, an uninstalled or unknown filter is refused, and logs of failed transactions never appear.",
 ["histories","inputs"],"all sequences of log-emitting transactions, seals, filter creations, polls and removals, with any ranges, addresses and topic patterns",
 "The test uses one filter over one contract's events.",
 ["tevm/transport.go","tevm/evm.go"],[("filter cursor","tevm/transport.go:newFilter,filterChanges,filterLogs"),("matching","tevm/evm.go:matches")],
 [("lastlog","position of the filter in the log","tevm/evm.go:filter")],["eth_newFilter","eth_getFilterChanges","eth_getFilterLogs","eth_uninstallFilter"])

p("C09","A forked chain is the remote chain with local writes on top",
 "Every read of a balance, nonce, code or storage slot on a forked chain returns the latest local write that has not been reverted (zero and empty values included), and otherwise the remote chain's value at the fork block. The remote chain is only ever read, and only at the fork block, so that its later changes are never seen; remote contracts are callable and the fork continues at the block after the fork block.",
 ["histories","inputs"],"all remote states and all sequences of local transactions, state writes, snapshots, reverts and reads",
 "The tests of forks need a live node and are skipped.",
 ["tevm/evm.go"],[("fallback reads","tevm/evm.go:getAccount,getCode,GetState")],
 [("Fallback","client and block of the remote chain","tevm/evm.go:State")],["Chain.BalanceOf","State.StateDB()","requests seen by the remote"])

p("C10","Copies of a chain are complete and isolated",
 "A copy of a chain starts out indistinguishable from it - same balances, code, storage, logs, pending block, historical blocks, transactions and receipts - and can be used, mined on, sealed, viewed at past blocks and copied again like the original. From then on nothing done to either one, reverts included, is ever visible in the other.",
 ["histories"],"all sequences of operations applied to any of a family of chains related by copying",
 "No test modifies both a chain and its copy.",
 ["tevm/evm.go","tevm/tree.go"],[("logical copies of all trees","tevm/evm.go:Copy,atSnap")],
 [],["Chain.Copy"])

p("C11","A chain survives JSON serialization unchanged",
 "Saving a chain as JSON and loading it into a chain yields one that is indistinguishable from the original for every later operation: balances, code, storage, logs, past blocks and the states at them, transactions, receipts, the pending block with its not yet sealed transactions, and reverts to snapshots taken before. Saving does not modify the chain, and whatever the loading chain contained before is replaced.",
 ["histories"],"all chain histories, saved at any point (also between mining and sealing) and continued afterwards, in the original and in the loaded chain",
 "No test loads a saved chain and goes on with it.",
 ["tevm/evm.go","tevm/tree.go"],[("JSON form of the chain","tevm/evm.go:MarshalJSON,UnmarshalJSON")],
 [],["json.Marshal","json.Unmarshal"])

p("C12","Concurrent RPC calls each get their own answer",
 "With any number of goroutines calling through one RPC connection, each call completes exactly once with the result or error that the server sent for exactly that request, in whatever order and grouping the responses arrive; unsolicited, duplicate or unknown response ids affect no other call. Requests on the wire are complete, separate and carry ids that are distinct among the calls in flight.",
 ["schedules","histories"],"all interleavings of concurrent calls, and of the server's responses with any order, delay, duplication and chunking",
 "Tests make sequential calls over a synchronous transport.",
 ["seth.go","client.go"],[("pending-call table and reader goroutine","seth.go:RPCTransport")],
 [("pending","calls awaiting a response, by id","seth.go")],["Transport.Execute","bytes on the connection"])

p("C13","Connection faults fail calls cleanly and never mix connections",
 "When the connection of an RPC client breaks, at any point of a request or response, every call in flight on it ends promptly with an error or with its own answer - none hangs, none is answered twice - the broken connection is closed even when nothing was in flight on it, and later calls use a freshly dialled connection. An answer received on one connection is never given to a call sent on another, a failed dial fails only the calls that needed it, and no call is sent twice.",
 ["fault_sequences","schedules","crash_points"],"all points at which the connection can be closed or the dial can fail, for all numbers of calls in flight, over any number of reconnections",
 "No test breaks a connection.",
 ["seth.go"],[("reconnect and abort","seth.go:RPCTransport")],
 [("conn","current connection","seth.go")],["Transport.Execute","dialled connections"])

p("C14","The client's log filter delivers every log once, in order, until closed",
 "A filter obtained from the client passes on exactly the logs the server returns, in order and each once, starting with the existing ones where the filter was asked from a past block, for any batching of the server's answers. If polling fails, the output is closed and the error is reported; after Close, no error is reported, the filter is uninstalled on the server, output ends, and closing again is harmless.",
 ["schedules","fault_sequences"],"all batchings of logs over polls, all points of failure of the server, and all points at which the consumer closes the filter",
 "The one test reads a few logs and closes the filter once.",
 ["filter.go"],[("poll loop","filter.go")],[],["Filter.Out","Filter.Err","Filter.Close"])

p("C15","The block iterator yields consecutive blocks",
 "Iterating over blocks from a given number yields each block once, in increasing consecutive order with no gaps or repeats, waits for blocks that do not exist yet, and retries after the server has no answer or fails temporarily. Once stopped it fetches no further blocks (blocks already fetched may still be delivered) and its output ends.",
 ["fault_sequences","schedules"],"all rates of block production relative to the consumer, all temporary failures of the server and all points at which the consumer stops",
 "The test runs against a live node and is skipped.",
 ["client.go","seth.go"],[("iterator","client.go:IterateBlocks")],[],["BlockIterator"])

p("C16","Sending a call submits exactly the requested transaction at most once",
 "For every combination of options, a call made through a sender submits exactly one transaction carrying its sender, destination, value, encoded arguments, gas and gas price as given - where not given, gas is estimated for that very call and raised by the documented margin, and the price is the one the sender is configured with - and none at all when estimation or any preparation fails or the arguments are invalid. The hash returned is the server's, errors of the server are reported, and constant calls and estimates name the same call at the pending block and never submit anything.",
 ["inputs","fault_sequences","configurations"],"all options, arguments, server answers and failures at each request",
 "The tests run against the mock chain with default options and no failures.",
 ["sender.go","send.go"],[("option filling","sender.go"),("encoding","send.go")],[],["requests seen by the server"])

p("C17","Cancel, wait, drain and create act on exactly the right transaction",
 "Cancelling replaces precisely the transaction at the given nonce by an empty self-transfer with a gas price strictly higher than that transaction's (and not below the sender's configured one), and refuses when it is in a block already; waiting returns only once the named transaction is in a block. Draining waits for exactly the sender's own pending transactions, and creating a contract submits its code without destination and returns the address in its receipt, or an error if it failed.",
 ["histories","fault_sequences"],"all pending pools, all delays after which receipts appear, all prices, and all server failures",
 "The tests have at most one transaction, mined immediately.",
 ["sender.go","client.go","send.go"],[("replacement price","sender.go:Cancel"),("receipt polling","sender.go:Wait,Drain")],[],["requests seen by the server"])

p("C18","ABI encoding and decoding follow the ABI specification",
 "For every list of supported argument types and values, the encoded call data is the selector followed by exactly the ABI encoding (heads in order, correct offsets, lengths, padding and two's complement), and decoding that encoding into fresh or re-used variables of the same types returns the same values (integers modulo 2^256, as words carry no sign; one that does not fit a fixed-width destination is refused). Decoding any truncated, extended or corrupted data either fails with an error or yields values the data encodes, and never crashes or reads beyond the data.",
 ["inputs"],"all argument lists over the supported types (integers, addresses, booleans, fixed and dynamic bytes, strings, arrays) and all byte strings as input of the decoder",
 "The tests encode and decode a handful of fixed examples.",
 ["abi.go","send.go","seth.go","bindgen/main.go"],[("encoder","send.go:ABIEncode"),("decoder","send.go:DecodeABI")],[],["ABIEncode","DecodeABI"])

p("C19","Hex and JSON scalars round-trip and reject malformed text",
 "Every integer, byte string, hash, address and quantity prints as canonical 0x-hexadecimal (quantities without leading zeros, zero as 0x0; fixed-size values at full width), and parsing the printed form gives back the value, from JSON and from text, regardless of what the destination held before. Text that is not such a form - a bad digit, odd or wrong length, missing prefix, missing quotes, overflow of a fixed-width value - is rejected with an error, as documented for each type.",
 ["inputs"],"all values of each scalar type and all short texts as input of the parsers",
 "The tests try a few examples of each type.",
 ["seth.go","hex.go"],[("codecs","seth.go,hex.go")],[],["MarshalText/UnmarshalText","MarshalJSON/UnmarshalJSON","String"])

p("C20","Transactions are serialized and signed per the Ethereum rules",
 "For every transaction, the bytes to be signed and the signed form are exactly the RLP list of its fields in the protocol's order, each integer minimal big-endian and each string with the right short or long header, with an empty destination for a creation, and the replay-protection chain id present exactly when one is used. The hash signed is the hash of exactly the unsigned form.",
 ["inputs"],"all nonces, prices, gas amounts, destinations (or none), values, payload lengths around every header boundary and chain ids",
 "The tests check one published example.",
 ["transaction.go","signature.go"],[("RLP","transaction.go:Encode")],[],["Transaction.Encode","Transaction.HashToSign"])

p("C21","Currency values are exact fixed-point decimals",
 "Parsing a decimal amount gives exactly the value written, in the units of the currency, and printing gives exactly the value held, with all of the currency's digits and its name, so that printing and parsing are inverse; text that is not a decimal amount or has more digits than the currency can represent is rejected. Arithmetic and comparison are exact, conversion at a rate is exact but for rounding down to the digits of the target, amounts of different currencies never mix, and no operation modifies its operands (other than the receiver).",
 ["inputs"],"all amounts (fractions with leading and trailing zeros, zero, negative where supported, beyond 64 bits) and all short texts",
 "The tests try a few amounts.",
 ["cc/currency.go"],[("fixed-point codec","cc/currency.go")],[],["parsing and printing of amounts"])

p("C22","The compile cache returns the right result and never a stale one",
 "Compiling the same sources again, in whatever order they are listed, returns the same bundle without running the compiler, while any change to a source's text or name, or to which sources are given, runs the compiler anew, on exactly the sources given and with the settings it always has, and never returns the result for other inputs. A failed compilation is reported and not remembered, a damaged or truncated cache entry is never returned as a result, and outdated entries are removed only inside the cache.",
 ["histories","inputs","crash_points"],"all sequences of compilations over varying sources and cache directories, with cache entries missing, damaged or written half-way",
 "The tests need a Solidity compiler, which is absent.",
 ["compile.go"],[("content-addressed cache files","compile.go")],[("cache directory","saved bundles","compile.go")],["Compile* functions","invocations of the compiler"])

p("C23","Source positions map each program counter to its source text",
 "For every compiled contract, the source position reported for a program counter is the one the compiler's source map gives for the instruction at that counter - with immediate operands of push instructions and inherited (empty) fields taken into account - and out-of-range counters, missing or synthetic files yield no position rather than a crash. Bundles list exactly the contracts compiled, with code, signatures and sources intact, and code that is not fully linked is refused.",
 ["inputs"],"all bytecode and source maps (compressed forms included), all counters and all combinations of files",
 "The tests need a Solidity compiler, which is absent.",
 ["compile.go"],[("source map walker","compile.go:SourceOf")],[],["CompiledContract.SourceOf","Bundle"])

p("C24","The eth command uses exactly the key and arguments it was given",
 "The command-line tool selects exactly the key named by its configuration (name, id or address, or the only candidate), never another one, and refuses when there is none. Arguments are checked against the method signature and encoded per the ABI or refused - a value that does not fit its type is never silently altered - before anything is sent or signed.",
 ["inputs","configurations"],"all sets of keys on disk, all ways of naming one, and all signatures and argument strings",
 "The tests cover only argument parsing of a few types.",
 ["cmd/eth/keys.go","cmd/eth/call.go","cmd/eth/jumptab.go"],[("key lookup","cmd/eth/keys.go"),("argument parsing","cmd/eth/call.go")],[],["requests and output of the command"])

p("C25","Key files and signatures round-trip and reject everything else",
 "A key written to a key file under a passphrase is recovered by exactly that passphrase; with any other passphrase, or after any change to the ciphertext, the MAC or the key-derivation parameters, opening it fails with an error, and a file that names an address yields the key of that address or an error, whatever else was changed (the format authenticates the cipher's IV in no other way). A signature made with a key recovers, for the same message, exactly the address of that key, in every supported form of the signature, and malformed signatures are refused. No two signatures of different messages, or by different keys, share their r (a nonce is never used again).",
 ["inputs"],"all keys, passphrases (empty ones included), single-field corruptions of key files, messages and signature forms",
 "The tests decrypt two fixed key files.",
 ["keyfile.go","signature.go"],[("MAC check","keyfile.go"),("recovery","signature.go")],[],["Keyfile","Signature"])

p("C26","A mock chain may be used from many goroutines",
 "Any of the chain's methods, including requests through its client and HTTP interface, may be called concurrently: there are no data races or deadlocks, and the results are those of some order of the calls consistent with real time, each one taking effect atomically. In particular no transfer, mined transaction, log or sealed block is lost or applied twice.",
 ["schedules"],"all interleavings of concurrent calls of all methods from any number of goroutines",
 "The tests are sequential.",
 ["tevm/evm.go","tevm/transport.go"],[("the chain's lock","tevm/evm.go:Chain.mu")],[],["methods of Chain"])

p("C27","Typed client calls name exactly what was asked and report every failure",
 "Each typed method of the client sends exactly one request with the documented method, parameters and block designation (number, latest or pending) and returns the decoded result of the answer to it. An error answer, an empty answer to a lookup, or a result of the wrong form is reported as an error - never as a zero value that looks like data. This holds over every transport: stream, unix socket, HTTP and Infura's mixture of GET and POST. A log is taken for a token transfer exactly if it has that event's form, with its addresses and amount.",
 ["inputs","fault_sequences"],"all methods, arguments and block designations, and all forms of answers",
 "The tests use the mock chain, whose answers are well-formed.",
 ["client.go","seth.go","send.go"],[("typed wrappers","client.go,send.go")],[],["requests seen by the server","results"])

p("C28","Elliptic-curve and Keccak primitives compute the standard functions",
 "The secp256k1 arithmetic and the Keccak-256 sponge compute the standard functions for every input, however the input is split over writes.",
 ["inputs"],"all field elements, scalars, points and messages",
 "The tests use sampled vectors.",
 ["ec/btcec.go","ec/field.go","keccak/sha3.go","keccak/keccakf.go"],[("field arithmetic","ec/field.go"),("permutation","keccak/keccakf.go")],[],["Sum256","SignCompact"])
p("C29","Generated bindings call the bound function and return what it returned",
 "For any contracts with distinct method names the binding generator writes a Go package that compiles, with one type per contract asked for and one method per useful function, typed by its inputs and outputs. Calling a method of a read-only function (by the constant flag or by view/pure mutability) makes exactly one eth_call, and of any other exactly one transaction, from the sender to the bound address, of the selector of the function's signature and the ABI encoding of the arguments; its results are the decoded answer, or an error. Asking for a contract that is not there fails without output, -b gives the contract's code, descriptors are found by signature, and stripping metadata from code removes the metadata only.",
 ["inputs"],"all contracts without tuples, fixed-size arrays or overloaded methods; all arguments and answers",
 "One test generates and calls one contract.",
 ["bindgen/main.go","compile.go","send.go"],[("type mapping","bindgen/main.go:typeconv, rettype"),("generation","bindgen/main.go:generate"),("descriptors","compile.go:Find, Signature, StripBytecode")],[],["generated Go package","requests of a generated method"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import sys
for x in P:
    assert len(x["title"])<=80,x["id"]
