From 1970e7b3a18d92477984ba6fa0cb305a730d5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:51 +0000
Subject: [PATCH 01/73] fix: do not let snapshots of a tree copy overwrite
 those of the original

CopyAt shared the spare capacity of the snapshot list with its receiver, so
taking a snapshot of the copy replaced later snapshots of the original (for
example, eth_call at an old block corrupted later block states).
---
 tevm/tree.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 85340ea..ec0a3e1 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -195,10 +195,11 @@ func (t *Tree) CopyAt(snap int) Tree {
 	}
 	s := t.Snaps[snap]
 	return Tree{
-		Snaps: t.Snaps[:snap+1],
+		// make sure any appends to the snapshot list
+		// and the node list cause reallocation of the
+		// backing data
+		Snaps: t.Snaps[: snap+1 : snap+1],
 		Root:  s.Root,
-		// make sure any appends to the node list
-		// cause reallocation of the backing data
 		All:   t.All[:s.Allocated:s.Allocated],
 		Epoch: t.Epoch + 1,
 	}
-- 
2.43.0


From 87c3a730264f51b8d3a7a1f81886aadfb97f4ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 02/73] fix: keep tree copies intact when the original is
 rolled back

Rollback truncated the node list but kept its capacity, so inserts after a
rollback overwrote nodes still used by copies of newer snapshots.
---
 tevm/tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index ec0a3e1..7627e99 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -214,9 +214,11 @@ func (t *Tree) Rollback(snap int) {
 		return
 	}
 	s := t.Snaps[snap]
-	t.Snaps = t.Snaps[:snap+1]
+	// copies of newer snapshots may still refer to the
+	// data being dropped, so appends have to reallocate
+	t.Snaps = t.Snaps[: snap+1 : snap+1]
 	t.Root = s.Root
-	t.All = t.All[:s.Allocated]
+	t.All = t.All[:s.Allocated:s.Allocated]
 	t.Epoch++
 }
 
-- 
2.43.0


From 2233008168f4abfb6f5f506eb774576849259517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 03/73] fix: keep earlier snapshots when a tree is rolled back
 to an empty state

Rolling back to (or copying) a snapshot that was taken while the tree was
empty discarded all snapshots taken before that, when it was not.
---
 tevm/tree.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 7627e99..f0be95a 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -179,6 +179,15 @@ func (t *Tree) Snapshot() int {
 	return s
 }
 
+// allocated returns the number of nodes that
+// are in use by the existing snapshots
+func (t *Tree) allocated() int32 {
+	if len(t.Snaps) == 0 {
+		return 0
+	}
+	return t.Snaps[len(t.Snaps)-1].Allocated
+}
+
 // CopyAt returns a logical copy of thre tree
 // at a given snapshot. (As an optimization, the
 // data itself is not copied.) Updates to the returned
@@ -191,7 +200,12 @@ func (t *Tree) Snapshot() int {
 //
 func (t *Tree) CopyAt(snap int) Tree {
 	if snap < 0 {
-		return Tree{}
+		n := t.allocated()
+		return Tree{
+			Snaps: t.Snaps[:len(t.Snaps):len(t.Snaps)],
+			All:   t.All[:n:n],
+			Epoch: t.Epoch + 1,
+		}
 	}
 	s := t.Snaps[snap]
 	return Tree{
@@ -210,7 +224,13 @@ func (t *Tree) CopyAt(snap int) Tree {
 // back to a prior snapshot is irreversible.
 func (t *Tree) Rollback(snap int) {
 	if snap < 0 {
-		*t = Tree{}
+		// the tree was empty, but it may not have been
+		// empty at the time of an earlier snapshot
+		n := t.allocated()
+		t.Snaps = t.Snaps[:len(t.Snaps):len(t.Snaps)]
+		t.Root = 0
+		t.All = t.All[:n:n]
+		t.Epoch++
 		return
 	}
 	s := t.Snaps[snap]
-- 
2.43.0


From da5abff31de0292c0717a765349c5ddc7eb0da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 04/73] fix: do not alias the caller's memory in tree keys and
 values

Chain.Mine inserts the hash of the caller's transaction, so re-using that
transaction changed the key of an existing node and corrupted the tree.
---
 tevm/tree.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index f0be95a..840bb9c 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -140,9 +140,17 @@ func (t *Tree) Delete(key []byte) bool {
 	return touched
 }
 
+func clone(b []byte) []byte {
+	if b == nil {
+		return nil
+	}
+	return append(make([]byte, 0, len(b)), b...)
+}
+
 // Insert inserts a key-value pair into the trie
 func (t *Tree) Insert(key, value []byte) {
-	t.Root = t.insertat(t.Root, key, value)
+	// the caller is free to re-use the memory it passed
+	t.Root = t.insertat(t.Root, clone(key), clone(value))
 }
 
 // Get gets a value from the tree
-- 
2.43.0


From 3fd58bb311ce9421e0a9d190f96691905e624ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 05/73] fix: do not create ether when an account sends to
 itself

---
 tevm/evm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 591a5f9..591dab5 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -715,7 +715,9 @@ func dotransfer(s vm.StateDB, from, to common.Address, v *big.Int) {
 	if st.Trace != nil {
 		st.Trace("Transfer", from.String(), to.String(), v.String())
 	}
-	if v.Sign() == 0 {
+	// NOTE: the code below reads both accounts before
+	// writing either one, so they have to be distinct
+	if v.Sign() == 0 || from == to {
 		return
 	}
 
-- 
2.43.0


From 888e9f8b1e209fa7c1eb113af988e1113674c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 06/73] fix: do not destroy the balance of an account when
 creating it

Ether sent to the address of a contract before its deployment was lost.
---
 tevm/evm.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 591dab5..c404e84 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -143,6 +143,12 @@ func (s *gethState) CreateAccount(addr common.Address) {
 	}
 	var empty Account
 	a := seth.Address(addr)
+	// like geth, carry over ether that was
+	// sent to the address before it was created
+	if old, ok := s.getAccount(&a); ok {
+		bal := old.Balance()
+		empty.SetBalance(bal.Big())
+	}
 	s.setAccount(&a, &empty)
 }
 
-- 
2.43.0


From 28e7ae2f8a6b6f9f8ced03ece00b8f87e30286f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 07/73] fix: clear the balance of self-destructed accounts

The beneficiary is credited by the EVM before it calls Suicide, so leaving
the balance in place duplicated the ether.
---
 tevm/evm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index c404e84..1161173 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -389,12 +389,15 @@ func (s *gethState) Suicide(addr common.Address) bool {
 	// out of the JSON-RPC API, so this may
 	// simply be wrong.
 	acct, ok := s.getAccount(&a)
-	if !ok || acct.Suicided() {
+	if !ok {
 		return false
 	}
+	first := !acct.Suicided()
 	acct.SetSuicided(true)
+	// the EVM has already credited the beneficiary
+	acct.SetBalance(new(big.Int))
 	s.setAccount(&a, &acct)
-	return true
+	return first
 }
 
 func (s *gethState) HasSuicided(addr common.Address) bool {
-- 
2.43.0


From 446d0e351be684c99553c2487c105d99b9674bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 08/73] fix: actually drop newer snapshots in RevertToSnapshot

The truncated list was assigned to a local variable, so it was possible to
roll the state forward into dangling snapshots.
---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 1161173..dca2154 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -427,7 +427,7 @@ func (s *gethState) RevertToSnapshot(v int) {
 	s.Logs = s.Logs[:ns.LogLen]
 
 	// make sure we can't roll forward
-	snaps = snaps[:v]
+	s.Snapshots = snaps[:v:v]
 }
 
 func (s *gethState) Snapshot() int {
-- 
2.43.0


From 7f5e9b6fe3f676d80742537a6eab22130cd1b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 09/73] fix: use the refund counter of the snapshot when
 copying a snapshot

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index dca2154..fb56e3a 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -456,7 +456,7 @@ func (s *State) atSnap(n int, dst *State) {
 	ns := s.Snapshots[n]
 	dst.Fallback = s.Fallback
 	dst.Trace = s.Trace
-	dst.Refund = s.Refund
+	dst.Refund = ns.Refund
 	dst.Accounts = s.Accounts.CopyAt(ns.Accounts)
 	dst.Code = s.Code.CopyAt(ns.Code)
 	dst.Storage = s.Storage.CopyAt(ns.State)
-- 
2.43.0


From 38cc436c32577820803c05e0d9bbfb146cc298d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 10/73] fix: make the result of Chain.Copy usable as a chain

The copy had no blocks, no pending receipts and a nil snapshot map, so
sealing a block on it panicked and it could not serve its own history.
---
 tevm/evm.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index fb56e3a..ccd6647 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -543,11 +543,26 @@ func (c *Chain) Copy() *Chain {
 	// and grab a logical copy of the snapshot
 	c.State.atSnap(((*gethState)(&c.State)).Snapshot(), &cc.State)
 
+	cc.State.Blocks = c.State.Blocks.CopyAt(c.State.Blocks.Snapshot())
+	cc.State.Preimage = c.State.Preimage.CopyAt(c.State.Preimage.Snapshot())
+
 	p := *c.State.Pending
+	p.Transactions = append([]json.RawMessage(nil), p.Transactions...)
 	cc.State.Pending = &p
+	cc.Debugf = c.Debugf
+	cc.block2snap = copysnaps(c.block2snap)
+	cc.pendingrx = append([]*seth.Receipt(nil), c.pendingrx...)
 	return cc
 }
 
+func copysnaps(m map[int64]int) map[int64]int {
+	out := make(map[int64]int, len(m))
+	for k, v := range m {
+		out[k] = v
+	}
+	return out
+}
+
 // AtBlock returns the chain state at a given
 // block number. As a special case, -1 is interpreted
 // as the pending block (i.e. the current chain state),
-- 
2.43.0


From 889b94e706b50130323a96e9506129ac79075075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 11/73] fix: do not share the block snapshot map with chains
 returned by AtBlock

Sealing a block on the returned chain replaced the snapshot of a block of
the original chain.
---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index ccd6647..62514c1 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -606,7 +606,7 @@ func (c *Chain) AtBlock(n int64) *Chain {
 	c.State.atSnap(snap, &cc.State)
 	cc.Debugf = c.Debugf
 	cc.State.Pending = nb
-	cc.block2snap = c.block2snap
+	cc.block2snap = copysnaps(c.block2snap)
 	return cc
 }
 
-- 
2.43.0


From dd3580f19a8be358be3270d80550bc6878319e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 12/73] fix: fill in the block number of receipts and the
 position of logs

Receipts always had block number 0, and logs always had a zero block hash,
transaction index and log index.
---
 tevm/evm.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 62514c1..1a2f130 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -967,17 +967,26 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	tx.Block = *b.Hash
 	tx.BlockNumber = *b.Number
 
-	for _, l := range c.State.Logs[l0:] {
+	// the log index is the position of the log within its block
+	first := l0
+	for first > 0 && c.State.Logs[first-1].BlockNumber == uint64(*b.Number) {
+		first--
+	}
+	for i, l := range c.State.Logs[l0:] {
 		copy(l.TxHash[:], tx.Hash[:])
+		copy(l.BlockHash[:], b.Hash[:])
+		l.TxIndex = uint(*tx.TxIndex)
+		l.Index = uint(l0 - first + i)
 	}
 
 	rx := &seth.Receipt{
-		Hash:       tx.Hash,
-		Index:      *tx.TxIndex,
-		GasUsed:    seth.Uint64(used),
-		Cumulative: b.GasUsed,
-		Logs:       lconv(c.State.Logs[l0:]),
-		Status:     seth.Uint64(status),
+		Hash:        tx.Hash,
+		Index:       *tx.TxIndex,
+		BlockNumber: *b.Number,
+		GasUsed:     seth.Uint64(used),
+		Cumulative:  b.GasUsed,
+		Logs:        lconv(c.State.Logs[l0:]),
+		Status:      seth.Uint64(status),
 	}
 	if tx.To == nil {
 		rx.Address = new(seth.Address)
-- 
2.43.0


From e4bee492100c954d3bca6be2985e3900d347a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 13/73] fix: undo the effects of a failed CreateAt

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 1a2f130..64467ee 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -810,6 +810,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	c.mu.Lock()
 
 	evm := c.evm(*sender)
+	snap := evm.StateDB.Snapshot()
 	evm.StateDB.CreateAccount(common.Address(*addr))
 	evm.StateDB.SetNonce(common.Address(*addr), 1)
 
@@ -821,6 +822,7 @@ func (c *Chain) CreateAt(addr, sender *seth.Address, code []byte) error {
 	static := false
 	ret, err := evm.Interpreter().Run(contract, nil, static)
 	if err != nil {
+		evm.StateDB.RevertToSnapshot(snap)
 		c.mu.Unlock()
 		return err
 	}
-- 
2.43.0


From 4f713c5a0d3ac8432649cdd9a9e42c8f042815d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 14/73] fix: do not create accounts when executing constant
 calls

---
 tevm/evm.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 64467ee..e21fcaf 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -204,7 +204,13 @@ func (s *gethState) AddBalance(addr common.Address, v *big.Int) {
 		s.Trace("AddBalance", addr.String(), v.String())
 	}
 	a := seth.Address(addr)
-	acct, _ := s.getAccount(&a)
+	acct, ok := s.getAccount(&a)
+	if !ok && v.Sign() == 0 {
+		// (*vm.EVM).StaticCall "touches" the callee
+		// by adding zero to its balance; this isn't
+		// supposed to bring the account into existence
+		return
+	}
 	bal := acct.Balance()
 	b := bal.Big()
 	b.Add(b, v)
-- 
2.43.0


From b068a6735ff8d128266f43ba39102c339e078ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 15/73] fix: give the first block of a forked chain its own
 hash

It kept the hash of block 100, so the block could not be looked up by its
number once it was sealed.
---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index e21fcaf..6459a39 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -706,6 +706,8 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 	// For convenience, start our chain at blocknum+1
 	n := seth.Uint64(blocknum + 1)
 	chain.State.Pending.Number = &n
+	h := seth.Hash(n2h(uint64(n)))
+	chain.State.Pending.Hash = &h
 
 	chain.State.Fallback.Client = c
 	chain.State.Fallback.Block = blocknum
-- 
2.43.0


From 761403af7075760012c9f37dc3f43af82a09171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 16/73] fix: keep the receipts of pending transactions when
 serializing a chain

---
 tevm/evm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 6459a39..acef54f 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1056,7 +1056,8 @@ func (c *Chain) MarshalJSON() ([]byte, error) {
 	b, err := json.Marshal(&struct {
 		State      State
 		Block2snap map[int64]int
-	}{c.State, c.block2snap})
+		Pendingrx  []*seth.Receipt
+	}{c.State, c.block2snap, c.pendingrx})
 	c.mu.Unlock()
 	return b, err
 }
@@ -1066,6 +1067,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	var s struct {
 		State      State
 		Block2snap map[int64]int
+		Pendingrx  []*seth.Receipt
 	}
 	if err := json.Unmarshal(b, &s); err != nil {
 		return err
@@ -1073,6 +1075,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	c.mu.Lock()
 	c.State = s.State
 	c.block2snap = s.Block2snap
+	c.pendingrx = s.Pendingrx
 	c.mu.Unlock()
 	return nil
 }
-- 
2.43.0


From 0eb90176bfed1279c5042f314c002923031df05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 17/73] fix: hold the chain's lock in all of its methods

The methods of Chain are documented to be threadsafe, but Copy, AtBlock,
Logs, NewAccount, Mine and Seal did not synchronize with anything.
---
 tevm/evm.go       | 27 +++++++++++++++++++++++++++
 tevm/transport.go | 10 +++++-----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index acef54f..d52ce9c 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -543,6 +543,8 @@ func (f *filter) matches(log *types.Log) bool {
 // Copy returns a new logical copy of the chain.
 // Copy avoids making a deep copy of the state.
 func (c *Chain) Copy() *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	cc := new(Chain)
 
 	// snapshot the current chain state
@@ -575,6 +577,13 @@ func copysnaps(m map[int64]int) map[int64]int {
 // and -2 is interpreted as the latest block (i.e. the
 // chain state just before the pending block).
 func (c *Chain) AtBlock(n int64) *Chain {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.atBlock(n)
+}
+
+// atBlock is AtBlock for callers that hold c.mu
+func (c *Chain) atBlock(n int64) *Chain {
 	var snap int
 	pending := int64(*c.State.Pending.Number)
 	switch n {
@@ -649,6 +658,8 @@ func lconv(l []*types.Log) []seth.Log {
 // the returned log values do not include logs
 // from that fallback chain.
 func (c *Chain) Logs() []seth.Log {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	return lconv(c.State.Logs)
 }
 
@@ -719,6 +730,8 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 func (c *Chain) NewAccount(ether int) seth.Address {
 	var addr seth.Address
 	rand.Read(addr[:])
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	if ether == 0 {
 		c.State.StateDB().CreateAccount(common.Address(addr))
 		return addr
@@ -945,6 +958,13 @@ func pretty(v interface{}) []byte {
 // rather than offering all of the gas in the block to the transaction,
 // which more faithfully mimics the behavior of an actual ethereum node.
 func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.mine(tx)
+}
+
+// mine is Mine for callers that hold c.mu
+func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error) {
 	b := c.State.Pending
 
 	// make up a tx hash:
@@ -1022,6 +1042,13 @@ func js(v interface{}) []byte {
 // same parameters (but with an update block number and hash,
 // and zeroed gas used).
 func (c *Chain) Seal() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.seal()
+}
+
+// seal is Seal for callers that hold c.mu
+func (c *Chain) seal() {
 	b := c.State.Pending
 
 	// for all transactions in the block,
diff --git a/tevm/transport.go b/tevm/transport.go
index 07249fa..a46a0de 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -291,7 +291,7 @@ func (c *Chain) deleteFilter(fd int) (bool, error) {
 
 // staticCall handles eth_call.
 func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", blocknum)
 	}
@@ -354,12 +354,12 @@ func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 
 // send handles eth_sendTransaction
 func (c *Chain) send(a *seth.Transaction) (*seth.Hash, error) {
-	_, h, err := c.Mine(a)
+	_, h, err := c.mine(a)
 	if err != nil {
 		return nil, err
 	}
 	// For now, 1 tx per block.
-	c.Seal()
+	c.seal()
 	return &h, nil
 }
 
@@ -393,7 +393,7 @@ func (c *Chain) transaction(h seth.Hash) (*seth.Transaction, error) {
 
 // balance handles eth_getBalance.
 func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
-	c = c.AtBlock(block)
+	c = c.atBlock(block)
 	if c == nil {
 		return nil, fmt.Errorf("unknown block number %d", block)
 	}
@@ -402,7 +402,7 @@ func (c *Chain) balance(addr *seth.Address, block int64) (*seth.Int, error) {
 
 // estimate handles eth_estimateGas.
 func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
-	c = c.AtBlock(blocknum)
+	c = c.atBlock(blocknum)
 	if c == nil {
 		return 0, fmt.Errorf("unknown block number %d", blocknum)
 	}
-- 
2.43.0


From 9ce6ab3e68b58c01f1dbd1fd85e342d43af3bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 18/73] fix: parse hex-encoded block numbers in requests to a
 chain

---
 tevm/transport.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index a46a0de..9667f8c 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -8,7 +8,6 @@ import (
 	"log"
 	"math/big"
 	"net/http"
-	"strconv"
 
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/core/vm"
@@ -50,12 +49,16 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 	case bytes.Equal(rawearliest, buf):
 		*b = 0
 	default:
-		// should be an integer
-		i, err := strconv.ParseInt(string(buf), 10, 64)
-		if err != nil {
+		// should be an integer; clients
+		// send block numbers as hex strings
+		var i seth.Int
+		if err := i.UnmarshalJSON(buf); err != nil {
 			return err
 		}
-		*b = blocknum(i)
+		if !i.Big().IsInt64() || i.Int64() < 0 {
+			return fmt.Errorf("bad block number %s", buf)
+		}
+		*b = blocknum(i.Int64())
 	}
 	return nil
 }
-- 
2.43.0


From 86043a37704b4ee6d449c9661853124789f2d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 19/73] fix: reject requests to a chain with malformed params

---
 tevm/transport.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 9667f8c..d367ea4 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -444,7 +444,9 @@ func marshal(from []json.RawMessage, to ...interface{}) error {
 		return fmt.Errorf("expected %d params; found %d", len(to), len(from))
 	}
 	for i := range from {
-		gross(from[i], to[i])
+		if err := gross(from[i], to[i]); err != nil {
+			return fmt.Errorf("bad param %d: %s", i, err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From af07c58ce157aa29f4e47f4b8bcc8ad12ff4fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 20/73] fix: let eth_getBlockByNumber yield the latest and
 pending blocks

---
 tevm/transport.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index d367ea4..747cfd4 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -182,13 +182,19 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		}
 		return c.getBlock(&h, all)
 	case "eth_getBlockByNumber":
-		var n seth.Int
 		var all bool
-		if err := marshal(params, &n, &all); err != nil {
+		if err := marshal(params, &b, &all); err != nil {
 			return nil, err
 		}
+		n := uint64(b)
+		switch b {
+		case -1: // pending
+			n = uint64(*c.State.Pending.Number)
+		case -2: // latest
+			n = uint64(*c.State.Pending.Number) - 1
+		}
 		// hack: block hashes are hashes of the block number
-		h := seth.Hash(n2h(uint64(n.Int64())))
+		h := seth.Hash(n2h(n))
 		return c.getBlock(&h, all)
 	case "eth_newFilter":
 		type newFilterReq struct {
-- 
2.43.0


From 8369e8002a96cb018add6d0299a232a8c705c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 21/73] fix: do not modify the pending block when yielding its
 transactions

---
 tevm/transport.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 747cfd4..455c7d4 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -323,7 +323,11 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 	var b *seth.Block
 	if bytes.Equal(h[:], c.State.Pending.Hash[:]) {
-		b = c.State.Pending
+		// this has to be a copy, since the result is
+		// modified below and escapes the chain's lock
+		p := *c.State.Pending
+		p.Transactions = append([]json.RawMessage(nil), p.Transactions...)
+		b = &p
 	} else {
 		buf := c.State.Blocks.Get(h[:])
 		if buf == nil {
-- 
2.43.0


From f7d522963cce7c4c73bbe836ad293e79611ed026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 22/73] fix: undo the effects of failed gas estimates

---
 tevm/transport.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 455c7d4..bc640a5 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -424,6 +424,7 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 	// TODO: incorporate gas price
 	evm.Context.GasPrice = big.NewInt(0)
 	snap := evm.StateDB.Snapshot()
+	defer evm.StateDB.RevertToSnapshot(snap)
 
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
@@ -444,8 +445,6 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 		gas -= rem
 	}
 
-	evm.StateDB.RevertToSnapshot(snap)
-
 	return seth.Uint64(gas), nil
 }
 
-- 
2.43.0


From 8c70890a0d9304ba2d98fc0a070018ce76af1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:03 +0000
Subject: [PATCH 23/73] fix: accept log filters that have a start but no end

---
 tevm/transport.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index bc640a5..550169b 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -232,7 +232,8 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 }
 
 func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.Hash) (int, error) {
-	if from > to {
+	// open-ended ranges are always ok
+	if from >= 0 && to >= 0 && from > to {
 		return 0, fmt.Errorf("cannot filter block range [%d,%d)", from, to)
 	}
 	c.filtcount++
-- 
2.43.0


From b3c0b66fecd8ac42e90d7f57dbb386b32644cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:07 +0000
Subject: [PATCH 24/73] fix: do not yield logs from before the latest block to
 filters that start there

---
 tevm/transport.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tevm/transport.go b/tevm/transport.go
index 550169b..81324f7 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -236,6 +236,14 @@ func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.
 	if from >= 0 && to >= 0 && from > to {
 		return 0, fmt.Errorf("cannot filter block range [%d,%d)", from, to)
 	}
+	// "latest" and "pending" mean the blocks
+	// that are so at the time of the request
+	switch from {
+	case -1:
+		from = blocknum(*c.State.Pending.Number)
+	case -2:
+		from = blocknum(*c.State.Pending.Number) - 1
+	}
 	c.filtcount++
 	if c.filters == nil {
 		c.filters = make(map[int]*filter)
-- 
2.43.0


From 7206a40c1360a9784f2f83abbffdf855e3a2bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 25/73] fix: do not yield the same log to a filter more than
 once

---
 tevm/transport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tevm/transport.go b/tevm/transport.go
index 81324f7..6d13c75 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -253,6 +253,9 @@ func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.
 		to:     to,
 		addr:   addr,
 		topics: topics,
+		// filterChanges only yields logs that were
+		// emitted since the filter was created
+		lastlog: len(c.State.Logs),
 	}
 	return c.filtcount, nil
 }
@@ -269,6 +272,7 @@ func (c *Chain) filterLogs(fd int) ([]seth.Log, error) {
 	}
 
 	out := make([]seth.Log, 0)
+	filt.lastlog = len(c.State.Logs)
 	for i := range c.State.Logs {
 		if filt.matches(c.State.Logs[i]) {
 			var next seth.Log
-- 
2.43.0


From 6b61fba6ade6ff8109365b6ab3b439123415ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 26/73] fix: do not mix up the responses of old and new
 connections

---
 client.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index b926f1c..a2c6419 100644
--- a/client.go
+++ b/client.go
@@ -28,15 +28,16 @@ type RPCTransport struct {
 	conn    io.ReadWriteCloser
 	enc     *json.Encoder // wraps send side of conn
 	pending map[int]*pending
-	res     RPCResponse
 	dial    func() (io.ReadWriteCloser, error)
 }
 
 func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 	dec := json.NewDecoder(conn)
 	for {
-		t.res = RPCResponse{}
-		err := dec.Decode(&t.res)
+		// this cannot be shared with the background
+		// loop of a connection that replaced this one
+		var res RPCResponse
+		err := dec.Decode(&res)
 		if err != nil {
 			log.Printf("seth: conn read: %s", err)
 			t.lock.Lock()
@@ -48,22 +49,22 @@ func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 			return
 		}
 		t.lock.Lock()
-		p := t.pending[t.res.ID]
+		p := t.pending[res.ID]
 		if p != nil {
-			delete(t.pending, t.res.ID)
+			delete(t.pending, res.ID)
 		}
 		t.lock.Unlock()
 		if p == nil {
-			log.Printf("spurious response ID %d", t.res.ID)
+			log.Printf("spurious response ID %d", res.ID)
 			continue
 		}
-		if t.res.Error.Code != 0 || t.res.Error.Message != "" {
-			c := t.res.Error
+		if res.Error.Code != 0 || res.Error.Message != "" {
+			c := res.Error
 			p.err = &c
-		} else if bytes.Equal(t.res.Result, rawnull) {
+		} else if bytes.Equal(res.Result, rawnull) {
 			p.err = ErrNotFound
 		} else {
-			*p.res = t.res
+			*p.res = res
 		}
 		close(p.notify)
 	}
-- 
2.43.0


From 56647cc2773416c0d15dffc610da43ab5a2792e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 27/73] fix: overwrite the previous value when decoding hex
 strings

---
 hex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hex.go b/hex.go
index 5b771ce..9bb6722 100644
--- a/hex.go
+++ b/hex.go
@@ -54,6 +54,9 @@ func hexdecode(dst, src []byte) error {
 	// make sure that it implicitly has a 0 nibble
 	// at the beginning rather than at the end.
 	addend := uint(len(src) & 1)
+	for i := range dst {
+		dst[i] = 0
+	}
 	for i, b := range src[2:] {
 		a, ok := fromhex(b)
 		if !ok {
-- 
2.43.0


From 733e453ddb3a541d32085eacf9b18fa788b7ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 28/73] fix: encode zero integers as 0x0

---
 hex.go  | 3 +++
 seth.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hex.go b/hex.go
index 9bb6722..f64d6c0 100644
--- a/hex.go
+++ b/hex.go
@@ -70,6 +70,9 @@ func hexdecode(dst, src []byte) error {
 
 // hexstring returns a hex string of the given data
 func hexstring(b []byte, trunc bool) []byte {
+	if trunc && len(b) == 0 {
+		return []byte("0x0")
+	}
 	buf := make([]byte, 2+2*len(b))
 	hex.Encode(buf[2:], b)
 	if trunc && len(buf) > 2 && buf[2] == '0' {
diff --git a/seth.go b/seth.go
index 1cfb47a..bebf2a6 100644
--- a/seth.go
+++ b/seth.go
@@ -221,7 +221,7 @@ func (i *Int) UnmarshalText(b []byte) error {
 	if err != nil {
 		return err
 	}
-	i.Big().SetBytes(buf)
+	i.Big().SetBytes(bytes.TrimLeft(buf, "\x00"))
 	return nil
 }
 
-- 
2.43.0


From 61d041373e0549074886e13d629b061eece44d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 29/73] fix: decode ABI addresses from their own position

---
 send.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/send.go b/send.go
index c95c308..84fe980 100644
--- a/send.go
+++ b/send.go
@@ -364,7 +364,10 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			}
 			copy(*v, cur)
 		case *Address:
-			copy(v[:], cur[12:])
+			if len(buf) < 32 {
+				return fmt.Errorf("no address returned at position %d", i)
+			}
+			copy(v[:], buf[12:])
 		case *Int:
 			(*big.Int)(v).SetBytes(buf)
 		case *big.Int:
-- 
2.43.0


From 846f71d769e3f3cb2052a04776f478fcdcc8f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 30/73] fix: decode ABI bytes32 values from their own position

---
 send.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/send.go b/send.go
index 84fe980..b7c115b 100644
--- a/send.go
+++ b/send.go
@@ -359,10 +359,8 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		did := true
 		switch v := v.(type) {
 		case *Data:
-			if len(*v) < 32 {
-				*v = make([]byte, 32)
-			}
-			copy(*v, cur)
+			*v = make([]byte, 32)
+			copy(*v, buf)
 		case *Address:
 			if len(buf) < 32 {
 				return fmt.Errorf("no address returned at position %d", i)
-- 
2.43.0


From 060a091383a3f551ea5f5bd26482a1135606f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 31/73] fix: decode the elements of ABI bytes32 arrays

---
 send.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/send.go b/send.go
index b7c115b..b6aa8b3 100644
--- a/send.go
+++ b/send.go
@@ -466,7 +466,8 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			s := make([]Data, length)
 			for i := range s {
 				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+				s[i] = make([]byte, 32)
+				copy(s[i], cur[o:o+32])
 			}
 			*v = DataSlice(s)
 		case *bool:
-- 
2.43.0


From 0ba5219b64f1e12ca546e941a2aeb7c4bdf68f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 32/73] fix: check the bounds of ABI values, and accept empty
 ones

---
 send.go | 97 +++++++++++++++++++++------------------------------------
 1 file changed, 35 insertions(+), 62 deletions(-)

diff --git a/send.go b/send.go
index b6aa8b3..e8c4748 100644
--- a/send.go
+++ b/send.go
@@ -326,6 +326,21 @@ func (d *ABIDecoder) UnmarshalText(v []byte) error {
 	return DecodeABI([]byte(data), (*d)...)
 }
 
+// dynamic finds the position and length of a dynamically-sized value
+// in 'cur' (with elements of 'size' bytes), given its offset word
+func dynamic(kind string, cur []byte, off *big.Int, min, size int64) (pos, length int64, err error) {
+	total := int64(len(cur))
+	if !off.IsInt64() || off.Int64() < min || off.Int64() > total-32 {
+		return 0, 0, fmt.Errorf("bad %s offset %d for data length returned (%d)", kind, off, total)
+	}
+	pos = off.Int64() + 32
+	n := new(big.Int).SetBytes(cur[pos-32 : pos])
+	if !n.IsInt64() || n.Int64() > (total-pos)/size {
+		return 0, 0, fmt.Errorf("bad %s length %d for data length returned (%d)", kind, n, total)
+	}
+	return pos, n.Int64(), nil
+}
+
 // DecodeABI decodes a solidity return value into its
 // constituent arguments.
 //
@@ -346,13 +361,10 @@ func DecodeABI(v []byte, args ...interface{}) error {
 	cur := v
 	offset := int64(0)
 	for i, v := range args {
-		if len(cur[offset:]) == 0 {
+		if int64(len(cur))-offset < 32 {
 			return fmt.Errorf("no argument returned at position %d", i)
 		}
-		buf := cur[offset:]
-		if len(buf) > 32 {
-			buf = buf[:32]
-		}
+		buf := cur[offset : offset+32]
 
 		// easy cases that don't involve converting types
 		// or handling variable-length types
@@ -362,9 +374,6 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			*v = make([]byte, 32)
 			copy(*v, buf)
 		case *Address:
-			if len(buf) < 32 {
-				return fmt.Errorf("no address returned at position %d", i)
-			}
 			copy(v[:], buf[12:])
 		case *Int:
 			(*big.Int)(v).SetBytes(buf)
@@ -381,53 +390,29 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		spare.SetBytes(buf)
 		switch v := v.(type) {
 		case *string:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad string offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length >= int64(len(cur)) {
-				return fmt.Errorf("bad string length %d for data length returned (%d)", length, len(cur))
+			dpos, length, err := dynamic("string", cur, &spare, offset+32, 1)
+			if err != nil {
+				return err
 			}
 			*v = string(cur[dpos : dpos+length])
 		case *[]byte:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			dpos, length, err := dynamic("bytes", cur, &spare, offset+32, 1)
+			if err != nil {
+				return err
 			}
 			*v = make([]byte, length)
 			copy(*v, cur[dpos:dpos+length])
 		case *Bytes:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			dpos, length, err := dynamic("bytes", cur, &spare, offset+32, 1)
+			if err != nil {
+				return err
 			}
 			*v = make([]byte, length)
 			copy(*v, cur[dpos:dpos+length])
 		case *IntSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			dpos, length, err := dynamic("slice", cur, &spare, offset+32, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Int, length)
 			for i := range s {
@@ -436,15 +421,9 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			}
 			*v = IntSlice(s)
 		case *AddrSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			dpos, length, err := dynamic("slice", cur, &spare, offset+32, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Address, length)
 			for i := range s {
@@ -453,15 +432,9 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			}
 			*v = AddrSlice(s)
 		case *DataSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			dpos, length, err := dynamic("slice", cur, &spare, offset+32, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Data, length)
 			for i := range s {
-- 
2.43.0


From 980f36218df393dd7d2ef2cdb9024cd9908f5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 33/73] fix: encode negative ABI integers as two's complement

---
 send.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/send.go b/send.go
index e8c4748..6641280 100644
--- a/send.go
+++ b/send.go
@@ -43,7 +43,15 @@ func (a *Address) internal() {}
 // EncodeABI implements EtherType
 func (i *Int) EncodeABI(v []byte) []byte {
 	var w [32]byte
-	bits := (*big.Int)(i).Bytes()
+	n := i.Big()
+	if n.Sign() < 0 {
+		// negative numbers are in two's complement
+		if n.Cmp(new(big.Int).Lsh(big.NewInt(-1), 255)) < 0 {
+			panic("ABI encoding: integer overflow")
+		}
+		n = new(big.Int).Add(n, new(big.Int).Lsh(big.NewInt(1), 256))
+	}
+	bits := n.Bytes()
 	if len(bits) > 32 {
 		panic("ABI encoding: integer overflow")
 	}
-- 
2.43.0


From 6a742ebc8009dfa0e2931c276b1389508ccbe13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 34/73] fix: have Drain recognize transactions sent by the
 sender

---
 sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 6f4a522..fb650bc 100644
--- a/sender.go
+++ b/sender.go
@@ -207,7 +207,7 @@ func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 		}
 		var t *Transaction
 		for i := range txs {
-			if txs[i].From == s.Addr {
+			if txs[i].From != nil && *txs[i].From == *s.Addr {
 				t = &txs[i]
 				break
 			}
-- 
2.43.0


From b3f3d7699d7bccce30bc1ab303c4b391e7c89b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 35/73] fix: look for pending transactions in the pending block

---
 sender.go | 2 +-
 seth.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sender.go b/sender.go
index fb650bc..ac8beb5 100644
--- a/sender.go
+++ b/sender.go
@@ -197,7 +197,7 @@ func (s *Sender) Wait(h *Hash) error {
 // contain no transactions from this account.
 func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 	for {
-		p, err := s.GetBlock(-1, true)
+		p, err := s.GetBlock(Pending, true)
 		if err != nil {
 			return err
 		}
diff --git a/seth.go b/seth.go
index bebf2a6..46d3c40 100644
--- a/seth.go
+++ b/seth.go
@@ -521,7 +521,7 @@ func (c *Client) BlockNumber() (int64, error) {
 
 // Pending returns the list of pending transactions.
 func (c *Client) Pending() ([]Transaction, error) {
-	b, err := c.GetBlock(-1, true)
+	b, err := c.GetBlock(Pending, true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 247d4597db11e2a3964815eb6a89904932647d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 36/73] fix: do not truncate the gas price of the transaction
 to cancel

---
 sender.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index ac8beb5..569bccc 100644
--- a/sender.go
+++ b/sender.go
@@ -174,7 +174,8 @@ func (s *Sender) Cancel(h *Hash) (Hash, error) {
 	if s.GasPrice.Cmp(&tx.GasPrice) > 0 {
 		opts.GasPrice = &s.GasPrice
 	} else {
-		opts.GasPrice = NewInt(tx.GasPrice.Int64() + 1)
+		price := new(big.Int).Add(tx.GasPrice.Big(), big.NewInt(1))
+		opts.GasPrice = (*Int)(price)
 	}
 	return s.Call(&opts)
 }
-- 
2.43.0


From 8537f4c08e01559bd505a4a61d228ab58a2e1f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 37/73] fix: do not report an error from a filter that has been
 closed

---
 filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index e11b991..1cb8380 100644
--- a/filter.go
+++ b/filter.go
@@ -31,7 +31,11 @@ func (f *Filter) Out() <-chan *Log { return f.out }
 
 func (f *Filter) seterr(err error) {
 	f.lock.Lock()
-	f.err = err
+	// once the filter has been uninstalled,
+	// we expect fetching logs to fail
+	if !f.closed {
+		f.err = err
+	}
 	f.lock.Unlock()
 }
 
-- 
2.43.0


From dc6dfa04e8c211d68963b10bff573730b5bc5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 38/73] fix: do not use the same cache entry for different
 lists of sources

---
 compile.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compile.go b/compile.go
index ce1bc72..6ba5a0c 100644
--- a/compile.go
+++ b/compile.go
@@ -7,7 +7,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"hash"
-	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -315,8 +314,10 @@ func cachename(sources []Source) string {
 	h0 := keccak.New256()
 	h1 := keccak.New256()
 	for i := range sources {
-		io.WriteString(h0, sources[i].Filename)
-		io.WriteString(h1, sources[i].Body)
+		// the lengths keep different lists of
+		// sources from having the same contents
+		fmt.Fprintf(h0, "%d:%s", len(sources[i].Filename), sources[i].Filename)
+		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)
 	}
 	// filename is 'name hash'-'content hash'.bundle
 	// so that we can to a quick glob search to remove
-- 
2.43.0


From 30a5d00df3d2ff0a53942f62ac19b631f7629533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 39/73] fix: do not remove files outside of the compiler cache

---
 compile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index 6ba5a0c..1f044c0 100644
--- a/compile.go
+++ b/compile.go
@@ -330,7 +330,8 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	f, err := os.Open(name)
 	if err != nil {
 		// let's look for stale builds and clean them up
-		i := strings.IndexByte(name, '-')
+		// (the directory name may also contain '-')
+		i := strings.LastIndexByte(name, '-')
 		if i != -1 && i != len(name)-1 {
 			all, err := filepath.Glob(name[:i+1] + "*")
 			if err == nil {
-- 
2.43.0


From aa89af4f7759de1f44fd2024177da02a2e0c509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 40/73] fix: associate compiled sources with their source IDs

---
 compile.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/compile.go b/compile.go
index 1f044c0..82aa835 100644
--- a/compile.go
+++ b/compile.go
@@ -252,9 +252,16 @@ func (s *solcout) toBundle() *CompiledBundle {
 	for _, cs := range s.Contracts {
 		nc += len(cs)
 	}
+	// not every source has to have a contract
+	ns := 0
+	for _, id := range s.Sources {
+		if id.ID >= ns {
+			ns = id.ID + 1
+		}
+	}
 	b := &CompiledBundle{
-		Filenames: make([]string, len(s.Contracts)),
-		Sources:   make([]string, len(s.Contracts)),
+		Filenames: make([]string, ns),
+		Sources:   make([]string, ns),
 	}
 	// XXX: assume IDs are 0-indexed...
 	for name, id := range s.Sources {
@@ -438,7 +445,7 @@ func compile(sources []Source) (*CompiledBundle, error) {
 		}
 	}
 	for i := range b.Sources {
-		b.Sources[i] = sources[i].Body
+		b.Sources[i] = blob.Sources[b.Filenames[i]].Content
 	}
 	return b, nil
 }
-- 
2.43.0


From bbd95de74ae929c1f5daa105e11403bb2a580275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 41/73] fix: count push instructions once when mapping pcs to
 sources

---
 compile.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 82aa835..9d2f705 100644
--- a/compile.go
+++ b/compile.go
@@ -168,12 +168,12 @@ func (c *CompiledContract) pc2info(pc int) *srcinfo {
 func (c *CompiledContract) compilePos() {
 	opnum := 0
 	var out []int
-	for i := range c.Code {
+	for i := 0; i < len(c.Code); i++ {
 		width := 0
 		b := c.Code[i]
 		out = append(out, opnum)
 		if b >= 0x60 && b < 0x80 {
-			width = int(b - 0x59)
+			width = int(b - 0x5f)
 		}
 		// for multi-byte instructions,
 		// any pc that points into the instruction
@@ -181,6 +181,7 @@ func (c *CompiledContract) compilePos() {
 		for j := 0; j < width; j++ {
 			out = append(out, opnum)
 		}
+		i += width
 		opnum++
 	}
 	c.pos = out
-- 
2.43.0


From 6fc0ea30f960489b3b4929856e4f9f07f0b47e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 42/73] fix: do not crash on instructions that have no source

---
 compile.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index 9d2f705..bb6c809 100644
--- a/compile.go
+++ b/compile.go
@@ -294,7 +294,15 @@ func (b *CompiledBundle) SourceOf(c *CompiledContract, pc int) string {
 	if info == nil {
 		return ""
 	}
-	return b.Sources[info.f][info.s : info.s+info.l]
+	// generated code doesn't have a source (the file id is -1)
+	if info.f < 0 || info.f >= len(b.Sources) {
+		return ""
+	}
+	src := b.Sources[info.f]
+	if info.s < 0 || info.l < 0 || info.s+info.l > len(src) {
+		return ""
+	}
+	return src[info.s : info.s+info.l]
 }
 
 func compileError(errors []solcerror) error {
-- 
2.43.0


From 2775422b5a5b0b8eed9b7197fdfe48e75919e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 43/73] fix: reject keyfiles with malformed parameters

---
 keyfile.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index c01770a..13ed808 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -73,6 +73,9 @@ func pbkdf2Derive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 		return nil, fmt.Errorf("pbkdf2 salt: %s", err)
 	}
 
+	if p.Keylen < 0 {
+		return nil, fmt.Errorf("bad dklen %d for pbkdf2", p.Keylen)
+	}
 	return pbkdf2.Key(pass, salt, p.Iters, p.Keylen, h), nil
 }
 
@@ -119,6 +122,9 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	if err != nil {
 		return fmt.Errorf("bad aes-128-ctr iv: %s", err)
 	}
+	if len(iv) != aes.BlockSize {
+		return fmt.Errorf("bad aes-128-ctr iv length %d", len(iv))
+	}
 	block, err := aes.NewCipher(key[:16])
 	if err != nil {
 		return err
@@ -152,6 +158,11 @@ func (k *Keyfile) Private(passphrase []byte) (*PrivateKey, error) {
 	if err != nil {
 		return nil, err
 	}
+	// the first half of the key is used for
+	// encryption, and the second half for the mac
+	if len(key) < 32 {
+		return nil, fmt.Errorf("derived key is too short (%d bytes)", len(key))
+	}
 	ciphertext, err := k.ciphertext()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From cec77c2de733d31569aacc46033e3b12d3e8cb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 44/73] fix: reject keyfiles whose private key has the wrong
 length

---
 keyfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index 13ed808..1aa8608 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -185,6 +185,9 @@ func (k *Keyfile) Private(passphrase []byte) (*PrivateKey, error) {
 		return nil, err
 	}
 	priv := new(PrivateKey)
+	if len(ciphertext) != len(priv) {
+		return nil, fmt.Errorf("bad private key length %d", len(ciphertext))
+	}
 	copy(priv[:], ciphertext)
 	if k.Address != "" {
 		want, err := hex.DecodeString(k.Address)
-- 
2.43.0


From f492dbe75f8076fe185d7887ce463311c603da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 45/73] fix: overwrite the previous amount when parsing .5

---
 cc/currency.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cc/currency.go b/cc/currency.go
index 12b8c61..979875c 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -123,6 +123,8 @@ func parseDigits(num *big.Int, s string, digits int) (*big.Int, error) {
 			return nil, errors.New("cc: error parsing integer part: " + s)
 		}
 		exp10(num, digits)
+	} else {
+		num.SetInt64(0)
 	}
 	if fp != "" {
 		if !isdigit(rune(fp[0])) {
-- 
2.43.0


From eb1aaca2b2de1af517de6233975c1a1b4e639b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 46/73] fix: sign with the key that was selected

---
 cmd/eth/keys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/eth/keys.go b/cmd/eth/keys.go
index b515f2f..cf1a9ba 100644
--- a/cmd/eth/keys.go
+++ b/cmd/eth/keys.go
@@ -156,6 +156,7 @@ func signer() (seth.Signer, seth.Address) {
 		fatalf("bad keyspec %q\n", err)
 	}
 	for _, kd := range keys() {
+		kd := kd // matched must not point to the loop variable
 		if re.MatchString(kd.addr.String()) || re.MatchString(kd.id) {
 			if matched != nil {
 				fatalf("ambiguous key spec %q matches more than one key\n", spec)
-- 
2.43.0


From 04de9f63b8a84daffdf98bed1149d055220d2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 47/73] fix: accept every integer that fits the argument type

---
 cmd/eth/call.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index c19d13a..8f6fd0b 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -79,7 +79,16 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 	if v.Sign() < 0 && !signed {
 		fatalf("value %q not allowed to be signed\n", s)
 	}
-	if v.BitLen() >= bitwidth {
+	bits := v.BitLen()
+	if signed {
+		// account for the sign bit; note that
+		// the most negative number is in range
+		if v.Sign() < 0 {
+			bits = new(big.Int).Not(v).BitLen()
+		}
+		bits++
+	}
+	if bits > bitwidth {
 		fatalf("value %q overflows bit-width %d", s, bitwidth)
 	}
 	return (*seth.Int)(v)
-- 
2.43.0


From bde272c0d3f936915f6e71e93d98fbe4169dc720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 48/73] fix: strip the square braces from array arguments

---
 cmd/eth/call.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 8f6fd0b..be50827 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -95,11 +95,12 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 }
 
 func etherarr(typ string, val string) seth.EtherType {
-	if val[0] != '[' || val[len(val)-1] != ']' {
+	if len(val) < 2 || val[0] != '[' || val[len(val)-1] != ']' {
 		fatalf("array values must be enclosed with square braces\n")
 	}
+	val = val[1 : len(val)-1]
 	parts := strings.Split(val, ",")
-	if len(parts) == 0 {
+	if val == "" {
 		// doesn't really matter what type this is...
 		s := make(seth.IntSlice, 0)
 		return &s
-- 
2.43.0


From 02ecc79748b47195758eeb630d163759eafeeddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 49/73] fix: do not crash on contracts that need to be linked

---
 compile.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/compile.go b/compile.go
index bb6c809..e422007 100644
--- a/compile.go
+++ b/compile.go
@@ -240,15 +240,7 @@ func (c *CompiledBundle) Contract(name string) *CompiledContract {
 	return nil
 }
 
-func h2b(s string) []byte {
-	bits, err := hex.DecodeString(s)
-	if err != nil {
-		panic(err)
-	}
-	return bits
-}
-
-func (s *solcout) toBundle() *CompiledBundle {
+func (s *solcout) toBundle() (*CompiledBundle, error) {
 	nc := 0
 	for _, cs := range s.Contracts {
 		nc += len(cs)
@@ -270,15 +262,20 @@ func (s *solcout) toBundle() *CompiledBundle {
 	}
 	for _, contracts := range s.Contracts {
 		for contract, out := range contracts {
+			code, err := hex.DecodeString(out.EVM.Bytecode.Object)
+			if err != nil {
+				// the code isn't linked
+				return nil, fmt.Errorf("bytecode of %s: %s", contract, err)
+			}
 			b.Contracts = append(b.Contracts, CompiledContract{
 				Name:      contract,
-				Code:      h2b(out.EVM.Bytecode.Object),
+				Code:      code,
 				Sourcemap: out.EVM.Bytecode.Sourcemap,
 				ABI:       out.ABI,
 			})
 		}
 	}
-	return b
+	return b, nil
 }
 
 // SourceOf returns the source line (text) of the given pc.
@@ -447,7 +444,10 @@ func compile(sources []Source) (*CompiledBundle, error) {
 	if err := compileError(jsout.Errors); err != nil {
 		return nil, fmt.Errorf("solc compilation error: %s", err)
 	}
-	b := jsout.toBundle()
+	b, err := jsout.toBundle()
+	if err != nil {
+		return nil, err
+	}
 	for i := range jsout.Errors {
 		if jsout.Errors[i].Type == "Warning" {
 			b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)
-- 
2.43.0


From c7317e01e20db87b3b6fe705554114002b9072c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 50/73] fix: do not overwrite the logs of copies of a chain
 that is reverted

---
 tevm/evm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index d52ce9c..7845992 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -430,7 +430,9 @@ func (s *gethState) RevertToSnapshot(v int) {
 	s.Storage.Rollback(ns.State)
 	s.Transactions.Rollback(ns.TXs)
 	s.Receipts.Rollback(ns.RXs)
-	s.Logs = s.Logs[:ns.LogLen]
+	// copies of the chain may still refer to the logs
+	// being dropped, so appends have to reallocate
+	s.Logs = s.Logs[:ns.LogLen:ns.LogLen]
 
 	// make sure we can't roll forward
 	s.Snapshots = snaps[:v:v]
-- 
2.43.0


From 01248f495ed18df23c3b5dfdc555b6841820424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 51/73] fix: do not bring back code of the remote chain that
 was overwritten with nothing

---
 tevm/evm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 7845992..5101f3a 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -290,6 +290,11 @@ func (s *gethState) SetCode(addr common.Address, data []byte) {
 	if s.Trace != nil {
 		s.Trace("SetCode", addr.String(), data)
 	}
+	if data == nil {
+		// distinguish no code from code that
+		// has to be fetched from the fallback
+		data = []byte{}
+	}
 	s.Code.Insert(addr[:], data)
 }
 
-- 
2.43.0


From 63b492c583b72bc72f4f7906b9b9b86430c1c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 52/73] fix: treat remote contracts without nonce and balance
 as existing accounts

---
 tevm/evm.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 5101f3a..bbcf2b7 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -175,7 +175,13 @@ func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
 		panic("fallback GetNonce: " + err.Error())
 	}
 	if nonce == 0 && bal.IsZero() {
-		return acct, false
+		code, err := c.GetCodeAt(addr, s.Fallback.Block)
+		if err != nil {
+			panic("fallback GetCode: " + err.Error())
+		}
+		if len(code) == 0 {
+			return acct, false
+		}
 	}
 
 	acct.SetNonce(uint64(nonce))
-- 
2.43.0


From e134bdb40aa1f82c41a65e330a6f6f476e076d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 53/73] fix: drop the log filters of a chain that is replaced
 by loading another one

---
 tevm/evm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index bbcf2b7..4c42341 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1116,6 +1116,7 @@ func (c *Chain) UnmarshalJSON(b []byte) error {
 	c.State = s.State
 	c.block2snap = s.Block2snap
 	c.pendingrx = s.Pendingrx
+	c.filters = nil // these refer to the logs of the old state
 	c.mu.Unlock()
 	return nil
 }
-- 
2.43.0


From e0f861f9e8e27072540f62481349c2a5d4c56684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:17 +0000
Subject: [PATCH 54/73] fix: do not report contracts of the remote chain as
 empty accounts

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 4c42341..62f2f49 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -394,7 +394,7 @@ func (s *gethState) Empty(addr common.Address) bool {
 	a := seth.Address(addr)
 	acct, ok := s.getAccount(&a)
 	bal := acct.Balance()
-	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.Code.Get(a[:])) == 0)
+	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.getCode(&a)) == 0)
 }
 
 func (s *gethState) Suicide(addr common.Address) bool {
-- 
2.43.0


From 47f03956f00d4dd92d1912fc91ab29755b0fdcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 55/73] fix: do not abort the calls in flight for a request
 that cannot be encoded

---
 client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index a2c6419..5c9bbaf 100644
--- a/client.go
+++ b/client.go
@@ -123,6 +123,12 @@ func (c *Client) Do(method string, params []json.RawMessage, result interface{})
 }
 
 func (t *RPCTransport) Execute(req *RPCRequest, res *RPCResponse) error {
+	// this fails for a request that has no JSON form,
+	// which must not affect the requests in flight
+	buf, err := json.Marshal(req)
+	if err != nil {
+		return err
+	}
 	notify := make(chan struct{}, 1)
 	t.lock.Lock()
 	if t.enc == nil {
@@ -133,7 +139,7 @@ func (t *RPCTransport) Execute(req *RPCRequest, res *RPCResponse) error {
 	}
 	p := &pending{notify: notify, res: res}
 	t.pending[req.ID] = p
-	err := t.enc.Encode(req)
+	err = t.enc.Encode(json.RawMessage(buf))
 	if err != nil {
 		t.abort(err)
 	}
-- 
2.43.0


From 962c85bd114f778920150156886fda18617ac33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:40 +0000
Subject: [PATCH 56/73] fix: do not report the address of a contract whose
 creation failed

---
 sender.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 569bccc..fd55523 100644
--- a/sender.go
+++ b/sender.go
@@ -87,7 +87,8 @@ func (s *Sender) Create(code []byte, value *Int) (Address, error) {
 	if err != nil {
 		return Address{}, err
 	}
-	if r.Address == nil {
+	// nodes report an address for failed creations, too
+	if r.Address == nil || r.Threw() {
 		return Address{}, fmt.Errorf("txhash %s: contract not created", &h)
 	}
 	return *r.Address, nil
-- 
2.43.0


From a2b6357f10561b345aebd0d606da4f423282907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:14 +0000
Subject: [PATCH 57/73] fix: reject nonces that overflow instead of returning
 their low bits

---
 seth.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seth.go b/seth.go
index 46d3c40..dbdb0c5 100644
--- a/seth.go
+++ b/seth.go
@@ -562,9 +562,9 @@ func (c *Client) GetNonceAt(addr *Address, blocknum int64) (int64, error) {
 	buf, _ := json.Marshal(addr)
 	params[0] = buf
 	params[1] = itobs(blocknum)
-	var num Int
+	var num Uint64
 	err := c.Do("eth_getTransactionCount", params[:], &num)
-	return num.Int64(), err
+	return int64(num), err
 }
 
 // GetNonce gets the account nonce for an address in the latest block.
-- 
2.43.0


From 00c28b61d0ac0454bd587db860764f2b3eece13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 58/73] fix: reject ABI integers that overflow the Go integer
 they are decoded into

---
 send.go | 82 ++++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 10 deletions(-)

diff --git a/send.go b/send.go
index 6641280..9826038 100644
--- a/send.go
+++ b/send.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math/big"
+	"strconv"
 	"strings"
 )
 
@@ -349,6 +350,27 @@ func dynamic(kind string, cur []byte, off *big.Int, min, size int64) (pos, lengt
 	return pos, n.Int64(), nil
 }
 
+// unsigned converts a word to an unsigned integer of the given width
+func unsigned(w *big.Int, bits int) (uint64, error) {
+	if w.BitLen() > bits {
+		return 0, fmt.Errorf("integer %d overflows uint%d", w, bits)
+	}
+	return w.Uint64(), nil
+}
+
+// signed converts a word, which is in two's
+// complement, to a signed integer of the given width
+func signed(w *big.Int, bits int) (int64, error) {
+	n := w
+	if w.Bit(255) == 1 {
+		n = new(big.Int).Sub(w, new(big.Int).Lsh(big.NewInt(1), 256))
+	}
+	if i := n.Int64(); n.IsInt64() && i>>uint(bits-1) == i>>63 {
+		return i, nil
+	}
+	return 0, fmt.Errorf("integer %d overflows int%d", n, bits)
+}
+
 // DecodeABI decodes a solidity return value into its
 // constituent arguments.
 //
@@ -454,25 +476,65 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		case *bool:
 			*v = spare.Sign() != 0
 		case *uint8:
-			*v = uint8(spare.Uint64())
+			n, err := unsigned(&spare, 8)
+			if err != nil {
+				return err
+			}
+			*v = uint8(n)
 		case *uint16:
-			*v = uint16(spare.Uint64())
+			n, err := unsigned(&spare, 16)
+			if err != nil {
+				return err
+			}
+			*v = uint16(n)
 		case *uint32:
-			*v = uint32(spare.Uint64())
+			n, err := unsigned(&spare, 32)
+			if err != nil {
+				return err
+			}
+			*v = uint32(n)
 		case *uint64:
-			*v = uint64(spare.Uint64())
+			n, err := unsigned(&spare, 64)
+			if err != nil {
+				return err
+			}
+			*v = uint64(n)
 		case *int8:
-			*v = int8(spare.Int64())
+			n, err := signed(&spare, 8)
+			if err != nil {
+				return err
+			}
+			*v = int8(n)
 		case *int16:
-			*v = int16(spare.Int64())
+			n, err := signed(&spare, 16)
+			if err != nil {
+				return err
+			}
+			*v = int16(n)
 		case *int32:
-			*v = int32(spare.Int64())
+			n, err := signed(&spare, 32)
+			if err != nil {
+				return err
+			}
+			*v = int32(n)
 		case *int64:
-			*v = int64(spare.Int64())
+			n, err := signed(&spare, 64)
+			if err != nil {
+				return err
+			}
+			*v = int64(n)
 		case *int:
-			*v = int(spare.Int64())
+			n, err := signed(&spare, strconv.IntSize)
+			if err != nil {
+				return err
+			}
+			*v = int(n)
 		case *uint:
-			*v = uint(spare.Uint64())
+			n, err := unsigned(&spare, strconv.IntSize)
+			if err != nil {
+				return err
+			}
+			*v = uint(n)
 		default:
 			return fmt.Errorf("unrecognized type %T", v)
 		}
-- 
2.43.0


From 7f74f7df0f06f79aedf5d6ab1ed138c8ef973470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 59/73] fix: refuse signatures that no key can have made

---
 signature.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8017350..e2e506a 100644
--- a/signature.go
+++ b/signature.go
@@ -82,7 +82,7 @@ func (z *Signature) parts() (r, s big.Int, v int, ok bool) {
 	if s.Sign() == 0 {
 		return
 	}
-	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0
+	ok = r.Cmp(order) < 0 && s.Cmp(halforder) <= 0 && v <= 1
 	return
 }
 
@@ -114,6 +114,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 	}
 
 	CurvePoint(&r, &ry, v)
+	if !curve.IsOnCurve(&r, &ry) {
+		return nil, errors.New("invalid signature")
+	}
 
 	ri.ModInverse(&r, order)
 	si.Mul(&ri, &s)
@@ -128,6 +131,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 
 	ex, ey := curve.ScalarBaseMult(e.Bytes())
 	qx, qy := curve.Add(sx, sy, ex, ey)
+	if qx.Sign() == 0 && qy.Sign() == 0 {
+		return nil, errors.New("invalid signature")
+	}
 
 	return NewPublicKey(qx, qy), nil
 }
-- 
2.43.0


From 5d770e2e9e8ae2ca8a34b4f3457175db3ef442f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 60/73] fix: refuse scrypt parameters that make the KDF panic

---
 keyfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index 1aa8608..d9b977b 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -95,6 +95,9 @@ func scryptDerive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if p.Keylen < 0 || p.R <= 0 || p.P <= 0 {
+		return nil, fmt.Errorf("bad scrypt params: dklen %d, r %d, p %d", p.Keylen, p.R, p.P)
+	}
 	return scrypt.Key(pass, salt, p.N, p.R, p.P, p.Keylen)
 }
 
-- 
2.43.0


From c413a3eb5578f1895885e6cd7d5228d2652eed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 61/73] fix: don't write to receipts that are shared with
 copies of the chain

---
 tevm/evm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 62f2f49..c5531f5 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -1067,9 +1067,10 @@ func (c *Chain) seal() {
 	// for all transactions in the block,
 	// produce a transaction receipt
 	for i := range c.pendingrx {
-		rx := c.pendingrx[i]
+		// a copy of the chain may share this receipt
+		rx := *c.pendingrx[i]
 		copy(rx.BlockHash[:], b.Hash[:])
-		c.State.Receipts.Insert(rx.Hash[:], encode(rx))
+		c.State.Receipts.Insert(rx.Hash[:], encode(&rx))
 	}
 	c.pendingrx = c.pendingrx[:0]
 
-- 
2.43.0


From 3d187aabdad7b52e88263c8014f992fa0bfd57a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 62/73] fix: no source for counters and positions beyond the
 end

---
 compile.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index e422007..19344a7 100644
--- a/compile.go
+++ b/compile.go
@@ -155,7 +155,8 @@ func mustint(s string) int {
 }
 
 func (c *CompiledContract) pc2info(pc int) *srcinfo {
-	if pc >= len(c.pos) {
+	// the operand of the last instruction may be cut off
+	if pc < 0 || pc >= len(c.Code) {
 		return nil
 	}
 	n := c.pos[pc]
@@ -296,7 +297,7 @@ func (b *CompiledBundle) SourceOf(c *CompiledContract, pc int) string {
 		return ""
 	}
 	src := b.Sources[info.f]
-	if info.s < 0 || info.l < 0 || info.s+info.l > len(src) {
+	if info.s < 0 || info.l < 0 || info.s > len(src) || info.l > len(src)-info.s {
 		return ""
 	}
 	return src[info.s : info.s+info.l]
-- 
2.43.0


From 95a320bc5038db9a0047467b8486d4aba8ec8afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 63/73] fix: read source map entries that have a modifier depth

---
 compile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compile.go b/compile.go
index 19344a7..a0bd61a 100644
--- a/compile.go
+++ b/compile.go
@@ -197,6 +197,9 @@ func (c *CompiledContract) compileSourcemap() {
 		}
 		sections := strings.Split(ops[i], ":")
 		switch len(sections) {
+		case 5:
+			// newer compilers add the modifier depth
+			fallthrough
 		case 4:
 			if len(sections[3]) > 0 {
 				out[i].j = sections[3][0]
-- 
2.43.0


From 3fa9ad4119a92efe1088aae86f2c4ea22ecfb7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 64/73] fix: don't take the cache's directory name for a glob

---
 compile.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/compile.go b/compile.go
index a0bd61a..3d8dcf5 100644
--- a/compile.go
+++ b/compile.go
@@ -347,13 +347,17 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	f, err := os.Open(name)
 	if err != nil {
 		// let's look for stale builds and clean them up
-		// (the directory name may also contain '-')
-		i := strings.LastIndexByte(name, '-')
-		if i != -1 && i != len(name)-1 {
-			all, err := filepath.Glob(name[:i+1] + "*")
+		// (the directory name may also contain '-',
+		// and characters that are special to a glob)
+		dir, base := filepath.Split(name)
+		i := strings.LastIndexByte(base, '-')
+		if i != -1 && i != len(base)-1 {
+			all, err := ioutil.ReadDir(dir)
 			if err == nil {
-				for i := range all {
-					os.Remove(all[i])
+				for j := range all {
+					if strings.HasPrefix(all[j].Name(), base[:i+1]) {
+						os.Remove(filepath.Join(dir, all[j].Name()))
+					}
 				}
 			}
 		}
-- 
2.43.0


From e22d69e7be7d2603ce334bf2bad637fcef7a7cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 65/73] fix: verify the checksum of cached bundles

---
 compile.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 3d8dcf5..4626d7c 100644
--- a/compile.go
+++ b/compile.go
@@ -369,8 +369,12 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	if err != nil {
 		return nil, false
 	}
-	d := msgp.NewReader(r)
-	if err := b.DecodeMsg(d); err != nil {
+	// the checksum is at the end
+	buf, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, false
+	}
+	if _, err := b.UnmarshalMsg(buf); err != nil {
 		return nil, false
 	}
 	return b, true
-- 
2.43.0


From 6c8f930527c0c6f309f84fa79de5217bcbd00ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 66/73] fix: cmd/eth: arguments of signed types are parsed as
 signed

---
 cmd/eth/call.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index be50827..64ee562 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -148,17 +148,17 @@ func parsearg(typ, val string) seth.EtherType {
 	case "bytes":
 		return etherbytes(val)
 	case "int8", "uint8":
-		return etherint(val, 8, val == "int8")
+		return etherint(val, 8, typ == "int8")
 	case "int16", "uint16":
-		return etherint(val, 16, val == "int16")
+		return etherint(val, 16, typ == "int16")
 	case "int32", "uint32":
-		return etherint(val, 32, val == "int32")
+		return etherint(val, 32, typ == "int32")
 	case "int64", "uint64":
-		return etherint(val, 64, val == "int64")
+		return etherint(val, 64, typ == "int64")
 	case "int128", "uint128":
-		return etherint(val, 128, val == "int128")
+		return etherint(val, 128, typ == "int128")
 	case "int256", "uint256":
-		return etherint(val, 256, val == "int256")
+		return etherint(val, 256, typ == "int256")
 	case "address":
 		return etheraddr(val)
 	}
-- 
2.43.0


From b88306861abd70430bf82759ef706274091b4bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 67/73] fix: cmd/eth: refusing a signature does not panic for
 want of arguments

---
 cmd/eth/call.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 64ee562..e780dab 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -181,7 +181,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 	if lparen == -1 || rparen == -1 ||
 		rparen-lparen < 1 ||
 		rparen != len(fn)-1 {
-		fatalf("bad function signature %q (bad parens)\n", args[1])
+		fatalf("bad function signature %q (bad parens)\n", fn)
 	}
 
 	fname := fn[:lparen]
@@ -202,7 +202,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 			}
 		}
 		if !found {
-			fatalf("signature %q (jump table %x) not found in code\n", args[1], h[:4])
+			fatalf("signature %q (jump table %x) not found in code\n", fn, h[:4])
 		}
 	}
 
-- 
2.43.0


From ff6ef0ac6e94dde717c17970fc6d8690e5408c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 68/73] fix: cmd/eth: call refuses arguments beyond those of
 the signature

---
 cmd/eth/call.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index e780dab..ff4254e 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -236,6 +236,9 @@ func call(fs *flag.FlagSet) {
 
 	c := client()
 	callargs := parsefn(c, addr, args[1], args[2:])
+	if extra := len(args) - 2 - len(callargs); extra > 0 {
+		fatalf("%d arguments too many for %q\n", extra, args[1])
+	}
 
 	sign, from := signer()
 	opts := seth.CallOpts{
-- 
2.43.0


From 32117d3b2bc61c4ed1f0a7006b1c2e3064d6d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 69/73] fix: cmd/eth: the gas price of a call is the one asked
 for

---
 cmd/eth/call.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index ff4254e..8ca70e3 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -222,6 +222,15 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 	return callargs
 }
 
+// gasprice produces the gas price in wei
+func gasprice() *seth.Int {
+	if gweicall < 0 {
+		fatalf("gas price %d is negative\n", gweicall)
+	}
+	wei := big.NewInt(int64(gweicall))
+	return (*seth.Int)(wei.Mul(wei, big.NewInt(1e9)))
+}
+
 func call(fs *flag.FlagSet) {
 	args := fs.Args()
 	if len(args) < 2 {
@@ -244,7 +253,7 @@ func call(fs *flag.FlagSet) {
 	opts := seth.CallOpts{
 		From:     &from,
 		To:       addr,
-		GasPrice: seth.NewInt(int64(gweicall) * 1e9),
+		GasPrice: gasprice(),
 	}
 	if noncecall >= 0 {
 		u := seth.Uint64(noncecall)
-- 
2.43.0


From 092d2b7f778cad983e19a7871788f0b56e2b8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 70/73] fix: bindgen: take arguments of every type as pointers

---
 bindgen/main.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index f3c9f4b..e5f2e66 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -102,21 +102,37 @@ func main() {
 	f.Close()
 }
 
+// kind classifies a solidity type by its encoding
+func kind(a string) string {
+	elem := strings.TrimSuffix(a, "[]")
+	suffix := a[len(elem):]
+	switch {
+	case elem == "bool", strings.HasPrefix(elem, "int"), strings.HasPrefix(elem, "uint"):
+		return "int" + suffix
+	case elem == "bytes" && suffix == "":
+		return "bytes"
+	case elem != "bytes" && strings.HasPrefix(elem, "bytes"):
+		return "data" + suffix
+	}
+	return a
+}
+
 func typeconv(a string) string {
-	switch a {
-	case "bool", "int8", "int16", "int32", "int64",
-		"uint8", "uint16", "uint32", "uint64":
-		fallthrough
-	case "int", "uint", "uint128", "uint256":
+	switch kind(a) {
+	case "int":
 		return "*seth.Int"
 	case "address":
 		return "*seth.Address"
+	case "bytes", "string":
+		return "*seth.Bytes"
 	case "address[]":
 		return "*seth.AddrSlice"
-	case "uint256[]":
+	case "int[]":
 		return "*seth.IntSlice"
+	case "data[]":
+		return "*seth.DataSlice"
 	default:
-		return "seth.Data"
+		return "*seth.Data"
 	}
 }
 
-- 
2.43.0


From afae44c36024309335501ad329293f2647f9a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 71/73] fix: bindgen: return lists as lists

---
 bindgen/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index e5f2e66..bccdad6 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -147,12 +147,16 @@ func rettype(a string) string {
 		return "seth.Address"
 	case "address[]":
 		return "seth.AddrSlice"
-	case "uint256[]":
-		return "seth.IntSlice"
 	case "string":
 		return "string"
 	case "bytes":
 		return "[]byte"
+	}
+	switch kind(a) {
+	case "int[]":
+		return "seth.IntSlice"
+	case "data[]":
+		return "seth.DataSlice"
 	default:
 		return "seth.Data"
 	}
-- 
2.43.0


From 2de9bfa0ca9a70fc706918efb6a311ac19e3078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 72/73] fix: bindgen: call view functions instead of sending
 transactions

---
 bindgen/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index bccdad6..fcffc10 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -191,8 +191,11 @@ func generate(w io.Writer, c *seth.CompiledContract) {
 		if d.Type != "function" {
 			continue
 		}
+		// newer compilers only give the mutability
+		constant := d.Constant || d.Mutability == "view" || d.Mutability == "pure"
+
 		// don't do anything for pointless functions
-		if d.Constant && len(d.Outputs) == 0 {
+		if constant && len(d.Outputs) == 0 {
 			continue
 		}
 
@@ -206,7 +209,7 @@ func generate(w io.Writer, c *seth.CompiledContract) {
 		}
 		fmt.Fprint(w, strings.Join(argstrs, ", ")+") ")
 
-		if d.Constant {
+		if constant {
 			var retargs []string
 			for i := range d.Outputs {
 				// TODO: handle composite types (tuples, structs)
-- 
2.43.0


From 3385fcd44ff2638f16d8583fe51943494c8da789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 73/73] fix: tevm: executions have a gas price

---
 tevm/evm.go       | 2 ++
 tevm/transport.go | 6 ++----
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index c5531f5..6ad3acf 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -810,6 +810,7 @@ func (c *Chain) context(sender [20]byte) vm.Context {
 		BlockNumber: new(big.Int).SetInt64(int64(*b.Number)),
 		Time:        new(big.Int).SetInt64(int64(b.Timestamp)),
 		Difficulty:  new(big.Int).Set((*big.Int)(b.Difficulty)),
+		GasPrice:    new(big.Int),
 	}
 }
 
@@ -992,6 +993,7 @@ func (c *Chain) mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	var addr common.Address
 	status := 1
 	vm := c.evm(*tx.From)
+	vm.GasPrice.Set(tx.GasPrice.Big())
 	if tx.To == nil {
 		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	} else {
diff --git a/tevm/transport.go b/tevm/transport.go
index 6d13c75..84855dd 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -6,7 +6,6 @@ import (
 	"errors"
 	"fmt"
 	"log"
-	"math/big"
 	"net/http"
 
 	"github.com/ethereum/go-ethereum/common"
@@ -318,6 +317,7 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 		return nil, fmt.Errorf("unknown block number %d", blocknum)
 	}
 	evm := c.evm(a.From)
+	evm.GasPrice.Set(a.GasPrice.Big())
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
 		gas = uint64(a.Gas)
@@ -433,9 +433,7 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 		return 0, fmt.Errorf("unknown block number %d", blocknum)
 	}
 	evm := c.evm(a.From)
-
-	// TODO: incorporate gas price
-	evm.Context.GasPrice = big.NewInt(0)
+	evm.GasPrice.Set(a.GasPrice.Big())
 	snap := evm.StateDB.Snapshot()
 	defer evm.StateDB.RevertToSnapshot(snap)
 
-- 
2.43.0

