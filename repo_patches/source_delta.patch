From 79b3c33ab92315c4a981253f9bcf81d1aa360b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 01/41] fix: hexdecode overwrites its destination instead of
 or-ing into it

---
 hex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hex.go b/hex.go
index 5b771ce..9bb6722 100644
--- a/hex.go
+++ b/hex.go
@@ -54,6 +54,9 @@ func hexdecode(dst, src []byte) error {
 	// make sure that it implicitly has a 0 nibble
 	// at the beginning rather than at the end.
 	addend := uint(len(src) & 1)
+	for i := range dst {
+		dst[i] = 0
+	}
 	for i, b := range src[2:] {
 		a, ok := fromhex(b)
 		if !ok {
-- 
2.43.0


From 62c5f90cf97a8b7e8768c3eb060c36db8c5f8c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:39 +0000
Subject: [PATCH 02/41] fix: DecodeABI validates every offset and length and
 reads each argument from its own head word

Fixed-size arguments after the first were read from the start of the data,
DataSlice elements were copied into nil slices, offsets and lengths near or
above 2^63 (and short heads) panicked, and values ending at the very end of
the data were refused.
---
 send.go | 103 ++++++++++++++++++++++----------------------------------
 1 file changed, 40 insertions(+), 63 deletions(-)

diff --git a/send.go b/send.go
index c95c308..17c7978 100644
--- a/send.go
+++ b/send.go
@@ -326,6 +326,22 @@ func (d *ABIDecoder) UnmarshalText(v []byte) error {
 	return DecodeABI([]byte(data), (*d)...)
 }
 
+// abitail locates a dynamically-sized value within data: off holds
+// the offset given in the head of the encoding, which must be at
+// least min, and size is the encoded size of one element.
+// It returns the position of the first element and the element count.
+func abitail(data []byte, off *big.Int, min, size int64) (pos, length int64, err error) {
+	if !off.IsInt64() || off.Int64() < min || off.Int64() > int64(len(data))-32 {
+		return 0, 0, fmt.Errorf("bad offset %s for data length returned (%d)", off, len(data))
+	}
+	pos = off.Int64() + 32
+	off.SetBytes(data[pos-32 : pos])
+	if !off.IsInt64() || off.Int64() > (int64(len(data))-pos)/size {
+		return 0, 0, fmt.Errorf("bad length %s for data length returned (%d)", off, len(data))
+	}
+	return pos, off.Int64(), nil
+}
+
 // DecodeABI decodes a solidity return value into its
 // constituent arguments.
 //
@@ -346,25 +362,22 @@ func DecodeABI(v []byte, args ...interface{}) error {
 	cur := v
 	offset := int64(0)
 	for i, v := range args {
-		if len(cur[offset:]) == 0 {
+		if offset+32 > int64(len(cur)) {
 			return fmt.Errorf("no argument returned at position %d", i)
 		}
-		buf := cur[offset:]
-		if len(buf) > 32 {
-			buf = buf[:32]
-		}
+		buf := cur[offset : offset+32]
 
 		// easy cases that don't involve converting types
 		// or handling variable-length types
 		did := true
 		switch v := v.(type) {
 		case *Data:
-			if len(*v) < 32 {
+			if len(*v) != 32 {
 				*v = make([]byte, 32)
 			}
-			copy(*v, cur)
+			copy(*v, buf)
 		case *Address:
-			copy(v[:], cur[12:])
+			copy(v[:], buf[12:])
 		case *Int:
 			(*big.Int)(v).SetBytes(buf)
 		case *big.Int:
@@ -380,53 +393,29 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		spare.SetBytes(buf)
 		switch v := v.(type) {
 		case *string:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad string offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length >= int64(len(cur)) {
-				return fmt.Errorf("bad string length %d for data length returned (%d)", length, len(cur))
+			dpos, length, err := abitail(cur, &spare, offset+32, 1)
+			if err != nil {
+				return err
 			}
 			*v = string(cur[dpos : dpos+length])
 		case *[]byte:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			dpos, length, err := abitail(cur, &spare, offset+32, 1)
+			if err != nil {
+				return err
 			}
 			*v = make([]byte, length)
 			copy(*v, cur[dpos:dpos+length])
 		case *Bytes:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			dpos, length, err := abitail(cur, &spare, offset+32, 1)
+			if err != nil {
+				return err
 			}
 			*v = make([]byte, length)
 			copy(*v, cur[dpos:dpos+length])
 		case *IntSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			dpos, length, err := abitail(cur, &spare, offset+32, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Int, length)
 			for i := range s {
@@ -435,15 +424,9 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			}
 			*v = IntSlice(s)
 		case *AddrSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			dpos, length, err := abitail(cur, &spare, offset+32, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Address, length)
 			for i := range s {
@@ -452,20 +435,14 @@ func DecodeABI(v []byte, args ...interface{}) error {
 			}
 			*v = AddrSlice(s)
 		case *DataSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			dpos, length, err := abitail(cur, &spare, offset+32, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Data, length)
 			for i := range s {
 				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+				s[i] = append(Data(nil), cur[o:o+32]...)
 			}
 			*v = DataSlice(s)
 		case *bool:
-- 
2.43.0


From 2cac121cc2dd96a6b20fbaa5aa50730ae797deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:46 +0000
Subject: [PATCH 03/41] fix: encode negative integers as two's complement in
 ABI calls

---
 send.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/send.go b/send.go
index 17c7978..946eb3a 100644
--- a/send.go
+++ b/send.go
@@ -43,7 +43,16 @@ func (a *Address) internal() {}
 // EncodeABI implements EtherType
 func (i *Int) EncodeABI(v []byte) []byte {
 	var w [32]byte
-	bits := (*big.Int)(i).Bytes()
+	n := (*big.Int)(i)
+	if n.Sign() < 0 {
+		// two's complement
+		min := new(big.Int).Lsh(big.NewInt(-1), 255)
+		if n.Cmp(min) < 0 {
+			panic("ABI encoding: integer overflow")
+		}
+		n = new(big.Int).Add(n, new(big.Int).Lsh(big.NewInt(1), 256))
+	}
+	bits := n.Bytes()
 	if len(bits) > 32 {
 		panic("ABI encoding: integer overflow")
 	}
-- 
2.43.0


From c4b140bfa2c01d3218f8d7e82de1ab02f3200ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 04/41] fix: Recover refuses an r that is not the x-coordinate
 of a curve point

---
 signature.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signature.go b/signature.go
index 8017350..7a51991 100644
--- a/signature.go
+++ b/signature.go
@@ -114,6 +114,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 	}
 
 	CurvePoint(&r, &ry, v)
+	if !curve.IsOnCurve(&r, &ry) {
+		return nil, errors.New("invalid signature")
+	}
 
 	ri.ModInverse(&r, order)
 	si.Mul(&ri, &s)
-- 
2.43.0


From 28d952dee2adf274a449aa55fae0bf1e7aa94d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 05/41] fix: a snapshot of an emptied tree keeps the earlier
 snapshots

---
 tevm/tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 85340ea..0b3581c 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -167,7 +167,9 @@ func (t *Tree) Get(key []byte) []byte {
 // Snapshot returns a snapshot number for the
 // current state of the tree
 func (t *Tree) Snapshot() int {
-	if t.Root == 0 {
+	// a rollback to -1 forgets every snapshot, so
+	// it only stands for a state that has none
+	if t.Root == 0 && len(t.Snaps) == 0 {
 		return -1
 	}
 	s := len(t.Snaps)
-- 
2.43.0


From 1777790c001fc618ace74914794cb84c67aeab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 06/41] fix: trees that share storage do not write into each
 other's nodes and snapshots

---
 tevm/tree.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 0b3581c..be83cf8 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -197,10 +197,10 @@ func (t *Tree) CopyAt(snap int) Tree {
 	}
 	s := t.Snaps[snap]
 	return Tree{
-		Snaps: t.Snaps[:snap+1],
-		Root:  s.Root,
-		// make sure any appends to the node list
-		// cause reallocation of the backing data
+		Root: s.Root,
+		// make sure any appends to the snapshot and node
+		// lists cause reallocation of the backing data
+		Snaps: t.Snaps[: snap+1 : snap+1],
 		All:   t.All[:s.Allocated:s.Allocated],
 		Epoch: t.Epoch + 1,
 	}
@@ -215,9 +215,10 @@ func (t *Tree) Rollback(snap int) {
 		return
 	}
 	s := t.Snaps[snap]
-	t.Snaps = t.Snaps[:snap+1]
 	t.Root = s.Root
-	t.All = t.All[:s.Allocated]
+	// the backing data may be shared with copies of the tree
+	t.Snaps = t.Snaps[: snap+1 : snap+1]
+	t.All = t.All[:s.Allocated:s.Allocated]
 	t.Epoch++
 }
 
-- 
2.43.0


From 0952b5dad27881279cdfa7336b628fc656a3e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 07/41] fix: a transfer from an account to itself creates no
 ether

---
 tevm/evm.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 591a5f9..f5cd6e2 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -721,20 +721,21 @@ func dotransfer(s vm.StateDB, from, to common.Address, v *big.Int) {
 
 	aaddr, baddr := seth.Address(from), seth.Address(to)
 	facct, _ := st.getAccount(&aaddr)
-	fbcct, _ := st.getAccount(&baddr)
-
-	var ov big.Int
-	fb, tb := facct.Balance(), fbcct.Balance()
-	fbb, tbb := fb.Big(), tb.Big()
 
-	ov.Set(v)
+	fb := facct.Balance()
+	fbb := fb.Big()
 	fbb.Sub(fbb, v)
-	tbb.Add(tbb, &ov)
-
 	facct.SetBalance(fbb)
-	fbcct.SetBalance(tbb)
-
 	st.setAccount(&aaddr, &facct)
+
+	// the two accounts may be one and the same,
+	// so this has to see the updated sender
+	fbcct, _ := st.getAccount(&baddr)
+
+	tb := fbcct.Balance()
+	tbb := tb.Big()
+	tbb.Add(tbb, v)
+	fbcct.SetBalance(tbb)
 	st.setAccount(&baddr, &fbcct)
 }
 
-- 
2.43.0


From 86420dad57f66b338df0ef33e824c79ab5a6193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 08/41] fix: creating an account keeps the ether already sent
 to its address

---
 tevm/evm.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index f5cd6e2..3c9d03c 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -141,9 +141,13 @@ func (s *gethState) CreateAccount(addr common.Address) {
 	if s.Trace != nil {
 		s.Trace("CreateAccount", addr.String())
 	}
-	var empty Account
+	var fresh Account
 	a := seth.Address(addr)
-	s.setAccount(&a, &empty)
+	// the balance of an existing account carries over
+	old, _ := s.getAccount(&a)
+	bal := old.Balance()
+	fresh.SetBalance(bal.Big())
+	s.setAccount(&a, &fresh)
 }
 
 func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
-- 
2.43.0


From c5e1ac18fe5ff854886f664c105e3e2a88015553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 09/41] fix: a self-destructed account has no balance left

---
 tevm/evm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 3c9d03c..3b159b2 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -387,12 +387,15 @@ func (s *gethState) Suicide(addr common.Address) bool {
 	// out of the JSON-RPC API, so this may
 	// simply be wrong.
 	acct, ok := s.getAccount(&a)
-	if !ok || acct.Suicided() {
+	if !ok {
 		return false
 	}
+	first := !acct.Suicided()
 	acct.SetSuicided(true)
+	// the caller has credited the balance to the beneficiary
+	acct.SetBalance(&zero)
 	s.setAccount(&a, &acct)
-	return true
+	return first
 }
 
 func (s *gethState) HasSuicided(addr common.Address) bool {
-- 
2.43.0


From 8e0d05813d803f47383e6b4f73a146e5894ad11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 10/41] fix: the account tree does not keep references to the
 caller's address

---
 tevm/evm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 3b159b2..5e2a336 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -124,7 +124,8 @@ func (s *gethState) treeAccount(addr *seth.Address) (Account, bool) {
 }
 
 func (s *gethState) setAccount(addr *seth.Address, acct *Account) {
-	s.Accounts.Insert(addr[:], acct[:])
+	a, v := *addr, *acct
+	s.Accounts.Insert(a[:], v[:])
 }
 
 type statesnap struct {
-- 
2.43.0


From 52c81c4d39a16d912b6092b0fdbcd95f903842fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 11/41] fix: reverting to a snapshot invalidates it and the
 later ones

---
 tevm/evm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 5e2a336..c05c767 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -423,10 +423,11 @@ func (s *gethState) RevertToSnapshot(v int) {
 	s.Storage.Rollback(ns.State)
 	s.Transactions.Rollback(ns.TXs)
 	s.Receipts.Rollback(ns.RXs)
-	s.Logs = s.Logs[:ns.LogLen]
+	// the backing data may be shared with copies of the state
+	s.Logs = s.Logs[:ns.LogLen:ns.LogLen]
 
 	// make sure we can't roll forward
-	snaps = snaps[:v]
+	s.Snapshots = snaps[:v:v]
 }
 
 func (s *gethState) Snapshot() int {
-- 
2.43.0


From 30201c2fb0a53d13d1505b91ef6c9a3a8fbad480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 12/41] fix: the copy of a snapshot has the gas refund of that
 snapshot

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index c05c767..18660a9 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -456,7 +456,7 @@ func (s *State) atSnap(n int, dst *State) {
 	ns := s.Snapshots[n]
 	dst.Fallback = s.Fallback
 	dst.Trace = s.Trace
-	dst.Refund = s.Refund
+	dst.Refund = ns.Refund
 	dst.Accounts = s.Accounts.CopyAt(ns.Accounts)
 	dst.Code = s.Code.CopyAt(ns.Code)
 	dst.Storage = s.Storage.CopyAt(ns.State)
-- 
2.43.0


From 5e86a90ef3149ec72105ffc5b2a628e24533ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 13/41] fix: a copied chain keeps its sealed blocks and pending
 receipts, and can be sealed

---
 tevm/evm.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 18660a9..f49709b 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -543,11 +543,27 @@ func (c *Chain) Copy() *Chain {
 	// and grab a logical copy of the snapshot
 	c.State.atSnap(((*gethState)(&c.State)).Snapshot(), &cc.State)
 
+	cc.State.Blocks = c.State.Blocks.CopyAt(c.State.Blocks.Snapshot())
+
 	p := *c.State.Pending
+	p.Transactions = p.Transactions[:len(p.Transactions):len(p.Transactions)]
 	cc.State.Pending = &p
+	cc.block2snap = copysnaps(c.block2snap)
+	for _, rx := range c.pendingrx {
+		r := *rx
+		cc.pendingrx = append(cc.pendingrx, &r)
+	}
 	return cc
 }
 
+func copysnaps(m map[int64]int) map[int64]int {
+	c := make(map[int64]int, len(m))
+	for n, snap := range m {
+		c[n] = snap
+	}
+	return c
+}
+
 // AtBlock returns the chain state at a given
 // block number. As a special case, -1 is interpreted
 // as the pending block (i.e. the current chain state),
-- 
2.43.0


From a11c96c8a6124ea1dabb1c4f0cf68f36cc7ba77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 14/41] fix: sealing a block on the view of an earlier block
 leaves the original chain alone

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index f49709b..9f55ffa 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -607,7 +607,7 @@ func (c *Chain) AtBlock(n int64) *Chain {
 	c.State.atSnap(snap, &cc.State)
 	cc.Debugf = c.Debugf
 	cc.State.Pending = nb
-	cc.block2snap = c.block2snap
+	cc.block2snap = copysnaps(c.block2snap)
 	return cc
 }
 
-- 
2.43.0


From 7c0e4c4a8f00aa0c6836974576b246b94bf485da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 15/41] fix: the first block of a fork has the hash of its own
 number

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 9f55ffa..d6c11af 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -700,7 +700,9 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 
 	// For convenience, start our chain at blocknum+1
 	n := seth.Uint64(blocknum + 1)
+	h := seth.Hash(n2h(uint64(n)))
 	chain.State.Pending.Number = &n
+	chain.State.Pending.Hash = &h
 
 	chain.State.Fallback.Client = c
 	chain.State.Fallback.Block = blocknum
-- 
2.43.0


From da0b069ca853914532e4e810711a7e1deee373e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 16/41] fix: returning the pending block with its transactions
 leaves the pending block alone

---
 tevm/transport.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 07249fa..e39d6b9 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -314,7 +314,8 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 	var b *seth.Block
 	if bytes.Equal(h[:], c.State.Pending.Hash[:]) {
-		b = c.State.Pending
+		p := *c.State.Pending
+		b = &p
 	} else {
 		buf := c.State.Blocks.Get(h[:])
 		if buf == nil {
-- 
2.43.0


From 878a0cdda85a5c42013f6065b0294d3fefed3667 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 17/41] fix: tevm understands block numbers in the form clients
 send

---
 tevm/transport.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index e39d6b9..b9d821a 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -50,8 +50,13 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 	case bytes.Equal(rawearliest, buf):
 		*b = 0
 	default:
-		// should be an integer
-		i, err := strconv.ParseInt(string(buf), 10, 64)
+		// should be an integer, either
+		// hexadecimal and quoted, or decimal
+		s := string(buf)
+		if u, err := strconv.Unquote(s); err == nil {
+			s = u
+		}
+		i, err := strconv.ParseInt(s, 0, 64)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 5ac8b5bd3c18cd0b96709ee0eaf69ef1c01d3fdd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 18/41] fix: eth_getBlockByNumber understands the latest and
 pending blocks

---
 tevm/transport.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index b9d821a..95d8337 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -184,13 +184,19 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		}
 		return c.getBlock(&h, all)
 	case "eth_getBlockByNumber":
-		var n seth.Int
 		var all bool
-		if err := marshal(params, &n, &all); err != nil {
+		if err := marshal(params, &b, &all); err != nil {
 			return nil, err
 		}
+		n := uint64(b)
+		switch b {
+		case -1: // pending
+			n = uint64(*c.State.Pending.Number)
+		case -2: // latest
+			n = uint64(*c.State.Pending.Number) - 1
+		}
 		// hack: block hashes are hashes of the block number
-		h := seth.Hash(n2h(uint64(n.Int64())))
+		h := seth.Hash(n2h(n))
 		return c.getBlock(&h, all)
 	case "eth_newFilter":
 		type newFilterReq struct {
-- 
2.43.0


From 61418f2610c7f3e1d0f1a919e4c87056e0075a7a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 19/41] fix: receipts carry the number of their block

---
 tevm/evm.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index d6c11af..b553e89 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -974,12 +974,13 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	}
 
 	rx := &seth.Receipt{
-		Hash:       tx.Hash,
-		Index:      *tx.TxIndex,
-		GasUsed:    seth.Uint64(used),
-		Cumulative: b.GasUsed,
-		Logs:       lconv(c.State.Logs[l0:]),
-		Status:     seth.Uint64(status),
+		Hash:        tx.Hash,
+		Index:       *tx.TxIndex,
+		BlockNumber: tx.BlockNumber,
+		GasUsed:     seth.Uint64(used),
+		Cumulative:  b.GasUsed,
+		Logs:        lconv(c.State.Logs[l0:]),
+		Status:      seth.Uint64(status),
 	}
 	if tx.To == nil {
 		rx.Address = new(seth.Address)
-- 
2.43.0


From 4084f22b88f9727cc5cc2ffd0c9a8b8e9bbd859c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 20/41] fix: logs of mined transactions name their block and
 transaction

---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index b553e89..d366461 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -971,6 +971,8 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 
 	for _, l := range c.State.Logs[l0:] {
 		copy(l.TxHash[:], tx.Hash[:])
+		copy(l.BlockHash[:], b.Hash[:])
+		l.TxIndex = uint(*idx)
 	}
 
 	rx := &seth.Receipt{
-- 
2.43.0


From fb12bfc70ab4754cd407b2a921ad4b60f3704c1a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 21/41] fix: a failed gas estimate is reverted like a
 successful one

---
 tevm/transport.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 95d8337..0fbe865 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -423,6 +423,7 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 	// TODO: incorporate gas price
 	evm.Context.GasPrice = big.NewInt(0)
 	snap := evm.StateDB.Snapshot()
+	defer evm.StateDB.RevertToSnapshot(snap)
 
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
@@ -443,8 +444,6 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 		gas -= rem
 	}
 
-	evm.StateDB.RevertToSnapshot(snap)
-
 	return seth.Uint64(gas), nil
 }
 
-- 
2.43.0


From 2d253130b3c2e4885a68b7725dd1ce42b29dbd38 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 22/41] fix: a filter may have an open end

---
 tevm/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 0fbe865..7b0aba0 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -234,7 +234,7 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 }
 
 func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.Hash) (int, error) {
-	if from > to {
+	if to >= 0 && from > to {
 		return 0, fmt.Errorf("cannot filter block range [%d,%d)", from, to)
 	}
 	c.filtcount++
-- 
2.43.0


From b786fd6fd7b5675b429bf24ef81d1078ccfd98db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 23/41] fix: static calls do not create the called account

---
 tevm/evm.go       | 11 +++++++++--
 tevm/transport.go |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index d366461..7f653b4 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -846,11 +846,18 @@ func (c *Chain) Call(sender, dst *seth.Address, sig string, args ...seth.EtherTy
 	return ret, err
 }
 
+func (c *Chain) staticcall(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, uint64, error) {
+	// a static call still touches the callee
+	db := c.State.StateDB()
+	defer db.RevertToSnapshot(db.Snapshot())
+	return c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
+}
+
 // StaticCall yields the result of the given transaction in
 // the pending block without comitting the state changes to the chain.
 func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.EtherType) ([]byte, error) {
 	c.mu.Lock()
-	ret, _, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
+	ret, _, err := c.staticcall(sender, dst, sig, args...)
 	c.mu.Unlock()
 	return ret, err
 }
@@ -858,7 +865,7 @@ func (c *Chain) StaticCall(sender, dst *seth.Address, sig string, args ...seth.E
 // EstimateGas estimates the amount of gas that the given transaction will use.
 func (c *Chain) EstimateGas(sender, dst *seth.Address, sig string, args ...seth.EtherType) (uint64, error) {
 	c.mu.Lock()
-	_, left, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)
+	_, left, err := c.staticcall(sender, dst, sig, args...)
 	c.mu.Unlock()
 	return defaultGasLimit - left, err
 }
diff --git a/tevm/transport.go b/tevm/transport.go
index 7b0aba0..2e42330 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -315,7 +315,10 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 	if a.To != nil {
 		to = *a.To
 	}
+	// a static call still touches the callee
+	snap := evm.StateDB.Snapshot()
 	ret, _, err := evm.StaticCall(a.Ref(), to, a.Data, gas)
+	evm.StateDB.RevertToSnapshot(snap)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From deb1bfcd7c1019c756c22c55886c85b99ba5c319 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 24/41] fix: the pending transactions are those of the pending
 block

---
 seth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seth.go b/seth.go
index 1cfb47a..a61666f 100644
--- a/seth.go
+++ b/seth.go
@@ -521,7 +521,7 @@ func (c *Client) BlockNumber() (int64, error) {
 
 // Pending returns the list of pending transactions.
 func (c *Client) Pending() ([]Transaction, error) {
-	b, err := c.GetBlock(-1, true)
+	b, err := c.GetBlock(Pending, true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 383a67165ba5bab03ce89752aacb01b90f7518b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 25/41] fix: draining a sender looks at its transactions in the
 pending block

---
 sender.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sender.go b/sender.go
index 6f4a522..ac8beb5 100644
--- a/sender.go
+++ b/sender.go
@@ -197,7 +197,7 @@ func (s *Sender) Wait(h *Hash) error {
 // contain no transactions from this account.
 func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 	for {
-		p, err := s.GetBlock(-1, true)
+		p, err := s.GetBlock(Pending, true)
 		if err != nil {
 			return err
 		}
@@ -207,7 +207,7 @@ func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 		}
 		var t *Transaction
 		for i := range txs {
-			if txs[i].From == s.Addr {
+			if txs[i].From != nil && *txs[i].From == *s.Addr {
 				t = &txs[i]
 				break
 			}
-- 
2.43.0


From 8211b33ff41452a7c5a1b3ddc2bf092aeb52547f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 26/41] fix: cancelling outbids prices of 2^63 and more

---
 sender.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index ac8beb5..569bccc 100644
--- a/sender.go
+++ b/sender.go
@@ -174,7 +174,8 @@ func (s *Sender) Cancel(h *Hash) (Hash, error) {
 	if s.GasPrice.Cmp(&tx.GasPrice) > 0 {
 		opts.GasPrice = &s.GasPrice
 	} else {
-		opts.GasPrice = NewInt(tx.GasPrice.Int64() + 1)
+		price := new(big.Int).Add(tx.GasPrice.Big(), big.NewInt(1))
+		opts.GasPrice = (*Int)(price)
 	}
 	return s.Call(&opts)
 }
-- 
2.43.0


From 72e2e51250f1f60e9ed8797f71785e2846be6eac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 27/41] fix: zero is written 0x0, as JSON-RPC requires

---
 hex.go  | 3 +++
 seth.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/hex.go b/hex.go
index 9bb6722..f64d6c0 100644
--- a/hex.go
+++ b/hex.go
@@ -70,6 +70,9 @@ func hexdecode(dst, src []byte) error {
 
 // hexstring returns a hex string of the given data
 func hexstring(b []byte, trunc bool) []byte {
+	if trunc && len(b) == 0 {
+		return []byte("0x0")
+	}
 	buf := make([]byte, 2+2*len(b))
 	hex.Encode(buf[2:], b)
 	if trunc && len(buf) > 2 && buf[2] == '0' {
diff --git a/seth.go b/seth.go
index a61666f..6607814 100644
--- a/seth.go
+++ b/seth.go
@@ -221,6 +221,9 @@ func (i *Int) UnmarshalText(b []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(buf) == 1 && buf[0] == 0 {
+		buf = nil // zero as a new Int holds it
+	}
 	i.Big().SetBytes(buf)
 	return nil
 }
-- 
2.43.0


From 2ecf8b7d190526013a6b496cac37bdba86649cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 28/41] fix: parsing a number without integer part ignores the
 old value of the target

---
 cc/currency.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cc/currency.go b/cc/currency.go
index 12b8c61..b9a0a4f 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -115,6 +115,7 @@ func parseDigits(num *big.Int, s string, digits int) (*big.Int, error) {
 	if ip == "" && fp == "" {
 		return nil, errors.New("cc: number cannot be empty")
 	}
+	num.SetInt64(0)
 	if ip != "" {
 		if !isdigit(rune(ip[0])) {
 			return nil, errors.New("cc: invalid character in integer part: " + s)
-- 
2.43.0


From a3910df244caf4a28a87c1191c3c654dca2272ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 29/41] fix: a lone quote is not a rate

---
 cc/currency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index b9a0a4f..2f32c72 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -179,7 +179,7 @@ func (r *Rate) UnmarshalJSON(b []byte) error {
 	if string(b) == "null" {
 		return nil
 	}
-	if len(b) > 0 && b[0] == '"' && b[len(b)-1] == '"' {
+	if len(b) >= 2 && b[0] == '"' && b[len(b)-1] == '"' {
 		b = b[1 : len(b)-1]
 	}
 	n, err := ParseRate(string(b))
-- 
2.43.0


From 2becdb470f2b9fd029c5ffa699c566cf4f00b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 30/41] fix: key files with bad key derivation parameters are
 refused

---
 keyfile.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index c01770a..ea5e7e8 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -41,6 +41,19 @@ func (k *Keyfile) ciphertext() ([]byte, error) {
 	return hex.DecodeString(k.Crypto.Ciphertext)
 }
 
+const (
+	minKeylen    = 32      // required by the Web3 Secret Storage Definition
+	maxKeylen    = 1 << 16 // more is of no use to any cipher
+	maxScryptMem = 1 << 32 // bytes of memory scrypt may use
+)
+
+func checkKeylen(n int) error {
+	if n < minKeylen || n > maxKeylen {
+		return fmt.Errorf("bad derived key length %d", n)
+	}
+	return nil
+}
+
 func pbkdf2Derive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	type params struct {
 		Iters  int    `json:"c"`
@@ -73,6 +86,10 @@ func pbkdf2Derive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 		return nil, fmt.Errorf("pbkdf2 salt: %s", err)
 	}
 
+	if err := checkKeylen(p.Keylen); err != nil {
+		return nil, err
+	}
+
 	return pbkdf2.Key(pass, salt, p.Iters, p.Keylen, h), nil
 }
 
@@ -92,6 +109,12 @@ func scryptDerive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := checkKeylen(p.Keylen); err != nil {
+		return nil, err
+	}
+	if p.R <= 0 || p.P <= 0 || p.R > maxScryptMem/128/p.P || p.N > maxScryptMem/128/p.R {
+		return nil, fmt.Errorf("bad scrypt parameters n=%d, r=%d, p=%d", p.N, p.R, p.P)
+	}
 	return scrypt.Key(pass, salt, p.N, p.R, p.P, p.Keylen)
 }
 
-- 
2.43.0


From 8f3f0ea6e3e4c951c3e6503f6634492ca0a5b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 31/41] fix: key files with an IV or ciphertext of the wrong
 length are refused

---
 keyfile.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index ea5e7e8..3c73d81 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -142,6 +142,9 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	if err != nil {
 		return fmt.Errorf("bad aes-128-ctr iv: %s", err)
 	}
+	if len(iv) != aes.BlockSize {
+		return fmt.Errorf("bad aes-128-ctr iv length %d", len(iv))
+	}
 	block, err := aes.NewCipher(key[:16])
 	if err != nil {
 		return err
@@ -183,6 +186,9 @@ func (k *Keyfile) Private(passphrase []byte) (*PrivateKey, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(ciphertext) != len(PrivateKey{}) {
+		return nil, fmt.Errorf("bad ciphertext length %d", len(ciphertext))
+	}
 
 	var decipher func(key, ciphertext []byte, params json.RawMessage) error
 	switch strings.ToLower(k.Crypto.Cipher) {
-- 
2.43.0


From 4511ffe9e21405f3236b3a59f4799fcfc986fb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 32/41] fix: eth call accepts every integer of the declared
 type, and no other

---
 cmd/eth/call.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index c19d13a..e68961d 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -79,8 +79,17 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 	if v.Sign() < 0 && !signed {
 		fatalf("value %q not allowed to be signed\n", s)
 	}
-	if v.BitLen() >= bitwidth {
-		fatalf("value %q overflows bit-width %d", s, bitwidth)
+	// signed values occupy [-2^(n-1), 2^(n-1))
+	// and unsigned ones [0, 2^n)
+	mag := v
+	if signed {
+		bitwidth--
+		if v.Sign() < 0 {
+			mag = new(big.Int).Not(v)
+		}
+	}
+	if mag.BitLen() > bitwidth {
+		fatalf("value %q is out of range\n", s)
 	}
 	return (*seth.Int)(v)
 }
@@ -138,17 +147,17 @@ func parsearg(typ, val string) seth.EtherType {
 	case "bytes":
 		return etherbytes(val)
 	case "int8", "uint8":
-		return etherint(val, 8, val == "int8")
+		return etherint(val, 8, typ == "int8")
 	case "int16", "uint16":
-		return etherint(val, 16, val == "int16")
+		return etherint(val, 16, typ == "int16")
 	case "int32", "uint32":
-		return etherint(val, 32, val == "int32")
+		return etherint(val, 32, typ == "int32")
 	case "int64", "uint64":
-		return etherint(val, 64, val == "int64")
+		return etherint(val, 64, typ == "int64")
 	case "int128", "uint128":
-		return etherint(val, 128, val == "int128")
+		return etherint(val, 128, typ == "int128")
 	case "int256", "uint256":
-		return etherint(val, 256, val == "int256")
+		return etherint(val, 256, typ == "int256")
 	case "address":
 		return etheraddr(val)
 	}
-- 
2.43.0


From 74fcba3acdab89723d9c6044f2d9ae2b49cdf4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 33/41] fix: eth call passes string arguments as text

---
 cmd/eth/call.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index e68961d..56c4b0c 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -30,7 +30,8 @@ func init() {
 }
 
 func etherstring(s string) seth.EtherType {
-	return etherbytes(s)
+	b := seth.Bytes(s)
+	return &b
 }
 
 func unhex(s string) []byte {
-- 
2.43.0


From 3b63f134b5eba1f0cb32365b67b43858e8fb4ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 34/41] fix: eth call parses array arguments without their
 brackets

---
 cmd/eth/call.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 56c4b0c..a84322e 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -96,15 +96,16 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 }
 
 func etherarr(typ string, val string) seth.EtherType {
-	if val[0] != '[' || val[len(val)-1] != ']' {
+	if len(val) < 2 || val[0] != '[' || val[len(val)-1] != ']' {
 		fatalf("array values must be enclosed with square braces\n")
 	}
-	parts := strings.Split(val, ",")
-	if len(parts) == 0 {
+	val = val[1 : len(val)-1]
+	if val == "" {
 		// doesn't really matter what type this is...
 		s := make(seth.IntSlice, 0)
 		return &s
 	}
+	parts := strings.Split(val, ",")
 
 	// Warning: this is super gross.
 	// This should be replaced with something better.
-- 
2.43.0


From c2798ee8d3c5c6b92f3ce91dca7f892af9c8e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 35/41] fix: eth jumptab lists entries at the very end of the
 code

---
 cmd/eth/jumptab.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/jumptab.go b/cmd/eth/jumptab.go
index 64cf541..053a83b 100644
--- a/cmd/eth/jumptab.go
+++ b/cmd/eth/jumptab.go
@@ -178,7 +178,7 @@ func jumpentries(code []byte) []jmpentry {
 	// That would make the code a bit simpler.
 	var entries []jmpentry
 	base := code[preamble:]
-	for len(base) > 12 {
+	for len(base) > 8 {
 		var pushbytes, prefixbytes [4]byte
 
 		if base[0] == oppush1+3 &&
@@ -200,6 +200,9 @@ func jumpentries(code []byte) []jmpentry {
 		if pwidth > 4 {
 			break // ???
 		}
+		if len(base) < 8+pwidth+1 {
+			break // truncated
+		}
 		copy(pushbytes[4-pwidth:], base[8:8+pwidth])
 		if base[8+pwidth] != opjumpi {
 			break // ???
-- 
2.43.0


From 2bb35b54d2501db068763cc8f16d13c9e8d12271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 36/41] fix: every pc maps to the number of its own instruction

---
 compile.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/compile.go b/compile.go
index ce1bc72..3fca9f6 100644
--- a/compile.go
+++ b/compile.go
@@ -169,18 +169,18 @@ func (c *CompiledContract) pc2info(pc int) *srcinfo {
 func (c *CompiledContract) compilePos() {
 	opnum := 0
 	var out []int
-	for i := range c.Code {
-		width := 0
+	for i := 0; i < len(c.Code); {
+		width := 1
 		b := c.Code[i]
-		out = append(out, opnum)
 		if b >= 0x60 && b < 0x80 {
-			width = int(b - 0x59)
+			width += int(b - 0x5f)
 		}
 		// for multi-byte instructions,
 		// any pc that points into the instruction
 		// gets the same opcode number
-		for j := 0; j < width; j++ {
+		for ; width > 0 && i < len(c.Code); width-- {
 			out = append(out, opnum)
+			i++
 		}
 		opnum++
 	}
-- 
2.43.0


From 33598312c69a9053876e745be2eccce36af387ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 37/41] fix: SourceOf gives no text for positions outside of
 the sources

---
 compile.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 3fca9f6..c36fe6d 100644
--- a/compile.go
+++ b/compile.go
@@ -156,7 +156,7 @@ func mustint(s string) int {
 }
 
 func (c *CompiledContract) pc2info(pc int) *srcinfo {
-	if pc >= len(c.pos) {
+	if pc < 0 || pc >= len(c.pos) {
 		return nil
 	}
 	n := c.pos[pc]
@@ -287,7 +287,14 @@ func (b *CompiledBundle) SourceOf(c *CompiledContract, pc int) string {
 	if info == nil {
 		return ""
 	}
-	return b.Sources[info.f][info.s : info.s+info.l]
+	if info.f < 0 || info.f >= len(b.Sources) {
+		return "" // compiler-generated code
+	}
+	src := b.Sources[info.f]
+	if info.s < 0 || info.s > len(src) || info.l < 0 || info.l > len(src)-info.s {
+		return ""
+	}
+	return src[info.s : info.s+info.l]
 }
 
 func compileError(errors []solcerror) error {
-- 
2.43.0


From 89d389832c1125a14e4a1206bbf963f6650e0143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 38/41] fix: bundles hold the text of every source, also of
 those without contracts

---
 compile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compile.go b/compile.go
index c36fe6d..d5a2ea3 100644
--- a/compile.go
+++ b/compile.go
@@ -254,8 +254,8 @@ func (s *solcout) toBundle() *CompiledBundle {
 		nc += len(cs)
 	}
 	b := &CompiledBundle{
-		Filenames: make([]string, len(s.Contracts)),
-		Sources:   make([]string, len(s.Contracts)),
+		Filenames: make([]string, len(s.Sources)),
+		Sources:   make([]string, len(s.Sources)),
 	}
 	// XXX: assume IDs are 0-indexed...
 	for name, id := range s.Sources {
@@ -443,7 +443,7 @@ func compile(sources []Source) (*CompiledBundle, error) {
 		}
 	}
 	for i := range b.Sources {
-		b.Sources[i] = sources[i].Body
+		b.Sources[i] = blob.Sources[b.Filenames[i]].Content
 	}
 	return b, nil
 }
-- 
2.43.0


From 22020afdd32c12c22aaccb26805efceb1f6f29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 39/41] fix: different source sets have different cache names

---
 compile.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compile.go b/compile.go
index d5a2ea3..3c4e142 100644
--- a/compile.go
+++ b/compile.go
@@ -7,7 +7,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"hash"
-	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -322,8 +321,9 @@ func cachename(sources []Source) string {
 	h0 := keccak.New256()
 	h1 := keccak.New256()
 	for i := range sources {
-		io.WriteString(h0, sources[i].Filename)
-		io.WriteString(h1, sources[i].Body)
+		// lengths keep apart sets with equal concatenations
+		fmt.Fprintf(h0, "%d:%s", len(sources[i].Filename), sources[i].Filename)
+		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)
 	}
 	// filename is 'name hash'-'content hash'.bundle
 	// so that we can to a quick glob search to remove
-- 
2.43.0


From 8009bee8c48401fc3655f0ce1a55f006e5881b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 40/41] fix: cleaning up stale bundles leaves other files alone

---
 compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index 3c4e142..0faf26e 100644
--- a/compile.go
+++ b/compile.go
@@ -336,7 +336,7 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	f, err := os.Open(name)
 	if err != nil {
 		// let's look for stale builds and clean them up
-		i := strings.IndexByte(name, '-')
+		i := strings.LastIndexByte(name, '-')
 		if i != -1 && i != len(name)-1 {
 			all, err := filepath.Glob(name[:i+1] + "*")
 			if err == nil {
-- 
2.43.0


From 830d5a61e158c8c2a60b1ce75905cd1e197b21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 41/41] fix: source map entries with a modifier depth are not
 ignored

---
 compile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compile.go b/compile.go
index 0faf26e..e3432d8 100644
--- a/compile.go
+++ b/compile.go
@@ -195,6 +195,8 @@ func (c *CompiledContract) compileSourcemap() {
 		}
 		sections := strings.Split(ops[i], ":")
 		switch len(sections) {
+		case 5:
+			fallthrough // modifier depth; unused
 		case 4:
 			if len(sections[3]) > 0 {
 				out[i].j = sections[3][0]
-- 
2.43.0

