From 863fa3b1595a8e5c160d3acdd69d98d6c89096a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 01/64] fix: decode hex into a destination regardless of its
 old content

---
 hex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hex.go b/hex.go
index 5b771ce..9bb6722 100644
--- a/hex.go
+++ b/hex.go
@@ -54,6 +54,9 @@ func hexdecode(dst, src []byte) error {
 	// make sure that it implicitly has a 0 nibble
 	// at the beginning rather than at the end.
 	addend := uint(len(src) & 1)
+	for i := range dst {
+		dst[i] = 0
+	}
 	for i, b := range src[2:] {
 		a, ok := fromhex(b)
 		if !ok {
-- 
2.43.0


From 48aa33f0f68c373c123eb03f7beb381b6ee8c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 02/64] fix: write the zero quantity as 0x0

---
 hex.go  | 3 +++
 seth.go | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/hex.go b/hex.go
index 9bb6722..f64d6c0 100644
--- a/hex.go
+++ b/hex.go
@@ -70,6 +70,9 @@ func hexdecode(dst, src []byte) error {
 
 // hexstring returns a hex string of the given data
 func hexstring(b []byte, trunc bool) []byte {
+	if trunc && len(b) == 0 {
+		return []byte("0x0")
+	}
 	buf := make([]byte, 2+2*len(b))
 	hex.Encode(buf[2:], b)
 	if trunc && len(buf) > 2 && buf[2] == '0' {
diff --git a/seth.go b/seth.go
index 1cfb47a..e5c8e7f 100644
--- a/seth.go
+++ b/seth.go
@@ -221,7 +221,9 @@ func (i *Int) UnmarshalText(b []byte) error {
 	if err != nil {
 		return err
 	}
-	i.Big().SetBytes(buf)
+	// trim leading zeros so that zero decodes
+	// to the canonical (empty) representation
+	i.Big().SetBytes(bytes.TrimLeft(buf, "\x00"))
 	return nil
 }
 
-- 
2.43.0


From eff3995e3c35faa735c83a8472fd81067bb59086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 03/64] fix: ABI-encode negative integers in two's complement

---
 send.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/send.go b/send.go
index c95c308..f7b8264 100644
--- a/send.go
+++ b/send.go
@@ -40,10 +40,20 @@ func (a *Address) EncodeABI(v []byte) []byte {
 
 func (a *Address) internal() {}
 
+var twoTo256 = new(big.Int).Lsh(big.NewInt(1), 256)
+
 // EncodeABI implements EtherType
 func (i *Int) EncodeABI(v []byte) []byte {
 	var w [32]byte
-	bits := (*big.Int)(i).Bytes()
+	x := (*big.Int)(i)
+	if x.Sign() < 0 {
+		// negative integers are encoded in two's complement
+		x = new(big.Int).Add(x, twoTo256)
+		if x.Sign() < 0 || x.BitLen() != 256 {
+			panic("ABI encoding: integer overflow")
+		}
+	}
+	bits := x.Bytes()
 	if len(bits) > 32 {
 		panic("ABI encoding: integer overflow")
 	}
-- 
2.43.0


From 90f8cccee7e73a9e47013df47218d77e531e5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 04/64] fix: check calls of functions with one or no arguments

---
 send.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/send.go b/send.go
index f7b8264..1bf1955 100644
--- a/send.go
+++ b/send.go
@@ -187,11 +187,11 @@ func typecheck(f string, args []EtherType) {
 		panic(f + " has a bad right paren")
 	}
 	var argstrings []string
-	if strings.Contains(f[lparen+1:rparen], ",") {
-		argstrings = strings.Split(f[lparen+1:rparen], ",")
-		if len(argstrings) != len(args) {
-			panic(fmt.Sprintf("mismatched argument lists: %d args vs %d given", len(argstrings), len(args)))
-		}
+	if types := f[lparen+1 : rparen]; types != "" {
+		argstrings = strings.Split(types, ",")
+	}
+	if len(argstrings) != len(args) {
+		panic(fmt.Sprintf("mismatched argument lists: %d args vs %d given", len(argstrings), len(args)))
 	}
 	for i := range argstrings {
 		switch argstrings[i] {
-- 
2.43.0


From 4dad0c08e46cf171f3ae85adfe6483877ff09657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:27 +0000
Subject: [PATCH 05/64] fix: decode every ABI value at its own position and
 within the data

---
 send.go | 121 +++++++++++++++++++++++---------------------------------
 1 file changed, 50 insertions(+), 71 deletions(-)

diff --git a/send.go b/send.go
index 1bf1955..4417927 100644
--- a/send.go
+++ b/send.go
@@ -336,6 +336,26 @@ func (d *ABIDecoder) UnmarshalText(v []byte) error {
 	return DecodeABI([]byte(data), (*d)...)
 }
 
+// dynamic returns the content and the length of the variable-length value
+// whose offset is stored at cur[head:head+32]. The length is in elements
+// of the given size.
+func dynamic(cur []byte, head, size int64) ([]byte, int64, error) {
+	var spare big.Int
+	end := int64(len(cur))
+	spare.SetBytes(cur[head : head+32])
+	doff := spare.Int64()
+	if !spare.IsInt64() || doff < head+32 || doff > end-32 {
+		return nil, 0, fmt.Errorf("bad offset %s for data length returned (%d)", &spare, end)
+	}
+	dpos := doff + 32
+	spare.SetBytes(cur[doff:dpos])
+	length := spare.Int64()
+	if !spare.IsInt64() || length > (end-dpos)/size {
+		return nil, 0, fmt.Errorf("bad length %s for data length returned (%d)", &spare, end)
+	}
+	return cur[dpos : dpos+length*size], length, nil
+}
+
 // DecodeABI decodes a solidity return value into its
 // constituent arguments.
 //
@@ -356,25 +376,22 @@ func DecodeABI(v []byte, args ...interface{}) error {
 	cur := v
 	offset := int64(0)
 	for i, v := range args {
-		if len(cur[offset:]) == 0 {
+		if int64(len(cur)) < offset+32 {
 			return fmt.Errorf("no argument returned at position %d", i)
 		}
-		buf := cur[offset:]
-		if len(buf) > 32 {
-			buf = buf[:32]
-		}
+		buf := cur[offset : offset+32]
 
 		// easy cases that don't involve converting types
 		// or handling variable-length types
 		did := true
 		switch v := v.(type) {
 		case *Data:
-			if len(*v) < 32 {
+			if len(*v) != 32 {
 				*v = make([]byte, 32)
 			}
-			copy(*v, cur)
+			copy(*v, buf)
 		case *Address:
-			copy(v[:], cur[12:])
+			copy(v[:], buf[12:])
 		case *Int:
 			(*big.Int)(v).SetBytes(buf)
 		case *big.Int:
@@ -390,92 +407,54 @@ func DecodeABI(v []byte, args ...interface{}) error {
 		spare.SetBytes(buf)
 		switch v := v.(type) {
 		case *string:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad string offset %d for data length returned (%d)", doff, len(cur))
+			b, _, err := dynamic(cur, offset, 1)
+			if err != nil {
+				return err
 			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length >= int64(len(cur)) {
-				return fmt.Errorf("bad string length %d for data length returned (%d)", length, len(cur))
-			}
-			*v = string(cur[dpos : dpos+length])
+			*v = string(b)
 		case *[]byte:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			b, length, err := dynamic(cur, offset, 1)
+			if err != nil {
+				return err
 			}
 			*v = make([]byte, length)
-			copy(*v, cur[dpos:dpos+length])
+			copy(*v, b)
 		case *Bytes:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad bytes offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+length > int64(len(cur)) {
-				return fmt.Errorf("bad bytes length %d for data length returned (%d)", length, len(cur))
+			b, length, err := dynamic(cur, offset, 1)
+			if err != nil {
+				return err
 			}
 			*v = make([]byte, length)
-			copy(*v, cur[dpos:dpos+length])
+			copy(*v, b)
 		case *IntSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			b, length, err := dynamic(cur, offset, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Int, length)
 			for i := range s {
-				o := int(dpos) + i*32
-				(*big.Int)(&s[i]).SetBytes(cur[o : o+32])
+				(*big.Int)(&s[i]).SetBytes(b[i*32 : i*32+32])
 			}
 			*v = IntSlice(s)
 		case *AddrSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			b, length, err := dynamic(cur, offset, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Address, length)
 			for i := range s {
-				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+				copy(s[i][:], b[i*32+12:i*32+32])
 			}
 			*v = AddrSlice(s)
 		case *DataSlice:
-			doff := spare.Int64()
-			if doff < offset+32 || doff >= int64(len(cur)-32) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
-			}
-			spare.SetBytes(cur[doff : doff+32])
-			length := spare.Int64()
-			dpos := doff + 32
-			if dpos+(length*32) > int64(len(cur)) {
-				return fmt.Errorf("bad slice offset %d for data length returned (%d)", doff, len(cur))
+			b, length, err := dynamic(cur, offset, 32)
+			if err != nil {
+				return err
 			}
 			s := make([]Data, length)
 			for i := range s {
-				o := int(dpos) + i*32
-				copy(s[i][:], cur[o+12:o+32])
+				s[i] = make([]byte, 32)
+				copy(s[i], b[i*32:i*32+32])
 			}
 			*v = DataSlice(s)
 		case *bool:
-- 
2.43.0


From c2208bcce4bc6ef03374b964e0c141293f1db6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:21 +0000
Subject: [PATCH 06/64] fix: refuse to recover from a signature whose r is not
 on the curve

---
 signature.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signature.go b/signature.go
index 8017350..7a51991 100644
--- a/signature.go
+++ b/signature.go
@@ -114,6 +114,9 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 	}
 
 	CurvePoint(&r, &ry, v)
+	if !curve.IsOnCurve(&r, &ry) {
+		return nil, errors.New("invalid signature")
+	}
 
 	ri.ModInverse(&r, order)
 	si.Mul(&ri, &s)
-- 
2.43.0


From 33c84381d1d8c2f3b2843afb1c0ea2642acf2442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:26 +0000
Subject: [PATCH 07/64] fix: copy a squeezing sponge without going out of range

---
 keccak/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keccak/sha3.go b/keccak/sha3.go
index 9a13f8e..3a9a87e 100644
--- a/keccak/sha3.go
+++ b/keccak/sha3.go
@@ -69,7 +69,7 @@ func (d *state) clone() *state {
 	if ret.state == spongeAbsorbing {
 		ret.buf = ret.storage[:len(ret.buf)]
 	} else {
-		ret.buf = ret.storage[d.rate-cap(d.buf) : d.rate]
+		ret.buf = ret.storage[maxRate-cap(d.buf) : d.rate]
 	}
 
 	return &ret
-- 
2.43.0


From f94e63ab263d827a85d839f4c66fa4bce7990188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 08/64] fix: keep older snapshots usable when an empty tree is
 rolled back to

Snapshot returned -1 for any empty tree, and rolling back to -1 dropped every
earlier snapshot, so that rolling back to one of them went out of range.
---
 tevm/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 85340ea..732e415 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -167,7 +167,7 @@ func (t *Tree) Get(key []byte) []byte {
 // Snapshot returns a snapshot number for the
 // current state of the tree
 func (t *Tree) Snapshot() int {
-	if t.Root == 0 {
+	if t.Root == 0 && len(t.Snaps) == 0 {
 		return -1
 	}
 	s := len(t.Snaps)
-- 
2.43.0


From 7ed7477adc0d59e26ef1b64a561052aa65c41e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 09/64] fix: keep tree copies apart when either side rolls back
 or is snapshotted

CopyAt shared the spare capacity of the snapshot list, and Rollback kept the
capacity of both lists, so that later appends overwrote nodes and snapshots
that a copy still used.
---
 tevm/tree.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tevm/tree.go b/tevm/tree.go
index 732e415..f55e1be 100644
--- a/tevm/tree.go
+++ b/tevm/tree.go
@@ -195,10 +195,10 @@ func (t *Tree) CopyAt(snap int) Tree {
 	}
 	s := t.Snaps[snap]
 	return Tree{
-		Snaps: t.Snaps[:snap+1],
-		Root:  s.Root,
-		// make sure any appends to the node list
-		// cause reallocation of the backing data
+		Root: s.Root,
+		// make sure any appends to the snapshot and
+		// node lists cause reallocation of the backing data
+		Snaps: t.Snaps[:snap+1 : snap+1],
 		All:   t.All[:s.Allocated:s.Allocated],
 		Epoch: t.Epoch + 1,
 	}
@@ -213,9 +213,11 @@ func (t *Tree) Rollback(snap int) {
 		return
 	}
 	s := t.Snaps[snap]
-	t.Snaps = t.Snaps[:snap+1]
 	t.Root = s.Root
-	t.All = t.All[:s.Allocated]
+	// the discarded data may be shared with a copy
+	// of the tree, so appends must not overwrite it
+	t.Snaps = t.Snaps[:snap+1 : snap+1]
+	t.All = t.All[:s.Allocated:s.Allocated]
 	t.Epoch++
 }
 
-- 
2.43.0


From 543950621375b702553fb16a712e1fe92a3e055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 10/64] fix: read a decimal without integer part into a used
 number

parseDigits added the fraction to whatever the destination held before.
---
 cc/currency.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cc/currency.go b/cc/currency.go
index 12b8c61..b9a0a4f 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -115,6 +115,7 @@ func parseDigits(num *big.Int, s string, digits int) (*big.Int, error) {
 	if ip == "" && fp == "" {
 		return nil, errors.New("cc: number cannot be empty")
 	}
+	num.SetInt64(0)
 	if ip != "" {
 		if !isdigit(rune(ip[0])) {
 			return nil, errors.New("cc: invalid character in integer part: " + s)
-- 
2.43.0


From ea80ab81905d1d23c67b8d3ce083a95e07913f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 11/64] fix: refuse a single quote as a JSON rate instead of
 panicking

---
 cc/currency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/currency.go b/cc/currency.go
index b9a0a4f..2f32c72 100644
--- a/cc/currency.go
+++ b/cc/currency.go
@@ -179,7 +179,7 @@ func (r *Rate) UnmarshalJSON(b []byte) error {
 	if string(b) == "null" {
 		return nil
 	}
-	if len(b) > 0 && b[0] == '"' && b[len(b)-1] == '"' {
+	if len(b) >= 2 && b[0] == '"' && b[len(b)-1] == '"' {
 		b = b[1 : len(b)-1]
 	}
 	n, err := ParseRate(string(b))
-- 
2.43.0


From d5bb727f00fa0a12f97bba0a2d2a807e12bc546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 12/64] fix: keep the balance an address already has when its
 account is created

---
 tevm/evm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 591a5f9..b840315 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -143,6 +143,11 @@ func (s *gethState) CreateAccount(addr common.Address) {
 	}
 	var empty Account
 	a := seth.Address(addr)
+	// the balance sent to an address before
+	// its account is created must be kept
+	old, _ := s.getAccount(&a)
+	bal := old.Balance()
+	empty.SetBalance(bal.Big())
 	s.setAccount(&a, &empty)
 }
 
-- 
2.43.0


From 5f92c3c08bad24934647748230f85b7245f3ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 13/64] fix: take the balance from a destroyed account

The beneficiary got it while the account kept it.
---
 tevm/evm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index b840315..8f7075b 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -388,12 +388,15 @@ func (s *gethState) Suicide(addr common.Address) bool {
 	// out of the JSON-RPC API, so this may
 	// simply be wrong.
 	acct, ok := s.getAccount(&a)
-	if !ok || acct.Suicided() {
+	if !ok {
 		return false
 	}
+	first := !acct.Suicided()
 	acct.SetSuicided(true)
+	// the beneficiary has got the balance by now
+	acct.SetBalance(&zero)
 	s.setAccount(&a, &acct)
-	return true
+	return first
 }
 
 func (s *gethState) HasSuicided(addr common.Address) bool {
-- 
2.43.0


From 3055de591a8a205556fb85997d6c0bad3fb9a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 14/64] fix: a transfer to oneself minted the amount

---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 8f7075b..df7b598 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -723,7 +723,7 @@ func dotransfer(s vm.StateDB, from, to common.Address, v *big.Int) {
 	if st.Trace != nil {
 		st.Trace("Transfer", from.String(), to.String(), v.String())
 	}
-	if v.Sign() == 0 {
+	if v.Sign() == 0 || from == to {
 		return
 	}
 
-- 
2.43.0


From 7c0201f23a6424360948f1e9a2ffc93c799096a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 15/64] fix: undo the effects of a gas estimate that fails

---
 tevm/transport.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 07249fa..66d37c8 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -410,7 +410,7 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 
 	// TODO: incorporate gas price
 	evm.Context.GasPrice = big.NewInt(0)
-	snap := evm.StateDB.Snapshot()
+	defer evm.StateDB.RevertToSnapshot(evm.StateDB.Snapshot())
 
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
@@ -431,8 +431,6 @@ func (c *Chain) estimate(a *callArgs, blocknum int64) (seth.Uint64, error) {
 		gas -= rem
 	}
 
-	evm.StateDB.RevertToSnapshot(snap)
-
 	return seth.Uint64(gas), nil
 }
 
-- 
2.43.0


From 03f91164254656e9888a759f95a76af44eec64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 16/64] fix: ask for the pending block when listing pending
 transactions

---
 seth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seth.go b/seth.go
index e5c8e7f..acef926 100644
--- a/seth.go
+++ b/seth.go
@@ -523,7 +523,7 @@ func (c *Client) BlockNumber() (int64, error) {
 
 // Pending returns the list of pending transactions.
 func (c *Client) Pending() ([]Transaction, error) {
-	b, err := c.GetBlock(-1, true)
+	b, err := c.GetBlock(Pending, true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 24c55997f85106e82dd2eb745a909a3f5e539eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 17/64] fix: cancel a transaction at a gas price above 63 bits

The bumped price was computed in an int64, so a pending price of 2^63-1 or
more became a negative or a much lower one.
---
 sender.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 6f4a522..66f9f6f 100644
--- a/sender.go
+++ b/sender.go
@@ -174,7 +174,9 @@ func (s *Sender) Cancel(h *Hash) (Hash, error) {
 	if s.GasPrice.Cmp(&tx.GasPrice) > 0 {
 		opts.GasPrice = &s.GasPrice
 	} else {
-		opts.GasPrice = NewInt(tx.GasPrice.Int64() + 1)
+		price := tx.GasPrice.Copy()
+		price.Big().Add(price.Big(), big.NewInt(1))
+		opts.GasPrice = &price
 	}
 	return s.Call(&opts)
 }
-- 
2.43.0


From 0c0bf86b623453c0bd548a910a0e0775fd2bbb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 18/64] fix: use the whole filter id

The id returned by eth_newFilter was truncated to 63 bits, so every later
request named another filter on nodes with long (random) filter ids.
---
 filter.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/filter.go b/filter.go
index e11b991..9fcb221 100644
--- a/filter.go
+++ b/filter.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"log"
 	"math"
-	"math/big"
 	"strconv"
 	"sync"
 	"time"
@@ -12,7 +11,7 @@ import (
 
 // Filter represents a Log filter
 type Filter struct {
-	id  int64
+	id  Int
 	c   *Client
 	out chan *Log
 
@@ -53,7 +52,7 @@ func (f *Filter) Close() {
 	if !f.closed {
 		close(f.exit)
 		f.closed = true
-		f.c.deleteFilter(f.id)
+		f.c.deleteFilter(&f.id)
 	}
 	f.lock.Unlock()
 }
@@ -66,7 +65,7 @@ type newFilterReq struct {
 }
 
 func frecv(f *Filter) {
-	logs, err := f.c.getLogs(f.id)
+	logs, err := f.c.getLogs(&f.id)
 	if err != nil {
 		f.seterr(err)
 		goto done
@@ -84,7 +83,7 @@ func frecv(f *Filter) {
 			ticker.Stop()
 			goto done
 		case <-ticker.C:
-			logs, err := f.c.getUpdates(f.id)
+			logs, err := f.c.getUpdates(&f.id)
 			if err != nil {
 				f.seterr(err)
 				ticker.Stop()
@@ -99,23 +98,34 @@ done:
 	close(f.out)
 }
 
-func (c *Client) getLogs(id int64) ([]Log, error) {
+func (c *Client) getLogs(id *Int) ([]Log, error) {
 	var o []Log
-	p := []json.RawMessage{itox(id)}
-	err := c.Do("eth_getFilterLogs", p, &o)
+	buf, err := json.Marshal(id)
+	if err != nil {
+		return nil, err
+	}
+	p := []json.RawMessage{buf}
+	err = c.Do("eth_getFilterLogs", p, &o)
 	return o, err
 }
 
-func (c *Client) getUpdates(id int64) ([]Log, error) {
+func (c *Client) getUpdates(id *Int) ([]Log, error) {
 	var o []Log
-	p := []json.RawMessage{itox(id)}
-	err := c.Do("eth_getFilterChanges", p, &o)
+	buf, err := json.Marshal(id)
+	if err != nil {
+		return nil, err
+	}
+	p := []json.RawMessage{buf}
+	err = c.Do("eth_getFilterChanges", p, &o)
 	return o, err
 }
 
-func (c *Client) deleteFilter(id int64) {
+func (c *Client) deleteFilter(id *Int) {
 	var out bool
-	err := c.Do("eth_uninstallFilter", []json.RawMessage{itox(id)}, &out)
+	buf, err := json.Marshal(id)
+	if err == nil {
+		err = c.Do("eth_uninstallFilter", []json.RawMessage{buf}, &out)
+	}
 	if err != nil || !out {
 		log.Printf("uninstallFilter: %s %v", err, out)
 	}
@@ -156,12 +166,11 @@ func (c *Client) FilterTopics(topics []*Hash, addr *Address, start, end int64) (
 	if err != nil {
 		return nil, err
 	}
-	var out Int
-	err = c.Do("eth_newFilter", []json.RawMessage{buf}, &out)
+	var id Int
+	err = c.Do("eth_newFilter", []json.RawMessage{buf}, &id)
 	if err != nil {
 		return nil, err
 	}
-	id := (*big.Int)(&out).Int64()
 	f := &Filter{c: c, out: make(chan *Log, 20), exit: make(chan struct{}, 1), id: id, poll: poll}
 	go frecv(f)
 	return f, nil
-- 
2.43.0


From a26f3c87359a213c328d119e56e847c2e51b8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 19/64] fix: iterate from the latest or pending block

IterateBlocks(Latest) went on with block 0 after the latest block.
---
 seth.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seth.go b/seth.go
index acef926..de0188c 100644
--- a/seth.go
+++ b/seth.go
@@ -656,6 +656,10 @@ func (b *BlockIterator) getLoop(block int64, txs bool) {
 				continue
 			}
 			b.out <- v
+			if block < 0 && v.Number != nil {
+				// a special block: go on from the block it denotes
+				block = int64(*v.Number)
+			}
 			block++
 		}
 	}
-- 
2.43.0


From 1f766b347e27b921633756f5580e7ab9c264fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 20/64] fix: give each response of a connection its own buffer

The reader of an aborted connection and the reader of its replacement
shared RPCTransport.res.
---
 client.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index b926f1c..93b5e38 100644
--- a/client.go
+++ b/client.go
@@ -28,15 +28,14 @@ type RPCTransport struct {
 	conn    io.ReadWriteCloser
 	enc     *json.Encoder // wraps send side of conn
 	pending map[int]*pending
-	res     RPCResponse
 	dial    func() (io.ReadWriteCloser, error)
 }
 
 func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 	dec := json.NewDecoder(conn)
 	for {
-		t.res = RPCResponse{}
-		err := dec.Decode(&t.res)
+		var res RPCResponse
+		err := dec.Decode(&res)
 		if err != nil {
 			log.Printf("seth: conn read: %s", err)
 			t.lock.Lock()
@@ -48,22 +47,22 @@ func (t *RPCTransport) background(conn io.ReadWriteCloser) {
 			return
 		}
 		t.lock.Lock()
-		p := t.pending[t.res.ID]
+		p := t.pending[res.ID]
 		if p != nil {
-			delete(t.pending, t.res.ID)
+			delete(t.pending, res.ID)
 		}
 		t.lock.Unlock()
 		if p == nil {
-			log.Printf("spurious response ID %d", t.res.ID)
+			log.Printf("spurious response ID %d", res.ID)
 			continue
 		}
-		if t.res.Error.Code != 0 || t.res.Error.Message != "" {
-			c := t.res.Error
+		if res.Error.Code != 0 || res.Error.Message != "" {
+			c := res.Error
 			p.err = &c
-		} else if bytes.Equal(t.res.Result, rawnull) {
+		} else if bytes.Equal(res.Result, rawnull) {
 			p.err = ErrNotFound
 		} else {
-			*p.res = t.res
+			*p.res = res
 		}
 		close(p.notify)
 	}
-- 
2.43.0


From 599d63ec97a515cbf9fc161ca619c505e1527d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 21/64] fix: drain waits for the account's pending transactions

Drain looked at the latest block instead of the pending one and compared
addresses by pointer, so it never found a transaction.
---
 sender.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sender.go b/sender.go
index 66f9f6f..6c9eabb 100644
--- a/sender.go
+++ b/sender.go
@@ -199,7 +199,7 @@ func (s *Sender) Wait(h *Hash) error {
 // contain no transactions from this account.
 func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 	for {
-		p, err := s.GetBlock(-1, true)
+		p, err := s.GetBlock(Pending, true)
 		if err != nil {
 			return err
 		}
@@ -209,7 +209,7 @@ func (s *Sender) Drain(prompt ...func(t *Transaction)) error {
 		}
 		var t *Transaction
 		for i := range txs {
-			if txs[i].From == s.Addr {
+			if txs[i].From != nil && *txs[i].From == *s.Addr {
 				t = &txs[i]
 				break
 			}
-- 
2.43.0


From 9e6d98d25ceb7ffbb3f4bc4bfc20a768df1d8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 22/64] fix: refuse key files with a short derived key

They panicked, or opened with overlapping cipher and MAC keys.
---
 keyfile.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index c01770a..f978d43 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -37,6 +37,10 @@ type Keyfile struct {
 	Meta    json.RawMessage `json:"meta"`
 }
 
+// minKeylen is the shortest derived key: 16 bytes for the cipher and 16 for
+// the MAC.
+const minKeylen = 32
+
 func (k *Keyfile) ciphertext() ([]byte, error) {
 	return hex.DecodeString(k.Crypto.Ciphertext)
 }
@@ -73,6 +77,9 @@ func pbkdf2Derive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 		return nil, fmt.Errorf("pbkdf2 salt: %s", err)
 	}
 
+	if p.Keylen < minKeylen {
+		return nil, fmt.Errorf("pbkdf2: derived key length %d is too short", p.Keylen)
+	}
 	return pbkdf2.Key(pass, salt, p.Iters, p.Keylen, h), nil
 }
 
@@ -92,6 +99,9 @@ func scryptDerive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if p.Keylen < minKeylen {
+		return nil, fmt.Errorf("scrypt: derived key length %d is too short", p.Keylen)
+	}
 	return scrypt.Key(pass, salt, p.N, p.R, p.P, p.Keylen)
 }
 
-- 
2.43.0


From 76fef7f032680070c9a509ecea56293b78493abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 23/64] fix: refuse key files with scrypt parameters below 1

scrypt.Key divides by them.
---
 keyfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index f978d43..e5342bd 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -102,6 +102,9 @@ func scryptDerive(pass []byte, jsparams json.RawMessage) ([]byte, error) {
 	if p.Keylen < minKeylen {
 		return nil, fmt.Errorf("scrypt: derived key length %d is too short", p.Keylen)
 	}
+	if p.R <= 0 || p.P <= 0 {
+		return nil, fmt.Errorf("scrypt: bad parameters r=%d p=%d", p.R, p.P)
+	}
 	return scrypt.Key(pass, salt, p.N, p.R, p.P, p.Keylen)
 }
 
-- 
2.43.0


From 262e5088c22f8db1af3aeec8b75f0388f53a962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 24/64] fix: refuse key files with a bad iv length

cipher.NewCTR panics on them.
---
 keyfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index e5342bd..8976743 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -132,6 +132,9 @@ func aes128ctrDecipher(key, ciphertext []byte, jsparams json.RawMessage) error {
 	if err != nil {
 		return fmt.Errorf("bad aes-128-ctr iv: %s", err)
 	}
+	if len(iv) != aes.BlockSize {
+		return fmt.Errorf("bad aes-128-ctr iv: length %d", len(iv))
+	}
 	block, err := aes.NewCipher(key[:16])
 	if err != nil {
 		return err
-- 
2.43.0


From c620ea7e0fc48534ff19e5e74328433b04381c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 25/64] fix: refuse key files whose ciphertext is not a key

The key was padded or cut without notice.
---
 keyfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyfile.go b/keyfile.go
index 8976743..c22bdc0 100644
--- a/keyfile.go
+++ b/keyfile.go
@@ -190,6 +190,9 @@ func (k *Keyfile) Private(passphrase []byte) (*PrivateKey, error) {
 		return nil, err
 	}
 	priv := new(PrivateKey)
+	if len(ciphertext) != len(priv) {
+		return nil, fmt.Errorf("bad ciphertext length %d", len(ciphertext))
+	}
 	copy(priv[:], ciphertext)
 	if k.Address != "" {
 		want, err := hex.DecodeString(k.Address)
-- 
2.43.0


From cd3ca8b3e0569c68c29147ec73b64809b17fb5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 26/64] fix: refuse parameters that cannot be decoded

Decoding errors were dropped, so a request with a malformed parameter was
answered as if it were zero. Block numbers arrive as hex quantities, which
were never understood.
---
 tevm/transport.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 66d37c8..3510288 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -6,9 +6,9 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"math"
 	"math/big"
 	"net/http"
-	"strconv"
 
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/core/vm"
@@ -40,6 +40,7 @@ type blocknum int64
 var rawlatest = []byte(`"latest"`)
 var rawpending = []byte(`"pending"`)
 var rawearliest = []byte(`"earliest"`)
+var rawnull = []byte("null")
 
 func (b *blocknum) UnmarshalJSON(buf []byte) error {
 	switch {
@@ -51,10 +52,13 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 		*b = 0
 	default:
 		// should be an integer
-		i, err := strconv.ParseInt(string(buf), 10, 64)
-		if err != nil {
+		var i seth.Uint64
+		if err := json.Unmarshal(buf, &i); err != nil {
 			return err
 		}
+		if i > math.MaxInt64 {
+			return fmt.Errorf("block number %d out of range", uint64(i))
+		}
 		*b = blocknum(i)
 	}
 	return nil
@@ -439,7 +443,12 @@ func marshal(from []json.RawMessage, to ...interface{}) error {
 		return fmt.Errorf("expected %d params; found %d", len(to), len(from))
 	}
 	for i := range from {
-		gross(from[i], to[i])
+		if bytes.Equal(from[i], rawnull) {
+			return fmt.Errorf("missing param %d", i)
+		}
+		if err := json.Unmarshal(from[i], to[i]); err != nil {
+			return fmt.Errorf("bad param %d: %s", i, err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From f6d788998590544879de6af9d36ee7929ecd73ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 27/64] fix: look up the pending and latest blocks

---
 tevm/transport.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 3510288..e67a5f7 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -183,13 +183,19 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		}
 		return c.getBlock(&h, all)
 	case "eth_getBlockByNumber":
-		var n seth.Int
 		var all bool
-		if err := marshal(params, &n, &all); err != nil {
+		if err := marshal(params, &b, &all); err != nil {
 			return nil, err
 		}
+		n := int64(b)
+		switch n {
+		case -1: // pending
+			n = int64(*c.State.Pending.Number)
+		case -2: // latest
+			n = int64(*c.State.Pending.Number) - 1
+		}
 		// hack: block hashes are hashes of the block number
-		h := seth.Hash(n2h(uint64(n.Int64())))
+		h := seth.Hash(n2h(uint64(n)))
 		return c.getBlock(&h, all)
 	case "eth_newFilter":
 		type newFilterReq struct {
-- 
2.43.0


From f90bfbb253f40f98d5d27d9757c4f5af0f923ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 28/64] fix: looking at the pending block does not change it

Asking for it with its transactions replaced its transaction hashes by the
transactions, after which it could neither be asked for nor sealed properly.
---
 tevm/transport.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index e67a5f7..898cc3d 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -324,7 +324,8 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 func (c *Chain) getBlock(h *seth.Hash, fulltx bool) (*seth.Block, error) {
 	var b *seth.Block
 	if bytes.Equal(h[:], c.State.Pending.Hash[:]) {
-		b = c.State.Pending
+		p := *c.State.Pending
+		b = &p
 	} else {
 		buf := c.State.Blocks.Get(h[:])
 		if buf == nil {
-- 
2.43.0


From 56753920181d1ffcc7200362ba51ec8cae9231f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 29/64] fix: give the first block of a fork its own hash

It had the hash of block 100, so it was not found by number once sealed.
---
 tevm/evm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index df7b598..1d67743 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -683,7 +683,9 @@ func NewFork(c *seth.Client, blocknum int64) *Chain {
 
 	// For convenience, start our chain at blocknum+1
 	n := seth.Uint64(blocknum + 1)
+	h := seth.Hash(n2h(uint64(n)))
 	chain.State.Pending.Number = &n
+	chain.State.Pending.Hash = &h
 
 	chain.State.Fallback.Client = c
 	chain.State.Fallback.Block = blocknum
-- 
2.43.0


From 601c0cdc72edff8ccd27757f06c0f853a9448ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 30/64] fix: copies of a chain keep its blocks and pending
 receipts

Sealing a block of a copy panicked, its sealed blocks were unknown, the
receipts of its pending transactions got lost, and mining on the copy and the
original overwrote each other's pending transactions.
---
 tevm/evm.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index 1d67743..74f3a9c 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -135,6 +135,7 @@ type statesnap struct {
 	LogLen   int
 	TXs      int
 	RXs      int
+	Blocks   int // 1 + snapshot of Blocks
 }
 
 func (s *gethState) CreateAccount(addr common.Address) {
@@ -440,6 +441,7 @@ func (s *gethState) Snapshot() int {
 		State:    s.Storage.Snapshot(),
 		TXs:      s.Transactions.Snapshot(),
 		RXs:      s.Receipts.Snapshot(),
+		Blocks:   1 + s.Blocks.Snapshot(),
 		LogLen:   len(s.Logs),
 	}
 	s.Snapshots = append(s.Snapshots, snap)
@@ -461,6 +463,7 @@ func (s *State) atSnap(n int, dst *State) {
 	dst.Storage = s.Storage.CopyAt(ns.State)
 	dst.Transactions = s.Transactions.CopyAt(ns.TXs)
 	dst.Receipts = s.Receipts.CopyAt(ns.RXs)
+	dst.Blocks = s.Blocks.CopyAt(ns.Blocks - 1)
 	// prevent any updates to this new state
 	// from clobbering the receiver
 	dst.Logs = s.Logs[:ns.LogLen:ns.LogLen]
@@ -543,10 +546,25 @@ func (c *Chain) Copy() *Chain {
 	c.State.atSnap(((*gethState)(&c.State)).Snapshot(), &cc.State)
 
 	p := *c.State.Pending
+	// appends must not overwrite the transactions of the other chain
+	p.Transactions = p.Transactions[:len(p.Transactions):len(p.Transactions)]
 	cc.State.Pending = &p
+	cc.pendingrx = append(cc.pendingrx, c.pendingrx...)
+	cc.block2snap = c.snapsBefore(int64(*p.Number))
 	return cc
 }
 
+// snapsBefore returns the snapshots of the blocks before n.
+func (c *Chain) snapsBefore(n int64) map[int64]int {
+	out := make(map[int64]int)
+	for b, snap := range c.block2snap {
+		if b < n {
+			out[b] = snap
+		}
+	}
+	return out
+}
+
 // AtBlock returns the chain state at a given
 // block number. As a special case, -1 is interpreted
 // as the pending block (i.e. the current chain state),
-- 
2.43.0


From c9f05bd188e47522220033876a9909c49d07eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 31/64] fix: the chain at an old block keeps its own history

It shared the list of blocks with the original, so sealing a block on it
redirected the original's, and looking for later blocks panicked.
---
 tevm/evm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 74f3a9c..5544f42 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -608,7 +608,7 @@ func (c *Chain) AtBlock(n int64) *Chain {
 	c.State.atSnap(snap, &cc.State)
 	cc.Debugf = c.Debugf
 	cc.State.Pending = nb
-	cc.block2snap = c.block2snap
+	cc.block2snap = c.snapsBefore(n)
 	return cc
 }
 
-- 
2.43.0


From 20b3a866c473ff14c050dc88831fd93b9937c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 32/64] fix: receipts and logs tell their place in the chain

---
 tevm/evm.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 5544f42..baf6d82 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -969,17 +969,25 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	tx.Block = *b.Hash
 	tx.BlockNumber = *b.Number
 
-	for _, l := range c.State.Logs[l0:] {
+	logs := 0 // in this block
+	for _, rx := range c.pendingrx {
+		logs += len(rx.Logs)
+	}
+	for i, l := range c.State.Logs[l0:] {
 		copy(l.TxHash[:], tx.Hash[:])
+		l.BlockHash = common.Hash(*b.Hash)
+		l.TxIndex = uint(*idx)
+		l.Index = uint(logs + i)
 	}
 
 	rx := &seth.Receipt{
-		Hash:       tx.Hash,
-		Index:      *tx.TxIndex,
-		GasUsed:    seth.Uint64(used),
-		Cumulative: b.GasUsed,
-		Logs:       lconv(c.State.Logs[l0:]),
-		Status:     seth.Uint64(status),
+		Hash:        tx.Hash,
+		Index:       *tx.TxIndex,
+		BlockNumber: *b.Number,
+		GasUsed:     seth.Uint64(used),
+		Cumulative:  b.GasUsed,
+		Logs:        lconv(c.State.Logs[l0:]),
+		Status:      seth.Uint64(status),
 	}
 	if tx.To == nil {
 		rx.Address = new(seth.Address)
-- 
2.43.0


From 59c9c917ff5c767f6da747e4aded2d6971203cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 33/64] fix: logs after a revert do not overwrite those of a
 copy

---
 tevm/evm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index baf6d82..04f7893 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -424,7 +424,8 @@ func (s *gethState) RevertToSnapshot(v int) {
 	s.Storage.Rollback(ns.State)
 	s.Transactions.Rollback(ns.TXs)
 	s.Receipts.Rollback(ns.RXs)
-	s.Logs = s.Logs[:ns.LogLen]
+	// the discarded logs may be shared with a copy
+	s.Logs = s.Logs[:ns.LogLen:ns.LogLen]
 
 	// make sure we can't roll forward
 	snaps = snaps[:v]
-- 
2.43.0


From 837e9bbc2cd6e319a8a1225afb0856adf065447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 34/64] fix: filters start at the latest block and may be
 open-ended

---
 tevm/transport.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 898cc3d..6141189 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -233,7 +233,14 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 }
 
 func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.Hash) (int, error) {
-	if from > to {
+	switch from {
+	case -1: // pending
+		from = blocknum(*c.State.Pending.Number)
+	case -2: // latest
+		from = blocknum(*c.State.Pending.Number) - 1
+	}
+	// a range up to the latest or pending block has no upper bound
+	if to >= 0 && from > to {
 		return 0, fmt.Errorf("cannot filter block range [%d,%d)", from, to)
 	}
 	c.filtcount++
-- 
2.43.0


From dfe4ed5b0f53838329b475e6550de83aa101ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 35/64] fix: filter changes do not repeat the logs already
 returned

---
 tevm/transport.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/transport.go b/tevm/transport.go
index 6141189..d2aadec 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -275,6 +275,8 @@ func (c *Chain) filterLogs(fd int) ([]seth.Log, error) {
 			out = append(out, next)
 		}
 	}
+	// these logs are not changes any more
+	filt.lastlog = len(c.State.Logs)
 	return out, nil
 }
 
-- 
2.43.0


From 5fdc75809c60636d27fda12203e244eceb2c4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 36/64] fix: filter ids out of range are not those of other
 filters

---
 tevm/transport.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index d2aadec..6244be2 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -214,24 +214,33 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.filterChanges(int(n.Int64()))
+		return c.filterChanges(filterid(&n))
 	case "eth_getFilterLogs":
 		var n seth.Int
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.filterLogs(int(n.Int64()))
+		return c.filterLogs(filterid(&n))
 	case "eth_uninstallFilter":
 		var n seth.Int
 		if err := marshal(params, &n); err != nil {
 			return nil, err
 		}
-		return c.deleteFilter(int(n.Int64()))
+		return c.deleteFilter(filterid(&n))
 	default:
 		return nil, errors.New(method + ": unsupported method")
 	}
 }
 
+// filterid returns n as a filter id, or 0
+// (not the id of any filter) if it is out of range.
+func filterid(n *seth.Int) int {
+	if !n.Big().IsInt64() {
+		return 0
+	}
+	return int(n.Int64())
+}
+
 func (c *Chain) newFilter(from, to blocknum, addr *seth.Address, topics []*seth.Hash) (int, error) {
 	switch from {
 	case -1: // pending
-- 
2.43.0


From b86a9740f46177c4f4cec8e34040b1121449e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 37/64] fix: the default block range of a filter is the latest
 block

---
 tevm/transport.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tevm/transport.go b/tevm/transport.go
index 6244be2..4c37d4a 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -50,6 +50,8 @@ func (b *blocknum) UnmarshalJSON(buf []byte) error {
 		*b = -2
 	case bytes.Equal(rawearliest, buf):
 		*b = 0
+	case bytes.Equal(rawnull, buf):
+		// keep the default
 	default:
 		// should be an integer
 		var i seth.Uint64
@@ -204,7 +206,7 @@ func (c *Chain) execute(method string, params []json.RawMessage) (interface{}, e
 			Address   *seth.Address `json:"address,omitempty"`
 			Topics    []*seth.Hash  `json:"topics,omitempty"`
 		}
-		req := new(newFilterReq)
+		req := &newFilterReq{FromBlock: -2, ToBlock: -2} // latest
 		if err := marshal(params, req); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 3f09fa6257be19c6fc5423c848630fddd9471c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 38/64] fix: keep the nonce of a transaction

---
 tevm/transport.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tevm/transport.go b/tevm/transport.go
index 4c37d4a..226ed01 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -22,6 +22,7 @@ type callArgs struct {
 	GasPrice seth.Int        `json:"gasPrice"`
 	Value    seth.Int        `json:"value"`
 	Data     seth.Data       `json:"data"`
+	Nonce    seth.Uint64     `json:"nonce"`
 }
 
 func (c *callArgs) tx() *seth.Transaction {
@@ -32,6 +33,7 @@ func (c *callArgs) tx() *seth.Transaction {
 		GasPrice: c.GasPrice,
 		Value:    c.Value,
 		Input:    c.Data,
+		Nonce:    c.Nonce,
 	}
 }
 
-- 
2.43.0


From 08d9423903475cea197c6f7763c25db3e2a2886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 39/64] fix: refuse addresses and hashes that are cut short

---
 seth.go     | 25 +++++++++++++++++++++++++
 seth_gen.go | 20 --------------------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/seth.go b/seth.go
index de0188c..7f03492 100644
--- a/seth.go
+++ b/seth.go
@@ -281,6 +281,31 @@ func (i *Uint64) UnmarshalText(b []byte) error {
 //go:generate msgp
 
 //msgp:shim json.RawMessage as:string using:string/json.RawMessage
+//msgp:unmarshal ignore Address Hash
+
+// unmarshalExact is like msgp.ReadExactBytes, except
+// that it doesn't accept a value that is cut short.
+func unmarshalExact(b, into []byte) ([]byte, error) {
+	buf, rest, err := msgp.ReadBytesZC(b)
+	if err != nil {
+		return b, err
+	}
+	if len(buf) != len(into) {
+		return b, msgp.ArrayError{Wanted: uint32(len(into)), Got: uint32(len(buf))}
+	}
+	copy(into, buf)
+	return rest, nil
+}
+
+// UnmarshalMsg implements msgp.Unmarshaler
+func (a *Address) UnmarshalMsg(b []byte) ([]byte, error) {
+	return unmarshalExact(b, a[:])
+}
+
+// UnmarshalMsg implements msgp.Unmarshaler
+func (h *Hash) UnmarshalMsg(b []byte) ([]byte, error) {
+	return unmarshalExact(b, h[:])
+}
 
 // Address represent an Ethereum address
 type Address [20]byte
diff --git a/seth_gen.go b/seth_gen.go
index 510bb60..ccb989a 100644
--- a/seth_gen.go
+++ b/seth_gen.go
@@ -35,16 +35,6 @@ func (z *Address) MarshalMsg(b []byte) (o []byte, err error) {
 	return
 }
 
-// UnmarshalMsg implements msgp.Unmarshaler
-func (z *Address) UnmarshalMsg(bts []byte) (o []byte, err error) {
-	bts, err = msgp.ReadExactBytes(bts, (z)[:])
-	if err != nil {
-		return
-	}
-	o = bts
-	return
-}
-
 // Msgsize returns an upper bound estimate of the number of bytes occupied by the serialized message
 func (z *Address) Msgsize() (s int) {
 	s = msgp.ArrayHeaderSize + (20 * (msgp.ByteSize))
@@ -1043,16 +1033,6 @@ func (z *Hash) MarshalMsg(b []byte) (o []byte, err error) {
 	return
 }
 
-// UnmarshalMsg implements msgp.Unmarshaler
-func (z *Hash) UnmarshalMsg(bts []byte) (o []byte, err error) {
-	bts, err = msgp.ReadExactBytes(bts, (z)[:])
-	if err != nil {
-		return
-	}
-	o = bts
-	return
-}
-
 // Msgsize returns an upper bound estimate of the number of bytes occupied by the serialized message
 func (z *Hash) Msgsize() (s int) {
 	s = msgp.ArrayHeaderSize + (32 * (msgp.ByteSize))
-- 
2.43.0


From 43ea00669865ad32566122696668a989bb01c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 40/64] fix: count a push and its immediate as one instruction

---
 compile.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index ce1bc72..a6f1481 100644
--- a/compile.go
+++ b/compile.go
@@ -169,17 +169,17 @@ func (c *CompiledContract) pc2info(pc int) *srcinfo {
 func (c *CompiledContract) compilePos() {
 	opnum := 0
 	var out []int
-	for i := range c.Code {
+	for len(out) < len(c.Code) {
 		width := 0
-		b := c.Code[i]
+		b := c.Code[len(out)]
 		out = append(out, opnum)
 		if b >= 0x60 && b < 0x80 {
-			width = int(b - 0x59)
+			width = int(b - 0x5f)
 		}
 		// for multi-byte instructions,
 		// any pc that points into the instruction
 		// gets the same opcode number
-		for j := 0; j < width; j++ {
+		for j := 0; j < width && len(out) < len(c.Code); j++ {
 			out = append(out, opnum)
 		}
 		opnum++
-- 
2.43.0


From 3b069def28ba87717626c7d67c5eceb519f980a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 41/64] fix: no source for code that is not from a source file

---
 compile.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index a6f1481..1e134a4 100644
--- a/compile.go
+++ b/compile.go
@@ -156,7 +156,7 @@ func mustint(s string) int {
 }
 
 func (c *CompiledContract) pc2info(pc int) *srcinfo {
-	if pc >= len(c.pos) {
+	if pc < 0 || pc >= len(c.pos) {
 		return nil
 	}
 	n := c.pos[pc]
@@ -287,7 +287,15 @@ func (b *CompiledBundle) SourceOf(c *CompiledContract, pc int) string {
 	if info == nil {
 		return ""
 	}
-	return b.Sources[info.f][info.s : info.s+info.l]
+	// code made by the compiler has file -1
+	if info.f < 0 || info.f >= len(b.Sources) {
+		return ""
+	}
+	src := b.Sources[info.f]
+	if info.s < 0 || info.s > len(src) || info.l < 0 || info.l > len(src)-info.s {
+		return ""
+	}
+	return src[info.s : info.s+info.l]
 }
 
 func compileError(errors []solcerror) error {
-- 
2.43.0


From 6dbca92c6ee710be5d39ac0a4628c9b029247bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 42/64] fix: do not ignore source map entries with more fields

---
 compile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compile.go b/compile.go
index 1e134a4..70916d5 100644
--- a/compile.go
+++ b/compile.go
@@ -196,6 +196,8 @@ func (c *CompiledContract) compileSourcemap() {
 		}
 		sections := strings.Split(ops[i], ":")
 		switch len(sections) {
+		default: // newer compilers add fields
+			fallthrough
 		case 4:
 			if len(sections[3]) > 0 {
 				out[i].j = sections[3][0]
-- 
2.43.0


From 8f283feec11ff7664e89126914e1addb740f28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 43/64] fix: source files need not have contracts

---
 compile.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index 70916d5..a49d074 100644
--- a/compile.go
+++ b/compile.go
@@ -256,8 +256,8 @@ func (s *solcout) toBundle() *CompiledBundle {
 		nc += len(cs)
 	}
 	b := &CompiledBundle{
-		Filenames: make([]string, len(s.Contracts)),
-		Sources:   make([]string, len(s.Contracts)),
+		Filenames: make([]string, len(s.Sources)),
+		Sources:   make([]string, len(s.Sources)),
 	}
 	// XXX: assume IDs are 0-indexed...
 	for name, id := range s.Sources {
@@ -445,8 +445,12 @@ func compile(sources []Source) (*CompiledBundle, error) {
 			b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)
 		}
 	}
-	for i := range b.Sources {
-		b.Sources[i] = sources[i].Body
+	for i := range b.Filenames {
+		for j := range sources {
+			if sources[j].Filename == b.Filenames[i] {
+				b.Sources[i] = sources[j].Body
+			}
+		}
 	}
 	return b, nil
 }
-- 
2.43.0


From 81b7e2a1ac696d51ee3dcf5e2e6071f5b9214fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 44/64] fix: different sources have different cache entries

---
 compile.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compile.go b/compile.go
index a49d074..b748a2e 100644
--- a/compile.go
+++ b/compile.go
@@ -7,7 +7,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"hash"
-	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -325,8 +324,10 @@ func cachename(sources []Source) string {
 	h0 := keccak.New256()
 	h1 := keccak.New256()
 	for i := range sources {
-		io.WriteString(h0, sources[i].Filename)
-		io.WriteString(h1, sources[i].Body)
+		// with lengths, so that it matters
+		// where one string ends and the next begins
+		fmt.Fprintf(h0, "%d:%s", len(sources[i].Filename), sources[i].Filename)
+		fmt.Fprintf(h1, "%d:%s", len(sources[i].Body), sources[i].Body)
 	}
 	// filename is 'name hash'-'content hash'.bundle
 	// so that we can to a quick glob search to remove
-- 
2.43.0


From af64e3120a6da862b9b793c10dbb26ffbc2d1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 45/64] fix: remove only stale bundles of the same name

---
 compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index b748a2e..7b12d86 100644
--- a/compile.go
+++ b/compile.go
@@ -340,7 +340,7 @@ func cachedBundle(name string) (*CompiledBundle, bool) {
 	f, err := os.Open(name)
 	if err != nil {
 		// let's look for stale builds and clean them up
-		i := strings.IndexByte(name, '-')
+		i := strings.LastIndexByte(name, '-')
 		if i != -1 && i != len(name)-1 {
 			all, err := filepath.Glob(name[:i+1] + "*")
 			if err == nil {
-- 
2.43.0


From 360c8af5cf2941cfd4c48563788f844c8949e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 46/64] fix: an error rather than a panic for contracts that
 are not linked

---
 compile.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/compile.go b/compile.go
index 7b12d86..79cfe22 100644
--- a/compile.go
+++ b/compile.go
@@ -241,15 +241,7 @@ func (c *CompiledBundle) Contract(name string) *CompiledContract {
 	return nil
 }
 
-func h2b(s string) []byte {
-	bits, err := hex.DecodeString(s)
-	if err != nil {
-		panic(err)
-	}
-	return bits
-}
-
-func (s *solcout) toBundle() *CompiledBundle {
+func (s *solcout) toBundle() (*CompiledBundle, error) {
 	nc := 0
 	for _, cs := range s.Contracts {
 		nc += len(cs)
@@ -264,15 +256,21 @@ func (s *solcout) toBundle() *CompiledBundle {
 	}
 	for _, contracts := range s.Contracts {
 		for contract, out := range contracts {
+			// the code of a contract that isn't
+			// linked yet is not all hex digits
+			code, err := hex.DecodeString(out.EVM.Bytecode.Object)
+			if err != nil {
+				return nil, fmt.Errorf("bytecode of contract %s: %s", contract, err)
+			}
 			b.Contracts = append(b.Contracts, CompiledContract{
 				Name:      contract,
-				Code:      h2b(out.EVM.Bytecode.Object),
+				Code:      code,
 				Sourcemap: out.EVM.Bytecode.Sourcemap,
 				ABI:       out.ABI,
 			})
 		}
 	}
-	return b
+	return b, nil
 }
 
 // SourceOf returns the source line (text) of the given pc.
@@ -440,7 +438,10 @@ func compile(sources []Source) (*CompiledBundle, error) {
 	if err := compileError(jsout.Errors); err != nil {
 		return nil, fmt.Errorf("solc compilation error: %s", err)
 	}
-	b := jsout.toBundle()
+	b, err := jsout.toBundle()
+	if err != nil {
+		return nil, err
+	}
 	for i := range jsout.Errors {
 		if jsout.Errors[i].Type == "Warning" {
 			b.Warnings = append(b.Warnings, jsout.Errors[i].FormattedMessage)
-- 
2.43.0


From 176196e45df1d5d66066db4f6fd266d2464c933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 47/64] fix: an error rather than a panic for source IDs that
 are out of range

---
 compile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compile.go b/compile.go
index 79cfe22..a7735d4 100644
--- a/compile.go
+++ b/compile.go
@@ -252,6 +252,9 @@ func (s *solcout) toBundle() (*CompiledBundle, error) {
 	}
 	// XXX: assume IDs are 0-indexed...
 	for name, id := range s.Sources {
+		if id.ID < 0 || id.ID >= len(b.Filenames) {
+			return nil, fmt.Errorf("source file %s has ID %d, but there are %d files", name, id.ID, len(b.Filenames))
+		}
 		b.Filenames[id.ID] = name
 	}
 	for _, contracts := range s.Contracts {
-- 
2.43.0


From fc25b7a38b49acae4aaef8bc2183383309a320b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 48/64] fix: find jump table entries at the end of the code

---
 cmd/eth/jumptab.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/jumptab.go b/cmd/eth/jumptab.go
index 64cf541..5345f7a 100644
--- a/cmd/eth/jumptab.go
+++ b/cmd/eth/jumptab.go
@@ -178,7 +178,7 @@ func jumpentries(code []byte) []jmpentry {
 	// That would make the code a bit simpler.
 	var entries []jmpentry
 	base := code[preamble:]
-	for len(base) > 12 {
+	for len(base) > 7 {
 		var pushbytes, prefixbytes [4]byte
 
 		if base[0] == oppush1+3 &&
@@ -197,7 +197,7 @@ func jumpentries(code []byte) []jmpentry {
 
 		// width of PUSH used to identify PC
 		pwidth := 1 + int(base[7]-oppush1)
-		if pwidth > 4 {
+		if pwidth > 4 || len(base) <= 8+pwidth {
 			break // ???
 		}
 		copy(pushbytes[4-pwidth:], base[8:8+pwidth])
-- 
2.43.0


From bb5fe71523acc4b149dc6794ab9c80f4dd0e62a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 49/64] fix: name the function in errors about its signature

---
 cmd/eth/call.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index c19d13a..001483e 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -171,7 +171,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 	if lparen == -1 || rparen == -1 ||
 		rparen-lparen < 1 ||
 		rparen != len(fn)-1 {
-		fatalf("bad function signature %q (bad parens)\n", args[1])
+		fatalf("bad function signature %q (bad parens)\n", fn)
 	}
 
 	fname := fn[:lparen]
@@ -192,7 +192,7 @@ func parsefn(c *seth.Client, addr *seth.Address, fn string, args []string) []set
 			}
 		}
 		if !found {
-			fatalf("signature %q (jump table %x) not found in code\n", args[1], h[:4])
+			fatalf("signature %q (jump table %x) not found in code\n", fn, h[:4])
 		}
 	}
 
-- 
2.43.0


From fb1f545e56742a197c5b049f37b60ef41a8b1bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 50/64] fix: accept the integers that are in the range of their
 type

---
 cmd/eth/call.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 001483e..1493789 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -79,7 +79,15 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 	if v.Sign() < 0 && !signed {
 		fatalf("value %q not allowed to be signed\n", s)
 	}
-	if v.BitLen() >= bitwidth {
+	bits := v.BitLen()
+	if signed {
+		// one bit is for the sign
+		if v.Sign() < 0 {
+			bits = new(big.Int).Not(v).BitLen()
+		}
+		bits++
+	}
+	if bits > bitwidth {
 		fatalf("value %q overflows bit-width %d", s, bitwidth)
 	}
 	return (*seth.Int)(v)
@@ -138,17 +146,17 @@ func parsearg(typ, val string) seth.EtherType {
 	case "bytes":
 		return etherbytes(val)
 	case "int8", "uint8":
-		return etherint(val, 8, val == "int8")
+		return etherint(val, 8, typ == "int8")
 	case "int16", "uint16":
-		return etherint(val, 16, val == "int16")
+		return etherint(val, 16, typ == "int16")
 	case "int32", "uint32":
-		return etherint(val, 32, val == "int32")
+		return etherint(val, 32, typ == "int32")
 	case "int64", "uint64":
-		return etherint(val, 64, val == "int64")
+		return etherint(val, 64, typ == "int64")
 	case "int128", "uint128":
-		return etherint(val, 128, val == "int128")
+		return etherint(val, 128, typ == "int128")
 	case "int256", "uint256":
-		return etherint(val, 256, val == "int256")
+		return etherint(val, 256, typ == "int256")
 	case "address":
 		return etheraddr(val)
 	}
-- 
2.43.0


From 2d2b4914260f65ebd309b4b8f0f39e22eca5beb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 51/64] fix: array arguments

---
 cmd/eth/call.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 1493789..0ede444 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -94,15 +94,16 @@ func etherint(s string, bitwidth int, signed bool) seth.EtherType {
 }
 
 func etherarr(typ string, val string) seth.EtherType {
-	if val[0] != '[' || val[len(val)-1] != ']' {
+	if len(val) < 2 || val[0] != '[' || val[len(val)-1] != ']' {
 		fatalf("array values must be enclosed with square braces\n")
 	}
-	parts := strings.Split(val, ",")
-	if len(parts) == 0 {
+	val = val[1 : len(val)-1]
+	if val == "" {
 		// doesn't really matter what type this is...
 		s := make(seth.IntSlice, 0)
 		return &s
 	}
+	parts := strings.Split(val, ",")
 
 	// Warning: this is super gross.
 	// This should be replaced with something better.
-- 
2.43.0


From c216e3145a6af9e3e49abbafbff8fa353905b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 52/64] fix: string arguments are text

---
 cmd/eth/call.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index 0ede444..ec07463 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -30,7 +30,8 @@ func init() {
 }
 
 func etherstring(s string) seth.EtherType {
-	return etherbytes(s)
+	b := seth.Bytes(s)
+	return &b
 }
 
 func unhex(s string) []byte {
-- 
2.43.0


From ff72dbe464d6785d56d98f942c3f38c6531acc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 53/64] fix: refuse calls with too many arguments

---
 cmd/eth/call.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/eth/call.go b/cmd/eth/call.go
index ec07463..94b1848 100644
--- a/cmd/eth/call.go
+++ b/cmd/eth/call.go
@@ -236,6 +236,9 @@ func call(fs *flag.FlagSet) {
 
 	c := client()
 	callargs := parsefn(c, addr, args[1], args[2:])
+	if len(callargs) != len(args[2:]) {
+		fatalf("signature wants %d arguments, but %d were provided\n", len(callargs), len(args[2:]))
+	}
 
 	sign, from := signer()
 	opts := seth.CallOpts{
-- 
2.43.0


From e66a0403abc396515f2a062b726b4a6fd905d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 54/64] fix: sign with the key that matched

---
 cmd/eth/keys.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/eth/keys.go b/cmd/eth/keys.go
index b515f2f..56fe3c0 100644
--- a/cmd/eth/keys.go
+++ b/cmd/eth/keys.go
@@ -156,6 +156,7 @@ func signer() (seth.Signer, seth.Address) {
 		fatalf("bad keyspec %q\n", err)
 	}
 	for _, kd := range keys() {
+		kd := kd
 		if re.MatchString(kd.addr.String()) || re.MatchString(kd.id) {
 			if matched != nil {
 				fatalf("ambiguous key spec %q matches more than one key\n", spec)
-- 
2.43.0


From 269dcd939ece2563851d034675b1e45cd933d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 55/64] fix: a key specification doesn't match an address that
 isn't known

---
 cmd/eth/keys.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/keys.go b/cmd/eth/keys.go
index 56fe3c0..e945efa 100644
--- a/cmd/eth/keys.go
+++ b/cmd/eth/keys.go
@@ -157,7 +157,9 @@ func signer() (seth.Signer, seth.Address) {
 	}
 	for _, kd := range keys() {
 		kd := kd
-		if re.MatchString(kd.addr.String()) || re.MatchString(kd.id) {
+		// key files may not tell the address
+		known := kd.addr != seth.Address{}
+		if known && re.MatchString(kd.addr.String()) || re.MatchString(kd.id) {
 			if matched != nil {
 				fatalf("ambiguous key spec %q matches more than one key\n", spec)
 			}
-- 
2.43.0


From 181396146f1d110cf71d5ff0a4b424dcecafc99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 56/64] fix: an error rather than a panic for a range from a
 block without a number

---
 cmd/eth/block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index 8b4d0d9..cea9ab8 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -47,7 +47,11 @@ func blockrange(c *seth.Client, spec string) {
 	// have to fetch the block to do this
 	start := blocknum(split[0])
 	if start < 0 {
-		start = int64(*(getblock(c, start, false).Number))
+		b := getblock(c, start, false)
+		if b.Number == nil {
+			fatalf("the %s block has no number\n", split[0])
+		}
+		start = int64(*b.Number)
 	}
 
 	diff, err := strconv.ParseInt(split[1], 0, 64)
-- 
2.43.0


From df77e145805871cbcc06fc107d2db412147d5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 57/64] fix: block ranges end at block 0

---
 cmd/eth/block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/eth/block.go b/cmd/eth/block.go
index cea9ab8..ec11159 100644
--- a/cmd/eth/block.go
+++ b/cmd/eth/block.go
@@ -64,6 +64,9 @@ func blockrange(c *seth.Client, spec string) {
 	}
 
 	for i := int64(0); i < diff; i++ {
+		if op(start, i) < 0 {
+			fatalf("there is no block before block 0\n")
+		}
 		showblock(getblock(c, op(start, i), true))
 	}
 }
-- 
2.43.0


From f9a379c4fd24abe55ceb4e67f892e279990ef9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 58/64] fix: print negative return values

---
 cmd/eth/read.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/eth/read.go b/cmd/eth/read.go
index f85f006..9156ff0 100644
--- a/cmd/eth/read.go
+++ b/cmd/eth/read.go
@@ -81,13 +81,16 @@ func read(fs *flag.FlagSet) {
 		fatalf("error making call: %s\n", err)
 	}
 
-	for _, v := range *d {
+	for i, v := range *d {
 		switch v := v.(type) {
 		case *string:
 			fmt.Println(*v)
 		case *bool:
 			fmt.Println(*v)
 		case *big.Int:
+			if strings.HasPrefix(rettypes[i], "int") && v.Bit(255) == 1 {
+				v.Sub(v, new(big.Int).Lsh(big.NewInt(1), 256))
+			}
 			fmt.Println(v.String())
 		case *seth.Address:
 			fmt.Println(v.String())
-- 
2.43.0


From 244951ad3483413a3b6616975f07dc9a0d977796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 59/64] fix: print the bytes of the type that was asked for

---
 cmd/eth/read.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/eth/read.go b/cmd/eth/read.go
index 9156ff0..2b2ed7e 100644
--- a/cmd/eth/read.go
+++ b/cmd/eth/read.go
@@ -95,6 +95,10 @@ func read(fs *flag.FlagSet) {
 		case *seth.Address:
 			fmt.Println(v.String())
 		case *seth.Data:
+			// the decoder produces the whole word
+			if n, err := strconv.Atoi(strings.TrimPrefix(rettypes[i], "bytes")); err == nil && n < len(*v) {
+				*v = (*v)[:n]
+			}
 			fmt.Printf("%x\n", *v)
 		case *seth.Bytes:
 			fmt.Printf("%x\n", *v)
-- 
2.43.0


From fcac3949cc41f0710d89843da11cb6409ec28cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 60/64] fix: generated methods take byte strings

---
 bindgen/main.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bindgen/main.go b/bindgen/main.go
index f3c9f4b..ffee7e9 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"io/ioutil"
 	"os"
+	"strconv"
 	"strings"
 
 	"github.com/philhofer/seth"
@@ -102,6 +103,13 @@ func main() {
 	f.Close()
 }
 
+// sized returns whether a is the given type
+// followed by its width, like "uint24" or "bytes32"
+func sized(a, typ string) bool {
+	_, err := strconv.ParseUint(strings.TrimPrefix(a, typ), 10, 16)
+	return err == nil
+}
+
 func typeconv(a string) string {
 	switch a {
 	case "bool", "int8", "int16", "int32", "int64",
@@ -115,7 +123,14 @@ func typeconv(a string) string {
 		return "*seth.AddrSlice"
 	case "uint256[]":
 		return "*seth.IntSlice"
+	case "bytes32[]":
+		return "*seth.DataSlice"
+	case "bytes", "string":
+		return "*seth.Bytes"
 	default:
+		if sized(a, "bytes") {
+			return "*seth.Data"
+		}
 		return "seth.Data"
 	}
 }
@@ -133,6 +148,8 @@ func rettype(a string) string {
 		return "seth.AddrSlice"
 	case "uint256[]":
 		return "seth.IntSlice"
+	case "bytes32[]":
+		return "seth.DataSlice"
 	case "string":
 		return "string"
 	case "bytes":
-- 
2.43.0


From 77679b53603660f865b7da07c09a20ccb5fbea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 61/64] fix: generated methods take and return all integers

---
 bindgen/main.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/bindgen/main.go b/bindgen/main.go
index ffee7e9..ea76923 100644
--- a/bindgen/main.go
+++ b/bindgen/main.go
@@ -110,6 +110,16 @@ func sized(a, typ string) bool {
 	return err == nil
 }
 
+// intslice returns whether a is a slice of
+// integers or booleans
+func intslice(a string) bool {
+	if !strings.HasSuffix(a, "[]") {
+		return false
+	}
+	a = strings.TrimSuffix(a, "[]")
+	return a == "bool" || sized(a, "int") || sized(a, "uint")
+}
+
 func typeconv(a string) string {
 	switch a {
 	case "bool", "int8", "int16", "int32", "int64",
@@ -128,7 +138,12 @@ func typeconv(a string) string {
 	case "bytes", "string":
 		return "*seth.Bytes"
 	default:
-		if sized(a, "bytes") {
+		switch {
+		case sized(a, "int"), sized(a, "uint"):
+			return "*seth.Int"
+		case intslice(a):
+			return "*seth.IntSlice"
+		case sized(a, "bytes"):
 			return "*seth.Data"
 		}
 		return "seth.Data"
@@ -155,6 +170,12 @@ func rettype(a string) string {
 	case "bytes":
 		return "[]byte"
 	default:
+		switch {
+		case sized(a, "int"), sized(a, "uint"):
+			return "seth.Int"
+		case intslice(a):
+			return "seth.IntSlice"
+		}
 		return "seth.Data"
 	}
 }
-- 
2.43.0


From 160489139a40be067ba5012c1b6fbe449624c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 62/64] fix: don't recover the point at infinity as a public
 key

---
 signature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signature.go b/signature.go
index 7a51991..bc95cfe 100644
--- a/signature.go
+++ b/signature.go
@@ -131,6 +131,10 @@ func (z *Signature) Recover(hash *Hash) (*PublicKey, error) {
 
 	ex, ey := curve.ScalarBaseMult(e.Bytes())
 	qx, qy := curve.Add(sx, sy, ex, ey)
+	if qx.Sign() == 0 && qy.Sign() == 0 {
+		// the point at infinity isn't anybody's key
+		return nil, errors.New("invalid signature")
+	}
 
 	return NewPublicKey(qx, qy), nil
 }
-- 
2.43.0


From 2504082faee6f3507bc4be75a773d4bae03e201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:27 +0000
Subject: [PATCH 63/64] fix: accounts of a forked chain that have only code
 exist

---
 tevm/evm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tevm/evm.go b/tevm/evm.go
index 04f7893..a4835a6 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -174,7 +174,7 @@ func (s *gethState) getAccount(addr *seth.Address) (Account, bool) {
 	if err != nil {
 		panic("fallback GetNonce: " + err.Error())
 	}
-	if nonce == 0 && bal.IsZero() {
+	if nonce == 0 && bal.IsZero() && len(s.getCode(addr)) == 0 {
 		return acct, false
 	}
 
@@ -377,7 +377,7 @@ func (s *gethState) Empty(addr common.Address) bool {
 	a := seth.Address(addr)
 	acct, ok := s.getAccount(&a)
 	bal := acct.Balance()
-	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.Code.Get(a[:])) == 0)
+	return !ok || (acct.Nonce() == 0 && bal.IsZero() && len(s.getCode(&a)) == 0)
 }
 
 func (s *gethState) Suicide(addr common.Address) bool {
-- 
2.43.0


From e0dc5e5ac7e2e02c215ddaeb097fba6dea189445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:05 +0000
Subject: [PATCH 64/64] fix: contracts can ask for the gas price

---
 tevm/evm.go       | 2 ++
 tevm/transport.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/tevm/evm.go b/tevm/evm.go
index a4835a6..070c48b 100644
--- a/tevm/evm.go
+++ b/tevm/evm.go
@@ -779,6 +779,7 @@ func (c *Chain) context(sender [20]byte) vm.Context {
 		BlockNumber: new(big.Int).SetInt64(int64(*b.Number)),
 		Time:        new(big.Int).SetInt64(int64(b.Timestamp)),
 		Difficulty:  new(big.Int).Set((*big.Int)(b.Difficulty)),
+		GasPrice:    new(big.Int),
 	}
 }
 
@@ -952,6 +953,7 @@ func (c *Chain) Mine(tx *seth.Transaction) (ret []byte, h seth.Hash, err error)
 	var addr common.Address
 	status := 1
 	vm := c.evm(*tx.From)
+	vm.Context.GasPrice.Set(tx.GasPrice.Big())
 	if tx.To == nil {
 		ret, addr, gas, err = vm.Create(s2r(tx.From), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())
 	} else {
diff --git a/tevm/transport.go b/tevm/transport.go
index 226ed01..a3ec5f0 100644
--- a/tevm/transport.go
+++ b/tevm/transport.go
@@ -328,6 +328,7 @@ func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
 		return nil, fmt.Errorf("unknown block number %d", blocknum)
 	}
 	evm := c.evm(a.From)
+	evm.Context.GasPrice.Set(a.GasPrice.Big())
 	gas := uint64(c.State.Pending.GasLimit)
 	if a.Gas != 0 {
 		gas = uint64(a.Gas)
-- 
2.43.0

