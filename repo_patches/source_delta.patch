From 231b0c29e03db60644d345749e0de63259e1bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 01/31] fix: hash tree leaves are always hashed, a block of 64
 bytes is no longer its own leaf hash

---
 domain/hashtree/block.go    | 9 ++++++++-
 domain/hashtree/hashtree.go | 3 +--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/domain/hashtree/block.go b/domain/hashtree/block.go
index 0d7bde0..03f412f 100644
--- a/domain/hashtree/block.go
+++ b/domain/hashtree/block.go
@@ -1,6 +1,7 @@
 package hashtree
 
 import (
+	"crypto/sha512"
 	"encoding/json"
 	"math"
 
@@ -19,7 +20,7 @@ func createBlockFromData(data [][]byte) (Block, error) {
 
 	hashes := []hash.Hash{}
 	for _, oneData := range data {
-		oneHash, err := hash.NewAdapter().FromBytes(oneData)
+		oneHash, err := hashData(oneData)
 		if err != nil {
 			return nil, err
 		}
@@ -34,6 +35,12 @@ func createBlockFromData(data [][]byte) (Block, error) {
 	return blk.resize(), nil
 }
 
+// hashData always hashes the data, even when it already has the length of an hash
+func hashData(data []byte) (*hash.Hash, error) {
+	digest := sha512.Sum512(data)
+	return hash.NewAdapter().FromBytes(digest[:])
+}
+
 func (obj *block) resize() Block {
 	//need to make sure the elements are always a power of 2:
 	isPowerOfTwo := obj.isLengthPowerForTwo()
diff --git a/domain/hashtree/hashtree.go b/domain/hashtree/hashtree.go
index e47aede..3b2ca5a 100644
--- a/domain/hashtree/hashtree.go
+++ b/domain/hashtree/hashtree.go
@@ -61,10 +61,9 @@ func (obj *hashtree) Compact() Compact {
 
 // Order orders data that matches the leafs of the HashTree
 func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
-	hashAdapter := hash.NewAdapter()
 	hashed := map[string][]byte{}
 	for _, oneData := range data {
-		hsh, err := hashAdapter.FromBytes(oneData)
+		hsh, err := hashData(oneData)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From bbd87b20f839441f5bab9620bce32a4c3f0cf7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 02/31] fix: building a hash tree leaves the caller's blocks
 alone and refuses an empty list of blocks

---
 domain/hashtree/block.go   | 8 ++++----
 domain/hashtree/builder.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/domain/hashtree/block.go b/domain/hashtree/block.go
index 03f412f..a9c0274 100644
--- a/domain/hashtree/block.go
+++ b/domain/hashtree/block.go
@@ -13,13 +13,13 @@ type block struct {
 }
 
 func createBlockFromData(data [][]byte) (Block, error) {
-
-	if len(data) <= 1 {
-		data = append(data, []byte(""))
+	blocks := append([][]byte{}, data...)
+	if len(blocks) <= 1 {
+		blocks = append(blocks, []byte(""))
 	}
 
 	hashes := []hash.Hash{}
-	for _, oneData := range data {
+	for _, oneData := range blocks {
 		oneHash, err := hashData(oneData)
 		if err != nil {
 			return nil, err
diff --git a/domain/hashtree/builder.go b/domain/hashtree/builder.go
index ab7d450..44809d2 100644
--- a/domain/hashtree/builder.go
+++ b/domain/hashtree/builder.go
@@ -31,7 +31,7 @@ func (app *builder) WithBlocks(blocks [][]byte) Builder {
 
 // Now builds a new HashTree instance
 func (app *builder) Now() (HashTree, error) {
-	if app.blocks != nil {
+	if len(app.blocks) > 0 {
 		return createHashTreeFromBlocks(app.blocks)
 	}
 
-- 
2.43.0


From bac4dbc4422c5f62041e8438a1c3ab261a2ec680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 03/31] fix: ordering the blocks of a hash tree uses every
 given block exactly once

---
 domain/hashtree/hashtree.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/domain/hashtree/hashtree.go b/domain/hashtree/hashtree.go
index 3b2ca5a..0b17241 100644
--- a/domain/hashtree/hashtree.go
+++ b/domain/hashtree/hashtree.go
@@ -61,7 +61,7 @@ func (obj *hashtree) Compact() Compact {
 
 // Order orders data that matches the leafs of the HashTree
 func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range data {
 		hsh, err := hashData(oneData)
 		if err != nil {
@@ -69,15 +69,16 @@ func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
 	leaves := obj.parentLeaf.BlockLeaves().Leaves()
 	for _, oneLeaf := range leaves {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if list := hashed[leafHashAsString]; len(list) > 0 {
+			out = append(out, list[0])
+			hashed[leafHashAsString] = list[1:]
 			continue
 		}
 
-- 
2.43.0


From 16d202bd0e5559582dcaa98e3e9a2cc08541cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 04/31] fix: a ring signature needs members, and exactly one
 response per member

---
 domain/cryptography/keys/signature/ringsignature.go         | 5 +++++
 domain/cryptography/keys/signature/ringsignature_adapter.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/domain/cryptography/keys/signature/ringsignature.go b/domain/cryptography/keys/signature/ringsignature.go
index 1ca0874..1d9cb8e 100644
--- a/domain/cryptography/keys/signature/ringsignature.go
+++ b/domain/cryptography/keys/signature/ringsignature.go
@@ -30,6 +30,11 @@ func (app *ringSignature) Ring() []PublicKey {
 
 // Verify verifies if the message has been signed by at least 1 shared signature
 func (app *ringSignature) Verify(msg string) bool {
+	// there must be a ring, and exactly 1 s per member:
+	if len(app.ring) <= 0 || len(app.ring) != len(app.s) {
+		return false
+	}
+
 	// random base:
 	g := curve.Point().Base()
 
diff --git a/domain/cryptography/keys/signature/ringsignature_adapter.go b/domain/cryptography/keys/signature/ringsignature_adapter.go
index bf3de64..4b7b220 100644
--- a/domain/cryptography/keys/signature/ringsignature_adapter.go
+++ b/domain/cryptography/keys/signature/ringsignature_adapter.go
@@ -66,6 +66,11 @@ func (app *ringSignatureAdapter) ToSignature(sig string) (RingSignature, error)
 		s = append(s, scalar)
 	}
 
+	if len(ring) <= 0 || len(ring) != len(s) {
+		str := fmt.Sprintf("the ring signature was expected to contain at least 1 PublicKey and as many scalars, %d PublicKey and %d scalars found", len(ring), len(s))
+		return nil, errors.New(str)
+	}
+
 	e, err := fromStringToScalar(splitted[2])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bfc4c24aecc72b87303625eb9a178f5a9676d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 05/31] fix: points outside of the prime order group are not
 keys nor signatures

---
 domain/cryptography/keys/signature/helper.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/domain/cryptography/keys/signature/helper.go b/domain/cryptography/keys/signature/helper.go
index 8de7896..f81c05b 100644
--- a/domain/cryptography/keys/signature/helper.go
+++ b/domain/cryptography/keys/signature/helper.go
@@ -3,6 +3,7 @@ package signature
 import (
 	"bytes"
 	"encoding/hex"
+	"errors"
 
 	kyber "go.dedis.ch/kyber/v3"
 )
@@ -47,5 +48,13 @@ func fromStringToPoint(str string) (kyber.Point, error) {
 		return nil, err
 	}
 
+	// the identity, and points outside of the prime order group, are never the point of a key or a signature:
+	null := curve.Point().Null()
+	minusOne := curve.Scalar().Neg(curve.Scalar().One())
+	timesOrder := curve.Point().Add(curve.Point().Mul(minusOne, p), p)
+	if p.Equal(null) || !timesOrder.Equal(null) {
+		return nil, errors.New("the point is not an element of the prime order group")
+	}
+
 	return p, nil
 }
-- 
2.43.0


From 279b7d5d93da1ab4e5d4c6376e7179cd54ed9425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 06/31] fix: scalars that are not in their canonical form are
 refused

---
 domain/cryptography/keys/signature/helper.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/cryptography/keys/signature/helper.go b/domain/cryptography/keys/signature/helper.go
index f81c05b..aa5f844 100644
--- a/domain/cryptography/keys/signature/helper.go
+++ b/domain/cryptography/keys/signature/helper.go
@@ -33,6 +33,11 @@ func fromStringToScalar(str string) (kyber.Scalar, error) {
 		return nil, err
 	}
 
+	// every scalar has exactly 1 representation, its reduced one:
+	if x.String() != hex.EncodeToString(decoded) {
+		return nil, errors.New("the scalar is not in its canonical form")
+	}
+
 	return x, nil
 }
 
-- 
2.43.0


From 65d7da0fb41755833aeeae9ac40511abe3563979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 07/31] fix: the secret scalars of a ring signature are bound
 to its ring and index, and never reused by another signature

---
 domain/cryptography/keys/signature/helper.go     | 12 ++++++++++++
 domain/cryptography/keys/signature/privatekey.go |  5 ++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/domain/cryptography/keys/signature/helper.go b/domain/cryptography/keys/signature/helper.go
index aa5f844..e85644a 100644
--- a/domain/cryptography/keys/signature/helper.go
+++ b/domain/cryptography/keys/signature/helper.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	kyber "go.dedis.ch/kyber/v3"
 )
@@ -20,6 +21,17 @@ func genK(x kyber.Scalar, msg string) kyber.Scalar {
 	return createHash(msg + x.String())
 }
 
+// genRingK generates the secret scalar of an index of a ring, it is never the same for another message, ring or index, nor the k of a signature
+func genRingK(x kyber.Scalar, msg string, ring []PublicKey, index int) kyber.Scalar {
+	ringStr := ""
+	for _, onePubKey := range ring {
+		ringStr = fmt.Sprintf("%s%s%s", ringStr, onePubKey.String(), elementDelimiter)
+	}
+
+	secret := x.String()
+	return createHash(fmt.Sprintf("%s%sring%s%d%s%s%s%s%s%s", secret, delimiter, delimiter, index, delimiter, ringStr, delimiter, msg, delimiter, secret))
+}
+
 func fromStringToScalar(str string) (kyber.Scalar, error) {
 	decoded, decodedErr := hex.DecodeString(str)
 	if decodedErr != nil {
diff --git a/domain/cryptography/keys/signature/privatekey.go b/domain/cryptography/keys/signature/privatekey.go
index 1546d25..cca1d59 100644
--- a/domain/cryptography/keys/signature/privatekey.go
+++ b/domain/cryptography/keys/signature/privatekey.go
@@ -2,7 +2,6 @@ package signature
 
 import (
 	"errors"
-	"fmt"
 
 	kyber "go.dedis.ch/kyber/v3"
 )
@@ -46,7 +45,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 	}
 
 	// generate k:
-	k := genK(app.x, msg)
+	k := genRingK(app.x, msg, ringPubKeys, signerIndex)
 
 	// random base:
 	g := curve.Point().Base()
@@ -65,7 +64,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 	// loop:
 	for i := beginIndex; i != signerIndex; i = (i + 1) % r {
 		// si = random value
-		ss[i] = genK(app.x, fmt.Sprintf("%s%d", msg, i))
+		ss[i] = genRingK(app.x, msg, ringPubKeys, i)
 
 		//eiPlus1ModR = H(m || si * G + ei * Pi)
 		sig := curve.Point().Mul(ss[i], g)
-- 
2.43.0


From b3b5bba66ddf22345aef910387b3773143394d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 08/31] fix: hashing several rows of bytes depends on where
 every row ends

---
 domain/hash/adapter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/domain/hash/adapter.go b/domain/hash/adapter.go
index e6c0cc1..8faa7b5 100644
--- a/domain/hash/adapter.go
+++ b/domain/hash/adapter.go
@@ -2,6 +2,7 @@ package hash
 
 import (
 	"crypto/sha512"
+	"encoding/binary"
 	"encoding/hex"
 )
 
@@ -33,14 +34,19 @@ func (app *adapter) FromBytes(input []byte) (*Hash, error) {
 	return &out, nil
 }
 
-// FromMultiBytes converts multiple []byte to an Hash
+// FromMultiBytes converts multiple []byte to an Hash, every row counts with its length so that
+// two different lists of rows never hash the same data
 func (app *adapter) FromMultiBytes(input [][]byte) (*Hash, error) {
 	merged := []byte{}
 	for _, oneRow := range input {
+		length := make([]byte, 8)
+		binary.BigEndian.PutUint64(length, uint64(len(oneRow)))
+		merged = append(merged, length...)
 		merged = append(merged, oneRow...)
 	}
 
-	return app.FromBytes(merged)
+	out := Hash(sha512.Sum512(merged))
+	return &out, nil
 }
 
 // FromString converts a string to an Hash
-- 
2.43.0


From 1579e46bca1d3bb971c0a8d220910b3b01398d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 09/31] fix: the hash of receipts and of private transactions
 depends on their content

---
 domain/receipts/builder.go                      | 5 ++++-
 domain/transactions/privates/private_builder.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/domain/receipts/builder.go b/domain/receipts/builder.go
index 75ce327..e1a55a9 100644
--- a/domain/receipts/builder.go
+++ b/domain/receipts/builder.go
@@ -53,7 +53,10 @@ func (app *builder) Now() (Receipt, error) {
 		return nil, errors.New("the signature is mandatory in order to build a Receipt instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.secret.Hash().Bytes(),
+		[]byte(app.sig.String()),
+	})
 	if err != nil {
 		return nil, err
 	}
diff --git a/domain/transactions/privates/private_builder.go b/domain/transactions/privates/private_builder.go
index 910ce8b..325a30e 100644
--- a/domain/transactions/privates/private_builder.go
+++ b/domain/transactions/privates/private_builder.go
@@ -53,7 +53,10 @@ func (app *privateBuilder) Now() (Private, error) {
 		return nil, errors.New("the receipt is mandatory in order to build a Private instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.receipt.Hash().Bytes(),
+		[]byte(app.pk.String()),
+	})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1e27afa85776bb4d6cac180a8965f20801dfa6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 10/31] fix: times of the genesis and its units are compared
 without their monotonic clock readings

---
 domain/genesis/builder.go             | 8 +++++---
 domain/genesis/unitcontent_builder.go | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/domain/genesis/builder.go b/domain/genesis/builder.go
index e381427..dd31b96 100644
--- a/domain/genesis/builder.go
+++ b/domain/genesis/builder.go
@@ -66,11 +66,13 @@ func (app *builder) Now() (Genesis, error) {
 		return nil, errors.New("the creation time is mandatory in order to build a Genesis instance")
 	}
 
+	// the monotonic clock readings are ignored, they are not part of the data
+	createdOn := app.createdOn.Round(0)
 	list := app.units.All()
 	for index, oneUnit := range list {
-		unitCreatedOn := oneUnit.Content().CreatedOn()
-		if unitCreatedOn.Before(*app.createdOn) {
-			str := fmt.Sprintf("the unit (index: %d, createdOn: %s) was created before the genesis creation time (%s)", index, unitCreatedOn.String(), app.createdOn.String())
+		unitCreatedOn := oneUnit.Content().CreatedOn().Round(0)
+		if unitCreatedOn.Before(createdOn) {
+			str := fmt.Sprintf("the unit (index: %d, createdOn: %s) was created before the genesis creation time (%s)", index, unitCreatedOn.String(), createdOn.String())
 			return nil, errors.New(str)
 		}
 	}
diff --git a/domain/genesis/unitcontent_builder.go b/domain/genesis/unitcontent_builder.go
index 94f38ae..581f866 100644
--- a/domain/genesis/unitcontent_builder.go
+++ b/domain/genesis/unitcontent_builder.go
@@ -78,7 +78,8 @@ func (app *unitContentBuilder) Now() (UnitContent, error) {
 		return nil, errors.New("the creation time is mandatory in order to build a UnitContent instance")
 	}
 
-	if app.activatedOn.Before(*app.createdOn) {
+	// the monotonic clock readings are ignored, they are not part of the data
+	if app.activatedOn.Round(0).Before(app.createdOn.Round(0)) {
 		str := fmt.Sprintf("the activation time (%s) cannot be before the creation time (%s)", app.activatedOn.String(), app.createdOn.String())
 		return nil, errors.New(str)
 	}
-- 
2.43.0


From 848ec3df08347cafeb7d406259f08d1aa0cae8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 11/31] fix: importing a private key does not share its builder
 with the other callers

---
 domain/cryptography/keys/encryption/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/cryptography/keys/encryption/adapter.go b/domain/cryptography/keys/encryption/adapter.go
index f732434..e724f78 100644
--- a/domain/cryptography/keys/encryption/adapter.go
+++ b/domain/cryptography/keys/encryption/adapter.go
@@ -24,7 +24,7 @@ func (app *adapter) FromBytes(bytes []byte) (PrivateKey, error) {
 		return nil, err
 	}
 
-	return app.builder.WithPK(*pk).Now()
+	return app.builder.Create().WithPK(*pk).Now()
 }
 
 // FromEncoded converts an encoded string to PrivateKey
-- 
2.43.0


From 8efd611e1da9f5bd4e4f1da45f5c14ee199a4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 12/31] fix: peers are only built, and read, when their string
 stands for their host and port

---
 domain/peers/peer_builder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/domain/peers/peer_builder.go b/domain/peers/peer_builder.go
index 78b1c4c..c06fb85 100644
--- a/domain/peers/peer_builder.go
+++ b/domain/peers/peer_builder.go
@@ -61,7 +61,7 @@ func (app *peerBuilder) Now() (Peer, error) {
 			return nil, errors.New(str)
 		}
 
-		portInt, err := strconv.Atoi(sections[1])
+		portInt, err := strconv.ParseUint(sections[1], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -79,5 +79,13 @@ func (app *peerBuilder) Now() (Peer, error) {
 		return nil, errors.New("the port is mandatory in order to build a Peer instance")
 	}
 
-	return createPeer(app.host, *app.port, app.delimiter), nil
+	// the string of the peer must be readable by the other peers:
+	peer := createPeer(app.host, *app.port, app.delimiter)
+	sections := strings.Split(peer.String(), app.delimiter)
+	if len(sections) != 2 || sections[0] != app.host {
+		str := fmt.Sprintf("the delimiter (%s) was expected to be contained once in the peer string: '%s'", app.delimiter, peer.String())
+		return nil, errors.New(str)
+	}
+
+	return peer, nil
 }
-- 
2.43.0


From 1acc3d2f129bdc6fa1e52c1e4205e5a89629cd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 13/31] fix: a repeated rule only counts occurrences that
 follow each other

---
 .../languages/lexers/asts/tokens/adapter.go   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 0def7c4..a97aeb1 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -747,19 +747,21 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 			break
 		}
 
+		// a repetition must directly follow the previous occurrence:
+		index := res.Matches().List()[0].Discoveries().Index()
+		if len(list) > 0 && index > 0 {
+			break
+		}
+
 		list = append(list, res)
 		content := res.Content()
 
-		if res.HasMatches() {
-			matches := res.Matches().List()
-			index := matches[0].Discoveries().Index()
-			if index > 0 {
-				app.canContainPrefix = false
-			}
+		if index > 0 {
+			app.canContainPrefix = false
+		}
 
-			if index > 0 && !canContainPrefix {
-				break
-			}
+		if index > 0 && !canContainPrefix {
+			break
 		}
 
 		contentLength := len(content)
-- 
2.43.0


From f8c164a02bc288a6ffd7455b14dae97527f50aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 14/31] fix: matching a constant does not share its builder
 with the other callers

---
 domain/languages/lexers/asts/results/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/results/adapter.go b/domain/languages/lexers/asts/results/adapter.go
index bbcf8b7..fa9dce2 100644
--- a/domain/languages/lexers/asts/results/adapter.go
+++ b/domain/languages/lexers/asts/results/adapter.go
@@ -31,7 +31,7 @@ func (app *adapter) ToResult(input rules.Rule, script string) (Result, error) {
 	builder := app.builder.Create().WithInput(input)
 	if content.IsConstant() {
 		constant := content.Constant()
-		group, err := app.groupBuilder.WithName(constant).WithList([]string{
+		group, err := app.groupBuilder.Create().WithName(constant).WithList([]string{
 			constant,
 		}).Now()
 
-- 
2.43.0


From 9c02c79c72c3a80a9f9856c9197ed773eb468e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 15/31] fix: explaining a mistake does not share its current
 script with the other callers

---
 domain/languages/lexers/asts/mistakes/adapter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/mistakes/adapter.go b/domain/languages/lexers/asts/mistakes/adapter.go
index b537823..ef29926 100644
--- a/domain/languages/lexers/asts/mistakes/adapter.go
+++ b/domain/languages/lexers/asts/mistakes/adapter.go
@@ -54,8 +54,10 @@ func createAdapter(
 
 // ToMistake converts an InnerToken instance to a Mistake instance
 func (app *adapter) ToMistake(result tokens.Token, canContainPrefix bool) (Mistake, error) {
-	app.currentScript = ""
-	return app.token([]string{}, result, canContainPrefix)
+	// the current script belongs to this call only:
+	call := *app
+	call.currentScript = ""
+	return call.token([]string{}, result, canContainPrefix)
 }
 
 func (app *adapter) token(parentTokenNames []string, result tokens.Token, canContainPrefix bool) (Mistake, error) {
-- 
2.43.0


From 0c99a02750807bbe93408d480b1e359d8aff26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 16/31] fix: a root is built from its own tokens, never from
 others that have the same content

---
 domain/languages/lexers/roots/adapter.go | 49 ++----------------------
 1 file changed, 4 insertions(+), 45 deletions(-)

diff --git a/domain/languages/lexers/roots/adapter.go b/domain/languages/lexers/roots/adapter.go
index 8482f37..dd3f505 100644
--- a/domain/languages/lexers/roots/adapter.go
+++ b/domain/languages/lexers/roots/adapter.go
@@ -10,7 +10,6 @@ type adapter struct {
 	nodeBuilder       NodeBuilder
 	containersBuilder ContainersBuilder
 	containerBuilder  ContainerBuilder
-	tokenRoots        map[string]Root
 }
 
 func createAdapter(
@@ -26,45 +25,20 @@ func createAdapter(
 		nodeBuilder:       nodeBuilder,
 		containersBuilder: containersBuilder,
 		containerBuilder:  containerBuilder,
-		tokenRoots:        nil,
 	}
 
 	return &out
 }
 
-func (app *adapter) init() {
-	app.tokenRoots = map[string]Root{}
-}
-
 // ToRoot converts a root token to an instance
 func (app *adapter) ToRoot(token asts.Token) (Root, error) {
-	app.init()
-	return app.toRoot(token)
-}
-
-func (app *adapter) toRoot(token asts.Token) (Root, error) {
 	lineMatch := token.Match()
 	if !lineMatch.HasMatches() {
 		return nil, nil
 	}
 
-	// enter the sub tokens:
-	matches := lineMatch.Matches()
-	for _, oneMatch := range matches {
-		if !oneMatch.IsToken() {
-			continue
-		}
-
-		tokens := oneMatch.Token().Matches()
-		for _, oneToken := range tokens {
-			_, err := app.toRoot(oneToken)
-			if err != nil {
-				return nil, err
-			}
-		}
-	}
-
 	// create the containers map:
+	matches := lineMatch.Matches()
 	containersMap := map[string][]Container{}
 	for _, oneMatch := range matches {
 		if oneMatch.IsToken() {
@@ -72,7 +46,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 			tokenName := tokenMatch.Token()
 			matchTokens := tokenMatch.Matches()
 			for _, oneMatchToken := range matchTokens {
-				root, err := app.toRootWithCache(oneMatchToken)
+				root, err := app.ToRoot(oneMatchToken)
 				if err != nil {
 					return nil, err
 				}
@@ -102,7 +76,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 
 	nodesMap := map[string]Node{}
 	for name, containerList := range containersMap {
-		containers, err := app.containersBuilder.WithList(containerList).Now()
+		containers, err := app.containersBuilder.Create().WithList(containerList).Now()
 		if err != nil {
 			return nil, err
 		}
@@ -122,20 +96,5 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 
 	name := token.Name()
 	content := token.Discovery()
-	ins, err := app.builder.Create().WithNodes(nodes).WithName(name).WithContent(content).Now()
-	if err != nil {
-		return nil, err
-	}
-
-	app.tokenRoots[content] = ins
-	return ins, nil
-}
-
-func (app *adapter) toRootWithCache(token asts.Token) (Root, error) {
-	content := token.Discovery()
-	if ref, ok := app.tokenRoots[content]; ok {
-		return ref, nil
-	}
-
-	return app.toRoot(token)
+	return app.builder.Create().WithNodes(nodes).WithName(name).WithContent(content).Now()
 }
-- 
2.43.0


From af5be1f73b02d4ce238a6d73967b6d5e43f9333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 17/31] fix: scanning for an element always finds the same one,
 the closest first

---
 domain/languages/lexers/roots/nodes.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/roots/nodes.go b/domain/languages/lexers/roots/nodes.go
index 3c89ec2..bb8609c 100644
--- a/domain/languages/lexers/roots/nodes.go
+++ b/domain/languages/lexers/roots/nodes.go
@@ -3,6 +3,7 @@ package roots
 import (
 	"errors"
 	"fmt"
+	"sort"
 )
 
 type nodes struct {
@@ -41,7 +42,19 @@ func (obj *nodes) Fetch(name string) (Node, error) {
 
 // Scan scans the node
 func (obj *nodes) Scan(name string) (Root, Node, Container, string, error) {
-	for _, node := range obj.list {
+	// an element of the current nodes comes before those of its sub nodes:
+	if node, ok := obj.list[name]; ok {
+		return nil, node, nil, "", nil
+	}
+
+	names := []string{}
+	for oneName := range obj.list {
+		names = append(names, oneName)
+	}
+
+	sort.Strings(names)
+	for _, oneName := range names {
+		node := obj.list[oneName]
 		root, subNode, container, content, err := node.Scan(name)
 		if err != nil {
 			continue
-- 
2.43.0


From 5fa170582973d747079e0a12e15a432fad9c265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 18/31] fix: channels are tried in the order of their
 declaration

---
 domain/languages/lexers/asts/tokens/adapter.go         | 6 +++---
 domain/languages/lexers/asts/tokens/adapter_builder.go | 5 ++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index a97aeb1..7833b97 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -32,7 +32,7 @@ type adapter struct {
 	pathTokenBuilder          paths.TokenBuilder
 	pathBuilder               paths.Builder
 	rootPath                  paths.Path
-	channels                  map[string]paths.Path
+	channels                  []paths.Path
 	canContainPrefix          bool
 	canContainSuffix          bool
 	recursiveTokens           map[string]string
@@ -59,7 +59,7 @@ func createAdapterWithChannels(
 	pathTokenBuilder paths.TokenBuilder,
 	pathBuilder paths.Builder,
 	rootPath paths.Path,
-	channels map[string]paths.Path,
+	channels []paths.Path,
 	canContainPrefix bool,
 	canContainSuffix bool,
 ) Adapter {
@@ -162,7 +162,7 @@ func createAdapterInternally(
 	pathTokenBuilder paths.TokenBuilder,
 	pathBuilder paths.Builder,
 	rootPath paths.Path,
-	channels map[string]paths.Path,
+	channels []paths.Path,
 	canContainPrefix bool,
 	canContainSuffix bool,
 ) Adapter {
diff --git a/domain/languages/lexers/asts/tokens/adapter_builder.go b/domain/languages/lexers/asts/tokens/adapter_builder.go
index 52eeb34..c07caaa 100644
--- a/domain/languages/lexers/asts/tokens/adapter_builder.go
+++ b/domain/languages/lexers/asts/tokens/adapter_builder.go
@@ -191,7 +191,7 @@ func (app *adapterBuilder) Now() (Adapter, error) {
 	}
 
 	if app.channels != nil {
-		channelPaths := map[string]paths.Path{}
+		channelPaths := []paths.Path{}
 		channels := app.channels.All()
 		for _, oneChannelToken := range channels {
 			channelPath, err := pathAdapter.ToPath(oneChannelToken)
@@ -199,8 +199,7 @@ func (app *adapterBuilder) Now() (Adapter, error) {
 				return nil, err
 			}
 
-			name := oneChannelToken.Name()
-			channelPaths[name] = channelPath
+			channelPaths = append(channelPaths, channelPath)
 		}
 
 		return createAdapterWithChannels(
-- 
2.43.0


From 8e2933670755beaaf5bdc205c0fb7ccd18964e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 19/31] fix: the replacements of a script do not apply to the
 next scripts

---
 applications/languages/lexers/application.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index 76a54b8..d15f84d 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -369,6 +369,12 @@ func (app *application) fetchReplacementPaths(
 		return replacementPaths, nil
 	}
 
+	// the replacements belong to this call only:
+	paths := map[string]asts_paths.Path{}
+	for name, path := range replacementPaths {
+		paths[name] = path
+	}
+
 	repList := references.Replacements().All()
 	for _, oneReplacement := range repList {
 		localTokenName := oneReplacement.LocalToken()
@@ -377,16 +383,16 @@ func (app *application) fetchReplacementPaths(
 			return nil, err
 		}
 
-		refPath, err := app.path(resPath, replacementPaths, true)
+		refPath, err := app.path(resPath, paths, true)
 		if err != nil {
 			return nil, err
 		}
 
 		refTokenName := oneReplacement.ReferenceToken()
-		replacementPaths[refTokenName] = refPath
+		paths[refTokenName] = refPath
 	}
 
-	return replacementPaths, nil
+	return paths, nil
 }
 
 func (app *application) fetchNotFoundPaths(
-- 
2.43.0


From c6994fccd3be73ad07857e0c28e2625a1d4c6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 20/31] fix: included scripts are read with the patterns of the
 script that includes them

---
 applications/languages/lexers/application.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index d15f84d..c05f97f 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -407,7 +407,7 @@ func (app *application) fetchNotFoundPaths(
 
 	refList := references.References().All()
 	for _, oneReference := range refList {
-		path, err := app.linkToPathFromFile(oneReference, replacementPaths)
+		path, err := app.linkToPathFromFile(oneReference, resContainer, replacementPaths)
 		if err != nil {
 			return nil, err
 		}
@@ -421,6 +421,7 @@ func (app *application) fetchNotFoundPaths(
 
 func (app *application) linkToPathFromFile(
 	reference links.Link,
+	parent resources_containers.Container,
 	replacements map[string]asts_paths.Path,
 ) (asts_paths.Path, error) {
 	applicationBuilder := app.builder.Create()
@@ -446,7 +447,7 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
-	resContainer, err := app.resourcesContainerBuilder.Create().WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
+	resContainer, err := app.resourcesContainerBuilder.Create().WithPatterns(parent.Patterns()).WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6deea11c63d695f3f015f78054e16dcf872c0d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 21/31] fix: an include of a single path is refused instead of
 crashing

---
 domain/languages/lexers/references/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/references/adapter.go b/domain/languages/lexers/references/adapter.go
index b7c9417..18f03c1 100644
--- a/domain/languages/lexers/references/adapter.go
+++ b/domain/languages/lexers/references/adapter.go
@@ -108,7 +108,7 @@ func (app *adapter) includes(content string) (map[string]links.Include, error) {
 		pathStrings := strings.Split(oneMatch[2], app.pathSeparator)
 		amount := len(pathStrings)
 		name := oneMatch[1]
-		if amount > 3 {
+		if amount < 2 || amount > 3 {
 			str := fmt.Sprintf("the include (name: %s) must contain {2,3} (rules, tokens, channels (optional)) paths, %d paths provided", name, amount)
 			return nil, errors.New(str)
 		}
-- 
2.43.0


From 864ba8c5cb8aa6faa8a04e88b989d4b7250a7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 22/31] fix: a script that includes itself is refused instead
 of recursing forever

---
 applications/languages/lexers/application.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index c05f97f..0b3de4f 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -1,8 +1,11 @@
 package lexers
 
 import (
+	"errors"
+	"fmt"
 	"io/ioutil"
 	"path/filepath"
+	"strings"
 
 	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
 	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
@@ -38,6 +41,7 @@ type application struct {
 	builder                   Builder
 	basePath                  paths.Paths
 	replacementPaths          map[string]asts_paths.Path
+	includes                  []string
 }
 
 func createApplication(
@@ -429,12 +433,22 @@ func (app *application) linkToPathFromFile(
 		applicationBuilder.WithReplacementPaths(replacements)
 	}
 
-	application, err := applicationBuilder.WithBasePaths(app.basePath).Now()
+	ins, err := applicationBuilder.WithBasePaths(app.basePath).Now()
 	if err != nil {
 		return nil, err
 	}
 
 	includePaths := reference.Include().Paths()
+	key := strings.Join([]string{filepath.Clean(includePaths.Rules()), filepath.Clean(includePaths.Tokens())}, ";")
+	for _, oneInclude := range app.includes {
+		if oneInclude == key {
+			str := fmt.Sprintf("the include (name: %s) includes itself", reference.Include().Name())
+			return nil, errors.New(str)
+		}
+	}
+
+	subApplication := ins.(*application)
+	subApplication.includes = append(append([]string{}, app.includes...), key)
 	rulesPath := filepath.Join(app.basePath.Rules(), includePaths.Rules())
 	rulesContent, err := ioutil.ReadFile(rulesPath)
 	if err != nil {
@@ -458,7 +472,7 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
-	refPath, err := application.Path(resPath)
+	refPath, err := subApplication.Path(resPath)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e617f5469ff2409667a4632cacb0cde7209fbde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 23/31] fix: the prefix and suffix of a rule's match are taken
 from the script, not from the rule's code

---
 domain/languages/lexers/asts/adapter.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/domain/languages/lexers/asts/adapter.go b/domain/languages/lexers/asts/adapter.go
index 4e86616..8443bb7 100644
--- a/domain/languages/lexers/asts/adapter.go
+++ b/domain/languages/lexers/asts/adapter.go
@@ -225,8 +225,7 @@ func (app *adapter) tokenMatch(tokenMatch ast_tokens.TokenMatch) (TokenMatch, er
 func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error) {
 	name := ruleMatch.Rule().Base().Name()
 	astResult := ruleMatch.Result().Result()
-	input := ruleMatch.Result().Path().Base().Code()
-	result, err := app.ruleResult(name, astResult, input)
+	result, err := app.ruleResult(name, astResult)
 	if err != nil {
 		return nil, err
 	}
@@ -238,11 +237,12 @@ func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error)
 	return app.ruleMatchBuilder.Create().WithRule(name).WithResult(result).Now()
 }
 
-func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input string) (Result, error) {
+func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result) (Result, error) {
 	if !ruleResult.HasResults() {
 		return nil, nil
 	}
 
+	input := ""
 	firstIndex := uint(0)
 	results := ruleResult.Results()
 	discoveriesContent := ruleResult.Discoveries()
@@ -253,13 +253,14 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 		}
 
 		matches := oneResult.Matches().List()
-		for idx, oneMatch := range matches {
+		for _, oneMatch := range matches {
 			oneDiscoveries := oneMatch.Discoveries()
-			discoveriesList = append(discoveriesList, oneDiscoveries.All()...)
-
-			if idx <= 0 {
-				firstIndex = oneMatch.Discoveries().Index()
+			if len(discoveriesList) <= 0 {
+				input = oneMatch.Input()
+				firstIndex = oneDiscoveries.Index()
 			}
+
+			discoveriesList = append(discoveriesList, oneDiscoveries.All()...)
 		}
 	}
 
@@ -280,7 +281,7 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 	inputLength := uint(len(input))
 	contentWithPrefixLength := firstIndex + uint(len(discoveriesContent))
 	if contentWithPrefixLength < inputLength {
-		builder.WithSuffix(input[:contentWithPrefixLength])
+		builder.WithSuffix(input[contentWithPrefixLength:])
 	}
 
 	return builder.Now()
-- 
2.43.0


From 7879ded37faaec252816179c037cb1472b6db8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 24/31] fix: a token that has a not block still needs its own
 block to match

---
 domain/languages/lexers/asts/tokens/tokencontent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/tokencontent.go b/domain/languages/lexers/asts/tokens/tokencontent.go
index 509136e..025dd92 100644
--- a/domain/languages/lexers/asts/tokens/tokencontent.go
+++ b/domain/languages/lexers/asts/tokens/tokencontent.go
@@ -32,8 +32,8 @@ func createTokenContentInternally(
 
 // IsValid returns true if the token is valid, false otherwise
 func (obj *tokenContent) IsValid() bool {
-	if obj.HasNot() {
-		return !obj.Not().Matches().IsValid()
+	if obj.HasNot() && obj.Not().Matches().IsValid() {
+		return false
 	}
 
 	return obj.must.Matches().IsValid()
-- 
2.43.0


From f137bd04218b330e4edb1651a03687c1e8630981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 25/31] fix: occurrences that follow a legal prefix are not
 counted twice

---
 domain/languages/lexers/asts/tokens/adapter.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 7833b97..95cefa3 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -733,7 +733,6 @@ func (app *adapter) tokenPathToTokenResultMatches(
 func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAreActivated bool) (RuleMatch, error) {
 	remaining := script
 	rule := rulePath.Base()
-	scriptLength := len(script)
 	list := []results.Result{}
 	canContainPrefix := app.canContainPrefix && chansAreActivated
 	_, pMax := rulePath.Cardinality().Delimiter()
@@ -764,12 +763,12 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 			break
 		}
 
-		contentLength := len(content)
-		if scriptLength <= contentLength {
+		length := int(index) + len(content)
+		if len(remaining) <= length {
 			break
 		}
 
-		remaining = remaining[contentLength:]
+		remaining = remaining[length:]
 		if pMax != nil && uint(len(list)) >= *pMax {
 			break
 		}
-- 
2.43.0


From 194059456d35ba560f1152f85f8a2a80d8e7f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 26/31] fix: combining the elements of a path does not write
 into its shared dependencies

---
 domain/languages/lexers/asts/paths/adapter.go | 2 +-
 domain/languages/lexers/asts/paths/path.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/asts/paths/adapter.go b/domain/languages/lexers/asts/paths/adapter.go
index d9a6770..a4dacbd 100644
--- a/domain/languages/lexers/asts/paths/adapter.go
+++ b/domain/languages/lexers/asts/paths/adapter.go
@@ -225,7 +225,7 @@ func (app *adapter) ToPath(token tokens.Token) (Path, error) {
 		return nil, err
 	}
 
-	allElements := app.dependencies
+	allElements := append([]Element{}, app.dependencies...)
 	for _, oneElement := range externalDepElements {
 		allElements = append(allElements, oneElement)
 	}
diff --git a/domain/languages/lexers/asts/paths/path.go b/domain/languages/lexers/asts/paths/path.go
index eb45142..6d293a5 100644
--- a/domain/languages/lexers/asts/paths/path.go
+++ b/domain/languages/lexers/asts/paths/path.go
@@ -29,6 +29,6 @@ func (obj *path) Dependencies() Dependencies {
 
 // CombinedElements returns the current element combined with the dependencies elements
 func (obj *path) CombinedElements() []Element {
-	dep := obj.dep.All()
-	return append(dep, obj.element)
+	list := append([]Element{}, obj.dep.All()...)
+	return append(list, obj.element)
 }
-- 
2.43.0


From c2376dc900c2a97503cbbaf33baeba7cfc90de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 27/31] fix: a rule with an unclosed pattern is an error, not a
 crash

---
 domain/languages/lexers/containers/rules/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/containers/rules/adapter.go b/domain/languages/lexers/containers/rules/adapter.go
index a270047..33d0465 100644
--- a/domain/languages/lexers/containers/rules/adapter.go
+++ b/domain/languages/lexers/containers/rules/adapter.go
@@ -182,6 +182,11 @@ func (app *adapter) pattern(ruleName string, content string, ptrns patterns.Patt
 
 	pattern := regexp.MustCompile(patternStr)
 	matches := pattern.FindStringSubmatch(content)
+	if len(matches) <= 0 {
+		str := fmt.Sprintf("the rule (name: %s) contains an invalid pattern (%s)", ruleName, content)
+		return nil, errors.New(str)
+	}
+
 	cardinalityContent := strings.Replace(content, matches[0], "", 1)
 	cardinality, err := app.cardinalityAdapter.ToCardinality(cardinalityContent)
 	if err != nil {
-- 
2.43.0


From 68be9ce19cf019f9b4f63e38ca0bfd0e050e824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 28/31] fix: a script that ends before an optional element
 still needs the mandatory elements that follow it

---
 domain/languages/lexers/asts/tokens/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 95cefa3..5263ac9 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -332,6 +332,11 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 		}
 
 		if match == nil {
+			// the script ended before an optional element, the elements that follow it may still be missing:
+			if remainingScript == "" {
+				continue
+			}
+
 			break
 		}
 
-- 
2.43.0


From 1fae0e17448d2ee31503f9fd3e0cd431163148dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 29/31] fix: grammar of the base language, a list in
 parentheses can be indexed whatever was tried to be read before it

---
 domain/languages/scripts/resources/base/tokens.alex | 1 +
 1 file changed, 1 insertion(+)

diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index 733c4d5..d694d77 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -663,6 +663,7 @@ listAssignableToAssignables
 totalListValue
     : variableName
     | totalListAssignable
+    | OPEN_PARENTHESIS totalListAssignable CLOSE_PARENTHESIS
     +++
     :
         []
-- 
2.43.0


From ae90f7296746698ff7277c08186ac4fa4fd6bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:45 +0000
Subject: [PATCH 30/31] fix: recursion guard, a token is only being read at a
 place until it has been read there

---
 domain/languages/lexers/asts/tokens/adapter.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 5263ac9..0a58089 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -577,14 +577,22 @@ func (app *adapter) containerToMatch(container paths.Container, dependencies pat
 	if container.IsRecursive() {
 		recursiveToken := container.Recursive()
 		name := recursiveToken.Name()
-		if previousScript, ok := app.recursiveTokens[name]; ok {
-			if previousScript == script {
-				delete(app.recursiveTokens, name)
-				return nil, nil
-			}
+		previousScript, isActive := app.recursiveTokens[name]
+		if isActive && previousScript == script {
+			return nil, nil
 		}
 
+		// the token is only being read at this place until it has been read:
 		app.recursiveTokens[name] = script
+		defer func() {
+			if isActive {
+				app.recursiveTokens[name] = previousScript
+				return
+			}
+
+			delete(app.recursiveTokens, name)
+		}()
+
 		element, err := dependencies.Fetch(name)
 		if err != nil {
 			str := fmt.Sprintf("the recursive token (name: %s) could not be found: %s", name, err.Error())
-- 
2.43.0


From 828b00071be53927ecbb7af358538bc50dff15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:52 +0000
Subject: [PATCH 31/31] fix: the hash of a genesis and of its units depends on
 times that do not fit 64 bits of nanoseconds

---
 domain/genesis/builder.go             | 4 +++-
 domain/genesis/unitcontent_builder.go | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/domain/genesis/builder.go b/domain/genesis/builder.go
index dd31b96..5fe40e9 100644
--- a/domain/genesis/builder.go
+++ b/domain/genesis/builder.go
@@ -77,10 +77,12 @@ func (app *builder) Now() (Genesis, error) {
 		}
 	}
 
+	// the nanoseconds since 1970 do not fit an integer for every time, so seconds and nanoseconds are apart
 	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
 		[]byte(strconv.Itoa(int(*app.fees))),
 		app.units.Hash().Bytes(),
-		[]byte(strconv.Itoa(int(app.createdOn.UTC().UnixNano()))),
+		[]byte(strconv.Itoa(int(app.createdOn.UTC().Unix()))),
+		[]byte(strconv.Itoa(app.createdOn.UTC().Nanosecond())),
 	})
 
 	if err != nil {
diff --git a/domain/genesis/unitcontent_builder.go b/domain/genesis/unitcontent_builder.go
index 581f866..cbd2a15 100644
--- a/domain/genesis/unitcontent_builder.go
+++ b/domain/genesis/unitcontent_builder.go
@@ -84,11 +84,14 @@ func (app *unitContentBuilder) Now() (UnitContent, error) {
 		return nil, errors.New(str)
 	}
 
+	// the nanoseconds since 1970 do not fit an integer for every time, so seconds and nanoseconds are apart
 	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
 		[]byte(strconv.Itoa(int(app.amount))),
 		[]byte(app.nonce),
-		[]byte(strconv.Itoa(int(app.activatedOn.UTC().UnixNano()))),
-		[]byte(strconv.Itoa(int(app.createdOn.UTC().UnixNano()))),
+		[]byte(strconv.Itoa(int(app.activatedOn.UTC().Unix()))),
+		[]byte(strconv.Itoa(app.activatedOn.UTC().Nanosecond())),
+		[]byte(strconv.Itoa(int(app.createdOn.UTC().Unix()))),
+		[]byte(strconv.Itoa(app.createdOn.UTC().Nanosecond())),
 	})
 
 	if err != nil {
-- 
2.43.0

