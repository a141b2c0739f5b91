From d2b96c94954d2d6ea2465de674d05086644e2730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:45 +0000
Subject: [PATCH 01/27] fix: reject values outside the group when decoding
 mod-p elements

Decoding accepted zero, negative, unreduced and non-residue values. In
particular p-U could replace a ciphertext component U whenever the proof
challenge was even.
---
 group/modsafeprime.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 746f4a4..3ac0279 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"math/big"
 	"strings"
 )
@@ -158,8 +159,7 @@ func (e *ModPElement) MarshalBinary() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalBinary(data []byte) error {
-	e.val = new(big.Int).SetBytes(data)
-	return nil
+	return e.setMember(new(big.Int).SetBytes(data))
 }
 
 func (e *ModPElement) MarshalJSON() ([]byte, error) {
@@ -167,8 +167,22 @@ func (e *ModPElement) MarshalJSON() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalJSON(data []byte) error {
-	err := e.val.UnmarshalJSON(data)
-	return err
+	val := new(big.Int)
+	if err := val.UnmarshalJSON(data); err != nil {
+		return err
+	}
+	return e.setMember(val)
+}
+
+// setMember sets the receiver to val, provided that val is a canonical
+// representative of an element of the order (p-1)/2 subgroup.
+func (e *ModPElement) setMember(val *big.Int) error {
+	p := e.group.fieldOrder
+	if val.Sign() <= 0 || val.Cmp(p) >= 0 || big.Jacobi(val, p) != 1 {
+		return errors.New("value is not a group element")
+	}
+	e.val = val
+	return nil
 }
 
 func NewModPGroup(name string, fieldOrder, generator string) Group {
-- 
2.43.0


From 1033567141693ab8782cdeb2782df1b0c3bc778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:11 +0000
Subject: [PATCH 02/27] fix: return errors for malformed P-256 and P-384 JSON
 coordinates

Missing, null and oversized coordinates caused a panic and negative
coordinates were decoded as their absolute value.
---
 group/p256.go | 11 +++++++++--
 group/p384.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index d329728..ae0d956 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -186,14 +186,21 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	byteLen := 32
+
+	if point.X == nil || point.Y == nil {
+		return fmt.Errorf("missing point coordinate")
+	}
+	if point.X.Sign() < 0 || point.X.BitLen() > 8*byteLen || point.Y.Sign() < 0 || point.Y.BitLen() > 8*byteLen {
+		return fmt.Errorf("point coordinate out of range")
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
 		err = e.val.UnmarshalBinary([]byte{0})
 		return err
 	}
 
-	byteLen := 32
-
 	xBytes := point.X.Bytes()
 	yBytes := point.Y.Bytes()
 
diff --git a/group/p384.go b/group/p384.go
index cd298b1..66ed0dc 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -186,14 +186,21 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	byteLen := 48
+
+	if point.X == nil || point.Y == nil {
+		return fmt.Errorf("missing point coordinate")
+	}
+	if point.X.Sign() < 0 || point.X.BitLen() > 8*byteLen || point.Y.Sign() < 0 || point.Y.BitLen() > 8*byteLen {
+		return fmt.Errorf("point coordinate out of range")
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
 		err = e.val.UnmarshalBinary([]byte{0})
 		return err
 	}
 
-	byteLen := 48
-
 	xBytes := point.X.Bytes()
 	yBytes := point.Y.Bytes()
 
-- 
2.43.0


From 30db206db4549c02b05336f3182bc3378a4f68b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:12 +0000
Subject: [PATCH 03/27] fix: do not share the curve's generator coordinates
 between elements

The generators of P-256 and P-384 pointed to the coordinates stored in the
global curve description, so that decoding into such an element overwrote
the base point for the whole process.
---
 group/p256.go | 2 +-
 group/p384.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index ae0d956..92271eb 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -39,7 +39,7 @@ func (g *p256Group) N() *big.Int {
 func (g *p256Group) Generator() Element {
 	return &p256Point{
 		curve: g,
-		val:   group.P256.Generator(),
+		val:   group.P256.Generator().Copy(),
 	}
 }
 
diff --git a/group/p384.go b/group/p384.go
index 66ed0dc..8a565d9 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -39,7 +39,7 @@ func (g *p384Group) N() *big.Int {
 func (g *p384Group) Generator() Element {
 	return &p384Point{
 		curve: g,
-		val:   group.P384.Generator(),
+		val:   group.P384.Generator().Copy(),
 	}
 }
 
-- 
2.43.0


From 92736e6a577f922150a47b55eead2dee05084ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 04/27] fix: make the secp256k1 binary encoding fixed-length
 and validated

Coordinates with leading zero bytes were encoded with fewer than 32 bytes
and decoded to another point (also when hashing to the group), arbitrary
bytes decoded to points off the curve, and short input caused a panic.
---
 group/p256k1.go | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index 233e702..ddf8fff 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"github.com/ing-bank/zkrp/crypto/p256"
 	"math/big"
 )
@@ -123,11 +124,8 @@ func (e *p256k1Point) Set(a Element) Element {
 }
 
 func (e *p256k1Point) SetBytes(b []byte) Element {
-	xBytes := b[:32]
-	yBytes := b[32:]
 	e.val = new(p256.P256).SetInfinity()
-	e.val.X = new(big.Int).SetBytes(xBytes)
-	e.val.Y = new(big.Int).SetBytes(yBytes)
+	_ = e.UnmarshalBinary(b)
 	return e
 }
 
@@ -152,9 +150,10 @@ func (e *p256k1Point) FieldOrder() *big.Int {
 
 func (e *p256k1Point) MapToGroup(s string) (Element, error) {
 	tmp, _ := p256.MapToGroup(s)
-	tmpX := tmp.X.Bytes()
-	tmpY := tmp.Y.Bytes()
-	res := e.curve.Element().SetBytes(append(tmpX, tmpY...))
+	buf := make([]byte, 64)
+	tmp.X.FillBytes(buf[:32])
+	tmp.Y.FillBytes(buf[32:])
+	res := e.curve.Element().SetBytes(buf)
 	return res, nil
 }
 
@@ -170,21 +169,40 @@ func (e *p256k1Point) IsIdentity() bool {
 }
 
 func (e *p256k1Point) MarshalBinary() ([]byte, error) {
-	xBytes := make([]byte, 32)
+	data := make([]byte, 64)
 	if e.val.X != nil {
-		xBytes = e.val.X.Bytes()
+		e.val.X.FillBytes(data[:32])
 	}
-
-	yBytes := make([]byte, 32)
 	if e.val.Y != nil {
-		yBytes = e.val.Y.Bytes()
+		e.val.Y.FillBytes(data[32:])
 	}
 
-	return append(xBytes, yBytes...), nil
+	return data, nil
 }
 
 func (e *p256k1Point) UnmarshalBinary(data []byte) error {
-	e.SetBytes(data)
+	if len(data) != 64 {
+		return errors.New("invalid point encoding length")
+	}
+	return e.setCoordinates(new(big.Int).SetBytes(data[:32]), new(big.Int).SetBytes(data[32:]))
+}
+
+// setCoordinates sets the receiver to the point (x, y), where (0, 0) denotes
+// the point at infinity.
+func (e *p256k1Point) setCoordinates(x, y *big.Int) error {
+	if x.Sign() == 0 && y.Sign() == 0 {
+		e.val = new(p256.P256).SetInfinity()
+		return nil
+	}
+	p := e.curve.fieldOrder
+	if x.Sign() < 0 || x.Cmp(p) >= 0 || y.Sign() < 0 || y.Cmp(p) >= 0 {
+		return errors.New("point coordinate out of range")
+	}
+	val := &p256.P256{X: x, Y: y}
+	if !val.IsOnCurve() {
+		return errors.New("point is not on the curve")
+	}
+	e.val = val
 	return nil
 }
 
-- 
2.43.0


From 6780e977a724a7cf8410a7f356769ea951e89ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:18 +0000
Subject: [PATCH 05/27] fix: implement JSON decoding of secp256k1 points

UnmarshalJSON did nothing, so every decoded point was the identity. The
identity is encoded as (0, 0), as for the other curves.
---
 group/p256k1.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index ddf8fff..a513e5e 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -207,11 +207,27 @@ func (e *p256k1Point) setCoordinates(x, y *big.Int) error {
 }
 
 func (e *p256k1Point) MarshalJSON() ([]byte, error) {
-	return json.Marshal(e.val)
+	point := ECPoint{
+		X: big.NewInt(0),
+		Y: big.NewInt(0),
+	}
+	if !e.IsIdentity() {
+		point.X = e.val.X
+		point.Y = e.val.Y
+	}
+	return json.Marshal(&point)
 }
 
 func (e *p256k1Point) UnmarshalJSON(data []byte) error {
-	return nil
+	point := ECPoint{}
+	err := json.Unmarshal(data, &point)
+	if err != nil {
+		return err
+	}
+	if point.X == nil || point.Y == nil {
+		return errors.New("missing point coordinate")
+	}
+	return e.setCoordinates(point.X, point.Y)
 }
 
 func SecP256k1() Group {
-- 
2.43.0


From db61737d7eee1ae047cb75e4799e519e8d548cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:20 +0000
Subject: [PATCH 06/27] fix: give the secp256k1 identity a single string form

The string forms feed the Fiat-Shamir hashes, but the identity had two.
---
 group/p256k1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/group/p256k1.go b/group/p256k1.go
index a513e5e..7bce948 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -158,6 +158,10 @@ func (e *p256k1Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p256k1Point) String() string {
+	// The point at infinity has two representations.
+	if e.IsIdentity() {
+		return new(p256.P256).SetInfinity().String()
+	}
 	return e.val.String()
 }
 
-- 
2.43.0


From bb6381188b063e3e29db1650504e0f6b96d3bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:21 +0000
Subject: [PATCH 07/27] fix: encode ristretto255 elements in JSON by their
 canonical bytes

The code assumed an uncompressed x, y encoding and panicked on most
elements.
---
 group/ristretto255.go | 49 +++++++------------------------------------
 1 file changed, 7 insertions(+), 42 deletions(-)

diff --git a/group/ristretto255.go b/group/ristretto255.go
index 10db44c..eb302a8 100644
--- a/group/ristretto255.go
+++ b/group/ristretto255.go
@@ -3,7 +3,6 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
-	"fmt"
 	"github.com/cloudflare/circl/group"
 	"math/big"
 )
@@ -156,54 +155,20 @@ func (e *r255Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *r255Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
-	xVal := big.NewInt(0)
-	yVal := big.NewInt(0)
-
-	// If the point is not 0.
-	if tmp[0] != 0 {
-		xBytes := tmp[1 : 32+1]
-		yBytes := tmp[1+32:]
-		if len(xBytes) != 32 || len(xBytes) != len(yBytes) {
-			return nil, fmt.Errorf("error in underlying binary marshalling")
-		}
-		xVal.SetBytes(xBytes)
-		yVal.SetBytes(yBytes)
-	}
-
-	point := ECPoint{
-		X: xVal,
-		Y: yVal,
+	tmp, err := e.val.MarshalBinary()
+	if err != nil {
+		return nil, err
 	}
-
-	return json.Marshal(&point)
+	return json.Marshal(tmp)
 }
 
 func (e *r255Point) UnmarshalJSON(data []byte) error {
-	point := ECPoint{}
-	err := json.Unmarshal(data, &point)
+	var tmp []byte
+	err := json.Unmarshal(data, &tmp)
 	if err != nil {
 		return err
 	}
-
-	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
-	}
-
-	byteLen := 32
-
-	xBytes := point.X.Bytes()
-	yBytes := point.Y.Bytes()
-
-	tmp := make([]byte, 1+2*byteLen)
-	tmp[0] = 4
-	// Copy while maintaining leading zeroes.
-	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
-	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func Ristretto255() Group {
-- 
2.43.0


From 2dea7e32ce2fef33f2df30af945d1a22a46ce201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:22 +0000
Subject: [PATCH 08/27] fix: keep ristretto255 elements valid when decoding
 fails

A failed decoding left the receiver with all-zero coordinates, which
compare equal to every element.
---
 group/ristretto255.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/group/ristretto255.go b/group/ristretto255.go
index eb302a8..e5cc5bc 100644
--- a/group/ristretto255.go
+++ b/group/ristretto255.go
@@ -104,7 +104,7 @@ func (e *r255Point) Set(x Element) Element {
 
 func (e *r255Point) SetBytes(b []byte) Element {
 	e.val = group.Ristretto255.NewElement()
-	e.val.UnmarshalBinary(b)
+	_ = e.UnmarshalBinary(b)
 	return e
 }
 
@@ -150,8 +150,12 @@ func (e *r255Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *r255Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	val := group.Ristretto255.NewElement()
+	if err := val.UnmarshalBinary(data); err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *r255Point) MarshalJSON() ([]byte, error) {
-- 
2.43.0


From a500a90e8e944cbccb63d0fa1412e3ef1f76d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 09/27] fix: do not treat the smallest int64 as a power of two

Range-proof setup panicked for it instead of returning an error.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index c595a02..a5a09a8 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -128,5 +128,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-	return (x != 0) && ((x & (x - 1)) == 0)
+	return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From 209c01133c39060dc094455a30cbe125b2c530e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:46 +0000
Subject: [PATCH 10/27] fix: derive independent challenges y and z

The second digest was computed over the input of the first, so y was always
equal to z and range proofs were not sound.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index a5a09a8..487a1c6 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -67,7 +67,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 	buffer2.WriteString(A.String())
 	buffer2.WriteString(S.String())
 	buffer2.WriteString(result1.String())
-	digest2.Write(buffer.Bytes())
+	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
 	tmp2 := output2[0:]
 	result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From f612c3ecad223096a54b85bf28bc9c0704909919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:47 +0000
Subject: [PATCH 11/27] fix: check the dimensions of inner product proofs

A proof with too few, too many or unpaired folding elements was verified
for a truncated statement or caused a panic.
---
 bulletproofs/bip.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 9b2b63c..deb519b 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -215,6 +215,10 @@ Verify is responsible for the verification of the Inner Product Proof.
 func (proof InnerProductProof) Verify() (bool, error) {
 
 	logn := len(proof.L)
+	if len(proof.R) != logn || len(proof.Params.Gg) != 1<<logn || len(proof.Params.Hh) != 1<<logn {
+		return false, errors.New("inconsistent inner product proof dimensions")
+	}
+
 	var (
 		x, xinv, x2, x2inv                   *big.Int
 		ngprime, nhprime, ngprime2, nhprime2 []group.Element
-- 
2.43.0


From f4e2dc3b67a76ccf5a0aa77b5c8ccc624044554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:48 +0000
Subject: [PATCH 12/27] fix: tie the inner product proof to its range proof

The verifier used the generators carried by the inner product proof and did
not compare the claimed inner product with t(x), so that range proofs for
arbitrary values could be forged.
---
 bulletproofs/bp.go      | 11 ++++++++++-
 bulletproofs/multibp.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 19322b3..012cc86 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -324,7 +324,16 @@ func (proof *BulletProof) Verify() (bool, error) {
 	c67 := rP.IsIdentity()
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The inner product proof must be about the generators and the inner
+	// product of this range proof, whatever parameters it carries.
+	ipProof := proof.InnerProductProof
+	ipp, setupErr := setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	if setupErr != nil {
+		return false, setupErr
+	}
+	ipProof.Params = ipp
+	ok, _ := ipProof.Verify()
+	ok = ok && ipProof.Cc.Cmp(proof.Tprime) == 0
 
 	result := c65 && c67 && ok
 
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 1755a02..348f8c7 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -318,7 +318,16 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	fmt.Println("Check 67:", c67)
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The inner product proof must be about the generators and the inner
+	// product of this range proof, whatever parameters it carries.
+	ipProof := proof.InnerProductProof
+	ipp, setupErr := setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	if setupErr != nil {
+		return false, setupErr
+	}
+	ipProof.Params = ipp
+	ok, _ := ipProof.Verify()
+	ok = ok && ipProof.Cc.Cmp(proof.Tprime) == 0
 	fmt.Println("Check 68:", ok)
 
 	result := c65 && c67 && ok
-- 
2.43.0


From 22132012b6725a17caad83b62f9871f7c55f9951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:49 +0000
Subject: [PATCH 13/27] fix: bind the statement and all commitments in range
 proof challenges

The challenges did not depend on the value commitment, and x did not depend
on A and S, so a prover could choose the commitment after the challenges
and have a value outside the range accepted.
---
 bulletproofs/bp.go      |  8 ++++----
 bulletproofs/multibp.go | 10 ++++++----
 bulletproofs/util.go    | 28 ++++++++++------------------
 3 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 012cc86..274206f 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -130,7 +130,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(V, A, S) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -187,7 +187,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(V, A, S, T1, T2) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -250,8 +250,8 @@ func (proof *BulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+	y, z, _ := HashBP(proof.V, proof.A, proof.S)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 348f8c7..0aa41b3 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -95,7 +95,8 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	transcript := append(append([]group.Element{}, commitments...), A, S)
+	y, z, _ := HashBP(transcript...) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -158,7 +159,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(append(transcript, T1, T2)...) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -232,8 +233,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	transcript := append(append([]group.Element{}, proof.Vs...), proof.A, proof.S)
+	y, z, _ := HashBP(transcript...)
+	x, _, _ := HashBP(append(transcript, proof.T1, proof.T2)...)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 487a1c6..53e4ef7 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -51,26 +51,18 @@ func powerOf(x *big.Int, n int64, SP group.Group) []*big.Int {
 /*
 HashBP is responsible for the computing a Zp element given elements from GT and G1.
 */
-func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
-
-	digest1 := sha256.New()
+func HashBP(elements ...group.Element) (*big.Int, *big.Int, error) {
 	var buffer bytes.Buffer
-	buffer.WriteString(A.String())
-	buffer.WriteString(S.String())
-	digest1.Write(buffer.Bytes())
-	output1 := digest1.Sum(nil)
-	tmp1 := output1[0:]
-	result1 := new(big.Int).SetBytes(tmp1)
+	for _, e := range elements {
+		buffer.WriteString(e.String())
+	}
+
+	output1 := sha256.Sum256(buffer.Bytes())
+	result1 := new(big.Int).SetBytes(output1[:])
 
-	digest2 := sha256.New()
-	var buffer2 bytes.Buffer
-	buffer2.WriteString(A.String())
-	buffer2.WriteString(S.String())
-	buffer2.WriteString(result1.String())
-	digest2.Write(buffer2.Bytes())
-	output2 := digest2.Sum(nil)
-	tmp2 := output2[0:]
-	result2 := new(big.Int).SetBytes(tmp2)
+	buffer.WriteString(result1.String())
+	output2 := sha256.Sum256(buffer.Bytes())
+	result2 := new(big.Int).SetBytes(output2[:])
 
 	return result1, result2, nil
 }
-- 
2.43.0


From 08fa7e177685c25306b77b1ccfab32b2cb580f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:49 +0000
Subject: [PATCH 14/27] fix: bind the statement in inner product round
 challenges

A round challenge depended on that round's L and R only, so the folding
elements could be chosen before the commitment they are about.
---
 bulletproofs/bip.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index deb519b..a08daef 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -173,7 +173,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	R.Add(R, SP.Element().Scale(u, cR))
 
 	// Fiat-Shamir:                                                       // (26)
-	x, _, _ = HashBP(L, R)
+	x, _, _ = HashBP(P, L, R)
 	xinv = bn.ModInverse(x, SP.N())
 
 	// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -234,8 +234,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
 	nprime := len(gprime)
 	for i := int64(0); i < int64(logn); i++ {
-		nprime = nprime / 2                      // (20)
-		x, _, _ = HashBP(proof.L[i], proof.R[i]) // (26)
+		nprime = nprime / 2                              // (20)
+		x, _, _ = HashBP(Pprime, proof.L[i], proof.R[i]) // (26)
 		xinv = bn.ModInverse(x, proof.Params.GP.N())
 		// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
 		ngprime = vectorScalarExp(gprime[:nprime], xinv, proof.Params.GP)
-- 
2.43.0


From 5385eebc243f4e58bf6f75be8f592f2320df4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:50 +0000
Subject: [PATCH 15/27] fix: make aggregated range proofs verify

The prover committed to aR twice instead of to aL and aR, and the verifier
added z^(j+2) to the powers of two instead of multiplying by it.
---
 bulletproofs/multibp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 0aa41b3..a642d2f 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -83,7 +83,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 
 	// Commitment: (A, alpha)
 	alpha, _ := rand.Int(rand.Reader, mod)                                                            // (43)
-	A := commitVector(aRConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
+	A := commitVector(aLConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
 
 	// sL, sR and commitment: (S, rho)
 	sL := sampleRandomVector(params.N, params.GP)                                          // (45)
@@ -299,7 +299,7 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	for j := 0; j < m; j++ {
 		hpSlide := hp[j*bitsPerValue : (j+1)*bitsPerValue]
 		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
-		exp := VectorAddConst(powersOfTwo, zp, mod)
+		exp, _ := VectorScalarMul(powersOfTwo, zp, mod)
 		val, _ := VectorExp(hpSlide, exp, params.GP)
 		prod.Add(prod, val)
 	}
-- 
2.43.0


From 2c9bb11ed9f1ca0f9046f13fd59959ba006cd146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 16/27] fix: return an error for unsupported aggregation sizes

An empty list or a list whose length does not divide the bit length caused
a panic in the prover and in the verifier.
---
 bulletproofs/multibp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index a642d2f..a381fb4 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -54,6 +54,9 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	mod := params.GP.N()
 
 	m := len(secrets)
+	if m == 0 || int(params.N)%m != 0 {
+		return proof, nil, fmt.Errorf("cannot share %d bits between %d values", params.N, m)
+	}
 	bitsPerValue := int(params.N) / m
 
 	commitments := make([]group.Element, m)
@@ -230,6 +233,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	m := len(proof.Vs)
+	if m == 0 || int(params.N)%m != 0 {
+		return false, fmt.Errorf("cannot share %d bits between %d values", params.N, m)
+	}
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-- 
2.43.0


From 975a56ad20c3f365a2763966539777ec2191b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:58 +0000
Subject: [PATCH 17/27] fix: report malformed range proofs when decoding JSON

Element decoding errors were ignored and missing scalars or lists of
unequal length caused a panic.
---
 bulletproofs/marshal.go | 102 +++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 37 deletions(-)

diff --git a/bulletproofs/marshal.go b/bulletproofs/marshal.go
index 71c14af..c7425a6 100644
--- a/bulletproofs/marshal.go
+++ b/bulletproofs/marshal.go
@@ -2,6 +2,7 @@ package bulletproofs
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -36,45 +37,64 @@ type bulletProofJSON struct {
 	Params            json.RawMessage
 }
 
-func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) InnerProductParams {
+func elementsFromRawMessages(j []json.RawMessage, g group.Group) ([]group.Element, error) {
+	elements := make([]group.Element, len(j))
+	for i := range j {
+		elements[i] = g.Element()
+		if err := elements[i].UnmarshalJSON(j[i]); err != nil {
+			return nil, err
+		}
+	}
+	return elements, nil
+}
+
+func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) (InnerProductParams, error) {
 	params := InnerProductParams{
 		Uu: g.Element(),
-		Gg: make([]group.Element, len(j.Gg)),
-		Hh: make([]group.Element, len(j.Hh)),
 		GP: g,
 	}
 
-	_ = params.Uu.UnmarshalJSON(j.Uu)
-	for i := range j.Gg {
-		params.Gg[i] = g.Element()
-		params.Hh[i] = g.Element()
-		_ = params.Gg[i].UnmarshalJSON(j.Gg[i])
-		_ = params.Hh[i].UnmarshalJSON(j.Hh[i])
+	var err error
+	if err = params.Uu.UnmarshalJSON(j.Uu); err != nil {
+		return InnerProductParams{}, err
+	}
+	if params.Gg, err = elementsFromRawMessages(j.Gg, g); err != nil {
+		return InnerProductParams{}, err
+	}
+	if params.Hh, err = elementsFromRawMessages(j.Hh, g); err != nil {
+		return InnerProductParams{}, err
 	}
 
-	return params
+	return params, nil
 }
 
-func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) InnerProductProof {
+func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) (InnerProductProof, error) {
+	if j.Cc == nil || j.A == nil || j.B == nil {
+		return InnerProductProof{}, errors.New("missing scalar in inner product proof")
+	}
+
 	proof := InnerProductProof{
-		L:      make([]group.Element, len(j.L)),
-		R:      make([]group.Element, len(j.R)),
-		P:      g.Element(),
-		Cc:     j.Cc,
-		A:      j.A,
-		B:      j.B,
-		Params: ipParamsFromRawMessage(j.Params, g),
+		P:  g.Element(),
+		Cc: j.Cc,
+		A:  j.A,
+		B:  j.B,
 	}
 
-	for i := range proof.L {
-		proof.L[i] = g.Element()
-		proof.R[i] = g.Element()
-		_ = proof.L[i].UnmarshalJSON(j.L[i])
-		_ = proof.R[i].UnmarshalJSON(j.R[i])
+	var err error
+	if proof.Params, err = ipParamsFromRawMessage(j.Params, g); err != nil {
+		return InnerProductProof{}, err
+	}
+	if proof.L, err = elementsFromRawMessages(j.L, g); err != nil {
+		return InnerProductProof{}, err
+	}
+	if proof.R, err = elementsFromRawMessages(j.R, g); err != nil {
+		return InnerProductProof{}, err
+	}
+	if err = proof.P.UnmarshalJSON(j.P); err != nil {
+		return InnerProductProof{}, err
 	}
-	_ = proof.P.UnmarshalJSON(j.P)
 
-	return proof
+	return proof, nil
 }
 
 func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletProof, error) {
@@ -84,24 +104,32 @@ func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletPr
 		return BulletProof{}, err
 	}
 
+	if tmp.Taux == nil || tmp.Mu == nil || tmp.Tprime == nil {
+		return BulletProof{}, errors.New("missing scalar in range proof")
+	}
+
+	ipProof, err := ipProofFromRawMessage(tmp.InnerProductProof, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
+	elements, err := elementsFromRawMessages([]json.RawMessage{tmp.V, tmp.A, tmp.S, tmp.T1, tmp.T2}, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
 	decodedProof := BulletProof{
-		V:                 params.GP.Element(),
-		A:                 params.GP.Element(),
-		S:                 params.GP.Element(),
-		T1:                params.GP.Element(),
-		T2:                params.GP.Element(),
+		V:                 elements[0],
+		A:                 elements[1],
+		S:                 elements[2],
+		T1:                elements[3],
+		T2:                elements[4],
 		Taux:              tmp.Taux,
 		Mu:                tmp.Mu,
 		Tprime:            tmp.Tprime,
-		InnerProductProof: ipProofFromRawMessage(tmp.InnerProductProof, params.GP),
+		InnerProductProof: ipProof,
 		Params:            params,
 	}
 
-	_ = decodedProof.V.UnmarshalJSON(tmp.V)
-	_ = decodedProof.A.UnmarshalJSON(tmp.A)
-	_ = decodedProof.S.UnmarshalJSON(tmp.S)
-	_ = decodedProof.T1.UnmarshalJSON(tmp.T1)
-	_ = decodedProof.T2.UnmarshalJSON(tmp.T2)
-
 	return decodedProof, nil
 }
-- 
2.43.0


From a38ee4fb13d77cdd76f120c117e1263134824c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:59 +0000
Subject: [PATCH 18/27] fix: report malformed vote proofs when decoding JSON

Element decoding errors were ignored and a missing challenge or response
caused a panic during verification.
---
 voteproof/marshal.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/voteproof/marshal.go b/voteproof/marshal.go
index efdab93..7bc267d 100644
--- a/voteproof/marshal.go
+++ b/voteproof/marshal.go
@@ -2,6 +2,7 @@ package voteproof
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -62,11 +63,6 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	ap.GEC.F = tmp.Params.GEC.F
 	ap.GEC.I = gEC
 
-	_ = ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G)
-	_ = ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H)
-	_ = ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G)
-	_ = ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H)
-
 	var pp ProofParams
 	pp.Bx = tmp.Params.Bx
 	pp.Bc = tmp.Params.Bc
@@ -89,9 +85,29 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	proof.Sq2 = tmp.Sq2
 	proof.Params = pp
 
-	_ = proof.W.UnmarshalJSON(tmp.W)
-	_ = proof.Kp.UnmarshalJSON(tmp.Kp)
-	_ = proof.Kq1.UnmarshalJSON(tmp.Kq1)
-	_ = proof.Kq2.UnmarshalJSON(tmp.Kq2)
+	for _, field := range []struct {
+		element group.Element
+		raw     json.RawMessage
+	}{
+		{ap.GFF.G, tmp.Params.GFF.G},
+		{ap.GFF.H, tmp.Params.GFF.H},
+		{ap.GEC.G, tmp.Params.GEC.G},
+		{ap.GEC.H, tmp.Params.GEC.H},
+		{proof.W, tmp.W},
+		{proof.Kp, tmp.Kp},
+		{proof.Kq1, tmp.Kq1},
+		{proof.Kq2, tmp.Kq2},
+	} {
+		if err := field.element.UnmarshalJSON(field.raw); err != nil {
+			return SigmaProof{}, err
+		}
+	}
+
+	for _, scalar := range []*big.Int{proof.Challenge, proof.Z, proof.Sp, proof.Sq1, proof.Sq2} {
+		if scalar == nil {
+			return SigmaProof{}, errors.New("missing scalar in vote proof")
+		}
+	}
+
 	return proof, nil
 }
-- 
2.43.0


From b534739f844f519686580ab8771a44e1714aad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:59 +0000
Subject: [PATCH 19/27] fix: report malformed ballots when decoding JSON

---
 marshal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index add6ced..1735cc3 100644
--- a/marshal.go
+++ b/marshal.go
@@ -31,14 +31,21 @@ func BallotUnmarshalJSON(b []byte, g group.Group) (ElGamalCiphertext, error) {
 		V: g.Element(),
 	}
 
-	_ = ballot.U.UnmarshalJSON(tmp.U)
-	_ = ballot.V.UnmarshalJSON(tmp.V)
+	if err = ballot.U.UnmarshalJSON(tmp.U); err != nil {
+		return ElGamalCiphertext{}, err
+	}
+	if err = ballot.V.UnmarshalJSON(tmp.V); err != nil {
+		return ElGamalCiphertext{}, err
+	}
 	return ballot, nil
 }
 
 func BallotDataUnmarshalJSON(b []byte, pp PublicParameters) (BallotData, error) {
 	tmp := ballotDataJSON{}
 	err := json.Unmarshal(b, &tmp)
+	if err != nil {
+		return BallotData{}, err
+	}
 
 	ballot, err := BallotUnmarshalJSON(tmp.Ballot, pp.RPParams.GFF.I)
 	if err != nil {
-- 
2.43.0


From 7c5f8f945c34a758477b47b47e2c6a818385de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 20/27] fix: verify vote proofs under the collector's own
 parameters

The vote proof was verified with the parameters decoded from the submission
itself, so a voter could pick, say, a zero-length challenge and have any
ciphertext accepted.
---
 server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 697feeb..a5425c8 100644
--- a/server.go
+++ b/server.go
@@ -40,7 +40,9 @@ func verifyVote(proofs BallotData, rpParams voteproof.ProofParams) (bool, []time
 		Xq2: Xq2,             // Upper bound shifted back to the secret
 	}
 
-	// Verify the consistency of the shifted commitments with the ElGamal ciphertext.
+	// Verify the consistency of the shifted commitments with the ElGamal ciphertext,
+	// under the collector's own parameters and not the ones supplied with the proof.
+	proofs.VoteProof.Params = rpParams
 	result := proofs.VoteProof.Verify(commitments)
 	durationRP := time.Since(startRP)
 
-- 
2.43.0


From 7f780f6d2709fff1f5fb1ec11c5d548d4d518874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:01 +0000
Subject: [PATCH 21/27] fix: bind the ciphertext and commitments in the vote
 proof challenge

The challenge was derived from the first move only, so the ciphertext could
be chosen after the challenge and a proof for an invalid vote forged.
---
 voteproof/voteproof.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index ca42be8..5fa4efc 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -109,14 +109,15 @@ func sigmaPedersenCheck(z, s, c *big.Int, k, x group.Element, gp GroupParameters
 	return left.IsEqual(right)
 }
 
-func getFSChallenge(w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
+func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
 	hasher := sha256.New()
 
 	var buffer bytes.Buffer
-	buffer.WriteString(w.String())
-	buffer.WriteString(Kp.String())
-	buffer.WriteString(Kq1.String())
-	buffer.WriteString(Kq2.String())
+	for _, e := range []group.Element{comm.Y, comm.Xp, comm.Xq1, comm.Xq2, w, Kp, Kq1, Kq2} {
+		buffer.WriteString(e.String())
+		// Finite field elements have string forms of varying length.
+		buffer.WriteByte(';')
+	}
 	hasher.Write(buffer.Bytes())
 
 	challenge := hasher.Sum(nil)[:pow2bound/8]
@@ -130,6 +131,13 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 	// Exclusive upper bound
 	zUpperBound := new(big.Int).Exp(BigTwo, new(big.Int).Add(bxbc, big.NewInt(int64(params.Bb))), nil)
 
+	comm := VerCommitments{
+		Y:   params.GFF.I.Element().BaseScale(rp),
+		Xp:  pedersenCommit(secret, rp, params.GFF),
+		Xq1: pedersenCommit(secret, rq1, params.GEC),
+		Xq2: pedersenCommit(secret, rq2, params.GEC),
+	}
+
 	// Abort loop
 	for {
 		// Setup
@@ -148,7 +156,7 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 		Kq2 := pedersenCommit(kq, tq2, params.GEC)
 
 		// Challenge
-		challenge := getFSChallenge(w, Kp, Kq1, Kq2, params.Bc)
+		challenge := getFSChallenge(comm, w, Kp, Kq1, Kq2, params.Bc)
 		z := new(big.Int).Add(k, new(big.Int).Mul(challenge, secret))
 		if z.Cmp(zLowerBound) == -1 || z.Cmp(zUpperBound) != -1 {
 			fmt.Println("Aborted")
@@ -192,7 +200,7 @@ func (proof *SigmaProof) Verify(comm VerCommitments) bool {
 	}
 
 	// Verify challenge correctness.
-	challenge := getFSChallenge(proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
+	challenge := getFSChallenge(comm, proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
 	if challenge.Cmp(proof.Challenge) != 0 {
 		return false
 	}
-- 
2.43.0


From 3ce06a48a73fee60785acd35372828903d9ff9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:02 +0000
Subject: [PATCH 22/27] fix: refuse challenge lengths beyond the size of the
 hash

Setup accepted them, but proving and verifying then panicked.
---
 voteproof/voteproof.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 5fa4efc..3010246 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -89,7 +89,8 @@ func Setup(lenSecret uint8, lenChallenge uint16, groupOrderLog uint16,
 	params.GFF = AP.GFF
 	params.GEC = AP.GEC
 
-	if params.Bb < 1 {
+	// The challenge is taken from a SHA-256 digest.
+	if params.Bb < 1 || lenChallenge > 8*sha256.Size {
 		return params, errors.New("inconsistent parameter choice")
 	}
 
-- 
2.43.0


From 54120138c01601e9bf0e63052f3f2aacf29d39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:02 +0000
Subject: [PATCH 23/27] fix: let the random voter pick every candidate

The last candidate was never chosen and an election with a single candidate
caused a panic.
---
 voter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/voter.go b/voter.go
index 6dc080f..6c423bc 100644
--- a/voter.go
+++ b/voter.go
@@ -17,7 +17,7 @@ type BallotData struct {
 }
 
 func castVote(pp PublicParameters) (BallotData, time.Duration) {
-	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)))
+	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax)-int64(pp.candidateMin)+1))
 
 	var choice = uint16(rBig.Uint64()) + pp.candidateMin
 	ciphertext, rp := encryptVote(choice, pp.EGPK, pp.FFGroupParams.I)
-- 
2.43.0


From 4540644c75c261aee149807d40528bd4820376be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:08 +0000
Subject: [PATCH 24/27] fix: separate the counter from the message when hashing
 to secp256k1

---
 group/p256k1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index 7bce948..b1ca310 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -149,7 +149,9 @@ func (e *p256k1Point) FieldOrder() *big.Int {
 }
 
 func (e *p256k1Point) MapToGroup(s string) (Element, error) {
-	tmp, _ := p256.MapToGroup(s)
+	// The library hashes a decimal counter followed by the message, so that the
+	// message must not begin with a digit.
+	tmp, _ := p256.MapToGroup(":" + s)
 	buf := make([]byte, 64)
 	tmp.X.FillBytes(buf[:32])
 	tmp.Y.FillBytes(buf[32:])
-- 
2.43.0


From 0fa507c4c8b7e808e914f9fa6737bd1251aab3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:29 +0000
Subject: [PATCH 25/27] fix: mod-p SetBytes yields a group member for any input

---
 group/modsafeprime.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 3ac0279..111cd65 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -119,7 +119,8 @@ func (e *ModPElement) Set(a Element) Element {
 }
 
 func (e *ModPElement) SetBytes(b []byte) Element {
-	e.val.SetBytes(b)
+	e.val = big.NewInt(1)
+	_ = e.UnmarshalBinary(b)
 	return e
 }
 
-- 
2.43.0


From 9532217951be87419a83bf2cc9db558310083e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 26/27] fix: give the curve group its own field size in the
 setup

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 34519d5..a6684e0 100644
--- a/main.go
+++ b/main.go
@@ -84,7 +84,7 @@ func setup(curveGroup group.Group) (PublicParameters, error) {
 
 	var curveGroupParams voteproof.GroupParameters
 	curveGroupParams.I = curveGroup
-	curveGroupParams.F = fieldGroupParams.I.P()
+	curveGroupParams.F = curveGroupParams.I.P()
 	curveGroupParams.N = curveGroupParams.I.N()
 	curveGroupParams.G = curveGroupParams.I.Generator()
 	curveGroupParams.H = bpParams.H
-- 
2.43.0


From 20a5f653c1c0c1cb97bcdbf2c3054150e096e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:01 +0000
Subject: [PATCH 27/27] fix: derive challenges of the full configured length

---
 voteproof/voteproof.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 3010246..20ed9f5 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -121,8 +121,9 @@ func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1,
 	}
 	hasher.Write(buffer.Bytes())
 
-	challenge := hasher.Sum(nil)[:pow2bound/8]
-	return new(big.Int).SetBytes(challenge)
+	// The leading bits of the digest, also when they are no whole bytes.
+	challenge := new(big.Int).SetBytes(hasher.Sum(nil))
+	return challenge.Rsh(challenge, 8*sha256.Size-uint(pow2bound))
 }
 
 func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams) SigmaProof {
-- 
2.43.0

