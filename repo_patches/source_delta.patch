From 92de0038a8b8f21506b724eb961dadd9741c7145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 01/17] fix: G2Affine.Equals treated any two finite points as
 equal

---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 636fa98..f38bdb8 100644
--- a/g2.go
+++ b/g2.go
@@ -139,7 +139,7 @@ func (g G2Affine) ScaleByCofactor() *G2Projective {
 
 // Equals checks if two affine points are equal.
 func (g G2Affine) Equals(other *G2Affine) bool {
-	return (g.infinity == other.infinity) || (g.x.Equals(other.x) && g.y.Equals(other.y))
+	return (g.infinity == other.infinity && g.infinity == true) || (g.x.Equals(other.x) && g.y.Equals(other.y))
 }
 
 // GetG2PointFromX attempts to reconstruct an affine point given
-- 
2.43.0


From 28fb14b73c6405803f7973cac4b9496689a12e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 02/17] fix: MillerLoop panicked on pairs containing the point
 at infinity

---
 pairing.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pairing.go b/pairing.go
index 606e250..9c08adc 100644
--- a/pairing.go
+++ b/pairing.go
@@ -14,14 +14,15 @@ type pairingItem struct {
 
 // MillerLoop runs the miller loop algorithm.
 func MillerLoop(items []MillerLoopItem) *FQ12 {
-	pairs := make([]pairingItem, len(items))
-	for i, item := range items {
+	// a pair with the point at infinity contributes a factor of 1
+	pairs := make([]pairingItem, 0, len(items))
+	for _, item := range items {
 		if !item.P.IsZero() && !item.Q.IsZero() {
-			pairs[i] = pairingItem{
+			pairs = append(pairs, pairingItem{
 				p:      item.P.Copy(),
 				q:      item.Q.coeffs,
 				qIndex: 0,
-			}
+			})
 		}
 	}
 
-- 
2.43.0


From d29c4d002196b488d687c7df75ac55579efb79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 03/17] fix: VerifyAggregate rejected a single empty message as
 a duplicate

---
 g1pubs/bls.go | 4 ++--
 g2pubs/bls.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 259adec..3882f68 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -265,8 +265,8 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i, m := range msgsSorted {
+		if i > 0 && bytes.Equal(m, lastMsg) {
 			return false
 		}
 		lastMsg = m
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 16d32eb..0a29376 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -253,8 +253,8 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i, m := range msgsSorted {
+		if i > 0 && bytes.Equal(m, lastMsg) {
 			return false
 		}
 		lastMsg = m
-- 
2.43.0


From 1c043378fe9cd43b879857fc4a38f511a709e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 04/17] fix: G1Affine.SetRawBytes stored coordinates outside
 Montgomery form

---
 g1.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/g1.go b/g1.go
index 13b1371..980faf0 100644
--- a/g1.go
+++ b/g1.go
@@ -172,12 +172,8 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	var yBytes [48]byte
 	copy(xBytes[:], uncompressed[0:48])
 	copy(yBytes[:], uncompressed[48:96])
-	g.x = FQ{
-		n: FQReprFromBytes(xBytes),
-	}
-	g.y = FQ{
-		n: FQReprFromBytes(yBytes),
-	}
+	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
+	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
-- 
2.43.0


From f6cb0f046777ae283f7f0f5048cb998765e987be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 05/17] fix: SetRawBytes lost or kept a stale infinity flag

---
 g1.go | 2 ++
 g2.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/g1.go b/g1.go
index 980faf0..430f4c1 100644
--- a/g1.go
+++ b/g1.go
@@ -174,6 +174,8 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	copy(yBytes[:], uncompressed[48:96])
 	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
 	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
+	// (0, 1) is not on the curve: it is how infinity is serialized
+	g.infinity = g.x.IsZero() && g.y.Equals(FQOne)
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
diff --git a/g2.go b/g2.go
index f38bdb8..e35c083 100644
--- a/g2.go
+++ b/g2.go
@@ -211,6 +211,8 @@ func (g *G2Affine) SetRawBytes(uncompressed [192]byte) error {
 		c0: yc0FQ,
 		c1: yc1FQ,
 	}
+	// (0, 1) is not on the curve: it is how infinity is serialized
+	g.infinity = g.x.IsZero() && g.y.Equals(FQ2One)
 	return nil
 }
 
-- 
2.43.0


From e0d30bcaf4f2d27ae52fb758159335703ec18973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 06/17] fix: FQ6.MulAssign (and Exp) computed garbage when both
 operands are the same element

---
 fq6.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/fq6.go b/fq6.go
index 1d948a3..b6c65ee 100644
--- a/fq6.go
+++ b/fq6.go
@@ -272,23 +272,25 @@ func (f *FQ6) MulAssign(other *FQ6) {
 
 	tmp = f.c0.Copy()
 	tmp.AddAssign(f.c2)
-	f.c2 = other.c0.Copy()
-	f.c2.AddAssign(other.c2)
-	f.c2.MulAssign(tmp)
-	f.c2.SubAssign(aa)
-	f.c2.AddAssign(bb)
-	f.c2.SubAssign(cc)
+	t3 := other.c0.Copy()
+	t3.AddAssign(other.c2)
+	t3.MulAssign(tmp)
+	t3.SubAssign(aa)
+	t3.AddAssign(bb)
+	t3.SubAssign(cc)
 	tmp = f.c0.Copy()
 	tmp.AddAssign(f.c1)
-	f.c1 = other.c0.Copy()
-	f.c1.AddAssign(other.c1)
-	f.c1.MulAssign(tmp)
-	f.c1.SubAssign(aa)
-	f.c1.SubAssign(bb)
+	t2 := other.c0.Copy()
+	t2.AddAssign(other.c1)
+	t2.MulAssign(tmp)
+	t2.SubAssign(aa)
+	t2.SubAssign(bb)
 	cc.MultiplyByNonresidueAssign()
-	f.c1.AddAssign(cc)
+	t2.AddAssign(cc)
 
 	f.c0 = t1
+	f.c1 = t2
+	f.c2 = t3
 }
 
 // InverseAssign finds the inverse of the FQ6 element.
-- 
2.43.0


From 584fddba02569dc071da0c18f7dc66115c6228d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 07/17] fix: FRReprToFR overwrote and aliased the caller's
 FRRepr

---
 fr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fr.go b/fr.go
index a6123f0..deb145d 100644
--- a/fr.go
+++ b/fr.go
@@ -40,7 +40,7 @@ var FRR2, _ = FRReprFromString("329490647479426544212979752063071073927857568219
 // FRReprToFR gets a pointer to a FR given a pointer
 // to an FRRepr
 func FRReprToFR(o *FRRepr) *FR {
-	r := &FR{n: o}
+	r := &FR{n: o.Copy()}
 	if r.IsValid() {
 		r.MulAssign(&FR{FRR2})
 		return r
-- 
2.43.0


From 93f734f0bfd68a785537ad7853170ca161f7dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 08/17] fix: FQ.MulBits and FR.MulBits multiplied by the
 bit-reversed number

---
 fq.go | 4 ++--
 fr.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fq.go b/fq.go
index 11ea4ec..f4edff7 100644
--- a/fq.go
+++ b/fq.go
@@ -275,9 +275,9 @@ func (f FQ) Parity() bool {
 // MulBits multiplies the number by a big number.
 func (f FQ) MulBits(b *FQRepr) FQ {
 	res := FQZero.Copy()
-	for i := uint(0); i < b.BitLen(); i++ {
+	for i := b.BitLen(); i > 0; i-- {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(i - 1) {
 			res.AddAssign(f)
 		}
 	}
diff --git a/fr.go b/fr.go
index deb145d..4dda441 100644
--- a/fr.go
+++ b/fr.go
@@ -271,9 +271,9 @@ func (f FR) Parity() bool {
 // MulBits multiplies the number by a big number.
 func (f FR) MulBits(b *FRRepr) *FR {
 	res := bigZeroFR.Copy()
-	for i := uint(0); i < b.BitLen(); i++ {
+	for i := b.BitLen(); i > 0; i-- {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(i - 1) {
 			res.AddAssign(&f)
 		}
 	}
-- 
2.43.0


From 4c744c85d69a45f9a88a93232aa774cb8afdb172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 09/17] fix: point decompression accepted x-coordinates that
 are not below the field modulus

---
 g1.go | 3 +++
 g2.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/g1.go b/g1.go
index 430f4c1..918e75c 100644
--- a/g1.go
+++ b/g1.go
@@ -219,6 +219,9 @@ func DecompressG1Unchecked(b [48]byte) (*G1Affine, error) {
 	copyBytes[0] &= 0x1f
 
 	x := FQReprFromBytes(copyBytes)
+	if x.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x-coordinate is not a field element")
+	}
 	xFQ := FQReprToFQ(x)
 
 	return GetG1PointFromX(xFQ, greatest)
diff --git a/g2.go b/g2.go
index e35c083..75ceb2b 100644
--- a/g2.go
+++ b/g2.go
@@ -257,8 +257,11 @@ func DecompressG2Unchecked(c [96]byte) (*G2Affine, error) {
 	copy(xC0Bytes[:], c[48:])
 
 	xC0 := FQReprFromBytes(xC0Bytes)
-	xC0FQ := FQReprToFQ(xC0)
 	xC1 := FQReprFromBytes(xC1Bytes)
+	if xC0.Cmp(QFieldModulus) >= 0 || xC1.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x-coordinate is not a field element")
+	}
+	xC0FQ := FQReprToFQ(xC0)
 	xC1FQ := FQReprToFQ(xC1)
 
 	x := NewFQ2(xC0FQ, xC1FQ)
-- 
2.43.0


From 65f08e9e50ac4ba00518a7232b42a0594d1f1c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 10/17] fix: G2Projective.ToAffine handed out the shared
 G2AffineZero

---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 75ceb2b..76e0673 100644
--- a/g2.go
+++ b/g2.go
@@ -369,7 +369,7 @@ func (g G2Projective) Equals(other *G2Projective) bool {
 // ToAffine converts a G2Projective point to affine form.
 func (g G2Projective) ToAffine() *G2Affine {
 	if g.IsZero() {
-		return G2AffineZero
+		return G2AffineZero.Copy()
 	} else if g.z.Equals(FQ2One) {
 		return NewG2Affine(g.x, g.y)
 	}
-- 
2.43.0


From 3380cb95d3f6283a689300f0e720e3d6e97b5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 11/17] fix: RandG1 and RandG2 could return the point at
 infinity

---
 g1.go | 2 +-
 g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index 918e75c..f21f73f 100644
--- a/g1.go
+++ b/g1.go
@@ -606,7 +606,7 @@ func RandG1(r io.Reader) (*G1Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
diff --git a/g2.go b/g2.go
index 76e0673..42dddb1 100644
--- a/g2.go
+++ b/g2.go
@@ -826,7 +826,7 @@ func RandG2(r io.Reader) (*G2Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
-- 
2.43.0


From 6d0ad69351bcde493dc6e6d1b2e117822de5f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 12/17] fix: out-of-range secret keys came back as a key that
 panics on first use

---
 g1pubs/bls.go | 13 +++++++++----
 g2pubs/bls.go | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 3882f68..6b7aef1 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -117,9 +117,10 @@ func (s SecretKey) Serialize() [32]byte {
 }
 
 // DeserializeSecretKey deserializes a secret key from
-// bytes.
+// bytes. It returns nil if the bytes are not a number below the
+// group order.
 func DeserializeSecretKey(b [32]byte) *SecretKey {
-	return &SecretKey{bls.FRReprToFR(bls.FRReprFromBytes(b))}
+	return KeyFromFQRepr(bls.FRReprFromBytes(b))
 }
 
 // DeriveSecretKey derives a secret key from
@@ -156,9 +157,13 @@ func RandKey(r io.Reader) (*SecretKey, error) {
 }
 
 // KeyFromFQRepr returns a new key based on a FQRepr in
-// FR.
+// FR. It returns nil if the number is not below the group order.
 func KeyFromFQRepr(i *bls.FRRepr) *SecretKey {
-	return &SecretKey{f: bls.FRReprToFR(i)}
+	f := bls.FRReprToFR(i)
+	if f == nil {
+		return nil
+	}
+	return &SecretKey{f: f}
 }
 
 // Verify verifies a signature against a message and a public key.
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 0a29376..6099d06 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -117,9 +117,10 @@ func (s SecretKey) Serialize() [32]byte {
 }
 
 // DeserializeSecretKey deserializes a secret key from
-// bytes.
+// bytes. It returns nil if the bytes are not a number below the
+// group order.
 func DeserializeSecretKey(b [32]byte) *SecretKey {
-	return &SecretKey{bls.FRReprToFR(bls.FRReprFromBytes(b))}
+	return KeyFromFQRepr(bls.FRReprFromBytes(b))
 }
 
 // DeriveSecretKey derives a secret key from
@@ -150,9 +151,13 @@ func RandKey(r io.Reader) (*SecretKey, error) {
 }
 
 // KeyFromFQRepr returns a new key based on a FQRepr in
-// FR.
+// FR. It returns nil if the number is not below the group order.
 func KeyFromFQRepr(i *bls.FRRepr) *SecretKey {
-	return &SecretKey{f: bls.FRReprToFR(i)}
+	f := bls.FRReprToFR(i)
+	if f == nil {
+		return nil
+	}
+	return &SecretKey{f: f}
 }
 
 // Verify verifies a signature against a message and a public key.
-- 
2.43.0


From 5271676839532303f8e659bd65ea69dd41c2e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 13/17] fix: G2Affine.SetRawBytes silently replaced
 out-of-range coordinates by zero

---
 g2.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/g2.go b/g2.go
index 42dddb1..8a5c177 100644
--- a/g2.go
+++ b/g2.go
@@ -198,6 +198,13 @@ func (g *G2Affine) SetRawBytes(uncompressed [192]byte) error {
 	copy(yC0Bytes[:], uncompressed[96:144])
 	copy(yC1Bytes[:], uncompressed[144:192])
 
+	for _, b := range [][48]byte{xC0Bytes, xC1Bytes, yC0Bytes, yC1Bytes} {
+		repr := FQReprFromBytes(b)
+		if repr.Cmp(QFieldModulus) >= 0 {
+			return errors.New("coordinate is not a field element")
+		}
+	}
+
 	xc0FQ := FQReprToFQ(FQReprFromBytes(xC0Bytes))
 	xc1FQ := FQReprToFQ(FQReprFromBytes(xC1Bytes))
 	yc0FQ := FQReprToFQ(FQReprFromBytes(yC0Bytes))
-- 
2.43.0


From 784a1b334eabc4e4d550784f9dae0d4f96d9310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 14/17] fix: FR.Sqrt was a stub that always returned one (and
 corrupted the shared one)

---
 fr.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/fr.go b/fr.go
index 4dda441..cc80864 100644
--- a/fr.go
+++ b/fr.go
@@ -209,10 +209,40 @@ func (f *FR) SquareAssign() {
 	f.montReduce(r0, r1, r2, r3, r4, r5, r6, r7)
 }
 
-// Sqrt calculates the square root of the field element.
+// Sqrt calculates the square root of the field element. It returns
+// nil if there is none.
 func (f FR) Sqrt() *FR {
-	// TODO: fixme
-	return FRReprToFR(frOne)
+	switch f.Legendre() {
+	case LegendreZero:
+		return f.Copy()
+	case LegendreQuadraticNonResidue:
+		return nil
+	}
+
+	// Tonelli-Shanks with r - 1 = 2^32 * t and 7 as the non-residue
+	t := RFieldModulus.Copy()
+	t.Rsh(32)
+	tPlus1Over2 := t.Copy()
+	tPlus1Over2.Rsh(1)
+	tPlus1Over2.AddNoCarry(frOne)
+
+	x := f.Exp(tPlus1Over2)
+	b := f.Exp(t)
+	z := FRReprToFR(NewFRRepr(7)).Exp(t)
+	for m := 32; !b.Equals(bigOneFR); {
+		i := 0
+		for b2 := b.Copy(); !b2.Equals(bigOneFR); i++ {
+			b2.SquareAssign()
+		}
+		for ; m > i+1; m-- {
+			z.SquareAssign()
+		}
+		x.MulAssign(z)
+		z.SquareAssign()
+		b.MulAssign(z)
+		m = i
+	}
+	return x
 }
 
 // Inverse finds the inverse of the field element.
-- 
2.43.0


From 1865108e11b76fbe058273d89142034589e29870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 15/17] fix: RandG1 and RandG2 took a read that returned no
 byte for a zero byte

---
 g1.go | 2 +-
 g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index f21f73f..2538189 100644
--- a/g1.go
+++ b/g1.go
@@ -589,7 +589,7 @@ func (g G1Projective) MulFR(b *FRRepr) *G1Projective {
 func RandG1(r io.Reader) (*G1Projective, error) {
 	for {
 		b := make([]byte, 1)
-		_, err := r.Read(b)
+		_, err := io.ReadFull(r, b)
 		if err != nil {
 			return nil, err
 		}
diff --git a/g2.go b/g2.go
index 8a5c177..221f89a 100644
--- a/g2.go
+++ b/g2.go
@@ -816,7 +816,7 @@ func G2AffineToPrepared(q *G2Affine) *G2Prepared {
 func RandG2(r io.Reader) (*G2Projective, error) {
 	for {
 		b := make([]byte, 1)
-		_, err := r.Read(b)
+		_, err := io.ReadFull(r, b)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From c75eee54ffef3dc7c5a01ba071e0b5fa1f0bf468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 16/17] fix: NewFQ12 shared the FQ6 elements it was given (even
 the FQ6 constants)

---
 fq12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fq12.go b/fq12.go
index 7a5028d..f4b9da0 100644
--- a/fq12.go
+++ b/fq12.go
@@ -14,8 +14,8 @@ type FQ12 struct {
 // NewFQ12 creates a new FQ12 element from two FQ6 elements.
 func NewFQ12(c0 *FQ6, c1 *FQ6) *FQ12 {
 	return &FQ12{
-		c0: c0,
-		c1: c1,
+		c0: c0.Copy(),
+		c1: c1.Copy(),
 	}
 }
 
-- 
2.43.0


From 569fe2d64097b316bff133d9b5fd46194ae7ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 17/17] fix: GetFRElement handed out the secret key's own field
 element

---
 g1pubs/bls.go | 4 ++--
 g2pubs/bls.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 6b7aef1..b5f8b96 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -102,9 +102,9 @@ type SecretKey struct {
 	f *bls.FR
 }
 
-// GetFRElement gets the underlying FR element.
+// GetFRElement gets a copy of the underlying FR element.
 func (s SecretKey) GetFRElement() *bls.FR {
-	return s.f
+	return s.f.Copy()
 }
 
 func (s SecretKey) String() string {
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 6099d06..4cb5c2e 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -102,9 +102,9 @@ type SecretKey struct {
 	f *bls.FR
 }
 
-// GetFRElement gets the underlying FR element.
+// GetFRElement gets a copy of the underlying FR element.
 func (s SecretKey) GetFRElement() *bls.FR {
-	return s.f
+	return s.f.Copy()
 }
 
 func (s SecretKey) String() string {
-- 
2.43.0

