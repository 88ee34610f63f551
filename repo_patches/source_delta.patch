From e07eebdaafc179044b4c1b47f7ba6928c6b26d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 01/14] fix: mkckks Decryptor loses levels permanently after
 decrypting a low level ciphertext

Decrypt truncates the shared plaintext pool to the level of the ciphertext
and never restores it, so every later decryption happens at the lowest level
the decryptor has seen and wraps for messages that need more moduli.
---
 mkckks/decryptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index d567ba9..086f8dd 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,8 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// the pool is truncated to the level of the ciphertext by Decrypt, restore the level of the current one
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:ctTmp.Level()+1]
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From 232e0647282dbdbedf5f6122fd2b5ab156085b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 02/14] fix: Rescale leaves ctOut unset when no modulus has to
 be dropped

The no-op branch reassigned the local pointer, so RescaleNew returned a zero
ciphertext instead of a copy of its input.
---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3bd8a1f..1885ddc 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -390,7 +390,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			ctOut.Ciphertext.Copy(ctIn.Ciphertext)
 		}
 	}
 
-- 
2.43.0


From 3e0307c3b33c1eb110fd9ef70417c8cd4f6cf213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 03/14] fix: Rescale corrupts its input ciphertext

DivRoundByLastModulusManyLvl uses the input polynomial as scratch space, so
RescaleNew(ct) left ct undecryptable.
---
 mkckks/evaluator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 1885ddc..7f9cccf 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -385,7 +385,12 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	if nbRescales > 0 {
 		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			pIn := ctIn.Value[i]
+			if ctIn != ctOut {
+				// DivRoundByLastModulusManyLvl overwrites its input
+				pIn = pIn.CopyNew()
+			}
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, pIn, eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
 	} else {
-- 
2.43.0


From 9e7406021e172ea9b9c51ba33871c71ec717561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 04/14] fix: Rescale runs past the end of the modulus chain

The loop evaluated Modulus[-1] or dropped the last remaining modulus when the
scale was large enough to go below level 0.
---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 7f9cccf..6f9c801 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -377,7 +377,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 43e38d429fcec67a3be45892027a046c71514a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:52 +0000
Subject: [PATCH 05/14] fix: MultByConst with a complex constant

The imaginary part was applied as if the ciphertext were in the NTT domain,
but mkckks ciphertexts are kept in the coefficient domain, where i is
X^(N/2). The result decrypted to garbage.
---
 mkckks/evaluator.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 6f9c801..8117e6e 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -120,10 +120,8 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
-	// Component wise multiplication of the following vector with the ciphertext:
-	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
-	// [{                  N/2                }{                N/2               }]
-	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
+	// Ciphertexts are out of the NTT domain, where a + b*i is the polynomial a + b*X^(N/2): each coefficient
+	// is multiplied by a, and b times the coefficient N/2 positions away is subtracted (first half) or added (second half).
 	ringQ := eval.params.RingQ()
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
@@ -143,8 +141,23 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 		if cImag != 0 {
 			scaledConstImag = scaleUpExact(cImag, scale, qi)
-			scaledConstImag = ring.MRed(scaledConstImag, ringQ.NttPsi[i][1], qi, mredParams)
-			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
+
+			a := ring.MForm(scaledConstReal, qi, bredParams)
+			b := ring.MForm(scaledConstImag, qi, bredParams)
+			half := ringQ.N >> 1
+
+			for u := range ct0.Value {
+				p0tmp := ct0.Value[u].Coeffs[i]
+				p1tmp := ctOut.Value[u].Coeffs[i]
+
+				for j := 0; j < half; j++ {
+					x, y := p0tmp[j], p0tmp[j+half]
+					p1tmp[j] = ring.CRed(ring.MRed(x, a, qi, mredParams)+qi-ring.MRed(y, b, qi, mredParams), qi)
+					p1tmp[j+half] = ring.CRed(ring.MRed(y, a, qi, mredParams)+ring.MRed(x, b, qi, mredParams), qi)
+				}
+			}
+
+			continue
 		}
 
 		scaledConst = ring.MForm(scaledConst, qi, bredParams)
@@ -169,11 +182,6 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 			}
 		}
 
-		if cImag != 0 {
-			scaledConst = ring.CRed(scaledConstReal+(qi-scaledConstImag), qi)
-			scaledConst = ring.MForm(scaledConst, qi, bredParams)
-		}
-
 		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
-- 
2.43.0


From 0ac0f1aaf723b1fc1391ca9086d6f30d9c481772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:52 +0000
Subject: [PATCH 06/14] fix: Conjugate panics below the maximum level

ringQ.Permute iterates over every modulus of the chain and indexes past the
end of a ciphertext that has been rescaled or dropped.
---
 mkrlwe/keyswitch.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..96a31be 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -311,9 +311,19 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 		panic("Cannot Conjugate: ctIn and ctOut have different levels")
 	}
 
-	// permute ctIn and put it to ctOut
+	// permute ctIn and put it to ctOut (ringQ.Permute handles ciphertexts of the maximum level only)
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		for i := uint64(0); i < uint64(ringQ.N); i++ {
+			indexRaw := i * galEl
+			index := indexRaw & mask
+			sign := (indexRaw >> logN) & 1
+			for j, qi := range ringQ.Modulus[:level+1] {
+				c := ctIn.Value[id].Coeffs[j][i]
+				ctOut.Value[id].Coeffs[j][index] = c*(sign^1) | (qi-c)*sign
+			}
+		}
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From 83e455a2de85afe6b98c7846ecbdf024b07bbcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:52 +0000
Subject: [PATCH 07/14] fix: mkrlwe Decrypt ignores the domain of the output
 plaintext

The documentation promises that the output domain matches
plaintext.Value.IsNTT, but no conversion was done.
---
 mkrlwe/decryptor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..9eced85 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -63,4 +63,11 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 	}
 
 	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+
+	// match the domain of the output
+	if ctTmp.Value["0"].IsNTT && !plaintext.Value.IsNTT {
+		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
+	} else if !ctTmp.Value["0"].IsNTT && plaintext.Value.IsNTT {
+		ringQ.NTTLvl(level, plaintext.Value, plaintext.Value)
+	}
 }
-- 
2.43.0


From 1167a87528a048b888a8d02e4e7d042a455ec596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:52 +0000
Subject: [PATCH 08/14] fix: GenKeyPairSparse dereferences a nil secret key

It read the ID of the key it was about to generate, so every call panicked.
Take the ID as an argument, as the other key generation functions do.
---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3e13268 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From 5edc7017583930e15be7b07fa591ef2d53953883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:52 +0000
Subject: [PATCH 09/14] fix: Decompose indexes out of range when gamma does not
 divide the number of special primes

The extension parameters were built for gamma*alpha special primes only, while
DecomposeAndSplit extends to all of P.
---
 mkrlwe/basis_extension.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..de222ed 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -401,7 +401,7 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 			for j := 0; j < xalpha[i]-1; j++ {
 
 				Qi := make([]uint64, j+2)
-				Pi := make([]uint64, len(Q)+len(P))
+				Pi := make([]uint64, len(Q)+len(ringP.Modulus))
 
 				for k := 0; k < j+2; k++ {
 					Qi[k] = Q[i*alpha+k]
@@ -411,8 +411,9 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 					Pi[k] = Q[k]
 				}
 
-				for k := len(Q); k < len(Q)+len(P); k++ {
-					Pi[k] = P[k-len(Q)]
+				// the whole of P, DecomposeAndSplit always extends to all of it
+				for k := len(Q); k < len(Pi); k++ {
+					Pi[k] = ringP.Modulus[k-len(Q)]
 				}
 
 				decomposer.modUpParams[lvlP][i][j] = basisextenderparameters(Qi, Pi)
-- 
2.43.0


From d1f64d2adace2ece641f22c1624a225b2584d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:52 +0000
Subject: [PATCH 10/14] fix: ModDownQPtoP divides by the wrong number of moduli
 of Q

modDownparamsQtoP is indexed by the level in Q.
---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index de222ed..f7d7213 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From 56fd34655d949a7832712ab89c0be9acc2c99dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:52 +0000
Subject: [PATCH 11/14] fix: GenRotationKey looks up the CRS before normalising
 a negative rotation

The CRS of -1 and -2 belong to relinearization and conjugation, other negative
indices panicked although the CRS of the equivalent rotation exists.
---
 mkrlwe/keygen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3e13268..fa0b361 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,17 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From c05a8b8b9a18f83b13a84b10c4defc5c85f82e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:52 +0000
Subject: [PATCH 12/14] fix: Encrypt into a reused ciphertext keeps stale
 components of other parties

The components of parties other than pk.ID were left as they were, so the
result did not decrypt to the plaintext.
---
 mkrlwe/encryptor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mkrlwe/encryptor.go b/mkrlwe/encryptor.go
index f96b91f..b5dc6e2 100644
--- a/mkrlwe/encryptor.go
+++ b/mkrlwe/encryptor.go
@@ -115,6 +115,14 @@ func (encryptor *Encryptor) Encrypt(plaintext *rlwe.Plaintext, pk *PublicKey, ct
 	ctOut.Value["0"].Coeffs = ctOut.Value["0"].Coeffs[:levelQ+1]
 	ctOut.Value[id].Coeffs = ctOut.Value[id].Coeffs[:levelQ+1]
 
+	// a fresh encryption involves pk.ID only, clear what a reused ctOut holds for other parties
+	for other, p := range ctOut.Value {
+		if other != "0" && other != id {
+			p.Coeffs = p.Coeffs[:levelQ+1]
+			p.Zero()
+			p.IsNTT = ctOut.Value["0"].IsNTT
+		}
+	}
 }
 
 // NewEncryptor instatiates a new generic RLWE Encryptor. The key argument can
-- 
2.43.0


From d44b434c5e18b345916393cbca5e785eadbbd63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:24 +0000
Subject: [PATCH 13/14] fix: integral constants of 2^63 and above are taken for
 fractional

The conversion to int64 overflows, so such a constant was scaled by a modulus.
Adding ciphertexts whose scales differ by such a ratio gave a wrong sum.
---
 mkckks/evaluator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 8117e6e..c6ec187 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -47,8 +47,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -56,8 +55,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
+			valueFloat := cImag - math.Trunc(cImag)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -69,8 +67,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
-- 
2.43.0


From 9b52695a88ad64551169e39410c9389e80ab698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 14/14] fix: rotations by very large amounts do not terminate

RotateNew/RotateHoistedNew (and the key switcher and GenRotationKey for
negative amounts) bring the rotation amount into range by repeated addition or
subtraction of N/2, so an amount such as 1<<62 never finishes. Reduce it with
the remainder instead.
---
 mkckks/evaluator.go         | 14 ++++----------
 mkrlwe/keygen.go            |  4 ++--
 mkrlwe/keyswitch.go         |  4 ++--
 mkrlwe/keyswitch_hoisted.go |  4 ++--
 4 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index c6ec187..f5b2197 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -503,11 +503,8 @@ func (eval *Evaluator) RotateNew(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.Rota
 func (eval *Evaluator) rotate(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
-
-	for rotidx < 0 {
+	rotidx %= eval.params.N() / 2
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
@@ -603,11 +600,8 @@ func (eval *Evaluator) RotateHoistedNew(ct0 *Ciphertext, rotidx int, ct0Hoisted
 func (eval *Evaluator) rotateHoisted(ct0 *Ciphertext, rotidx int, ct0Hoisted *mkrlwe.HoistedCiphertext, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
-
-	for rotidx < 0 {
+	rotidx %= eval.params.N() / 2
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index fa0b361..94e6415 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -199,8 +199,8 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	ringQP := params.RingQP()
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
+	if rotidx < 0 {
+		rotidx = (rotidx%(params.N()/2) + params.N()/2) % (params.N() / 2)
 	}
 
 	// check CRS for given rot idx exists
diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 96a31be..11f7b7a 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -244,8 +244,8 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 	}
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
+	if rotidx < 0 {
+		rotidx = (rotidx%(params.N()/2) + params.N()/2) % (params.N() / 2)
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
diff --git a/mkrlwe/keyswitch_hoisted.go b/mkrlwe/keyswitch_hoisted.go
index e16a2bf..5c2d496 100644
--- a/mkrlwe/keyswitch_hoisted.go
+++ b/mkrlwe/keyswitch_hoisted.go
@@ -193,8 +193,8 @@ func (ks *KeySwitcher) RotateHoisted(ctIn *Ciphertext, rotidx int, ctInHoisted *
 	}
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
+	if rotidx < 0 {
+		rotidx = (rotidx%(params.N()/2) + params.N()/2) % (params.N() / 2)
 	}
 
 	// c0 <- c0 + Ext(c_i, rk_i)
-- 
2.43.0

