From b10940357b1b5ad64e4d063938658d2e94503428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 1/9] fix: register modHint with the solver

Every field operation asks modHint for a quotient and remainder, but the
function was never registered, so a compiled circuit using mod() could not
be solved.
---
 aggregator_lib_circuit.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index e0e9d34..afa1509 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -30,6 +30,7 @@ func init() {
 	solver.RegisterHint(MsmHint)
 	solver.RegisterHint(AddHint)
 	solver.RegisterHint(Keccak256Hint)
+	solver.RegisterHint(modHint)
 }
 
 // BN256MsmCircuit is the circuit that performs a bn256 pairing operation
-- 
2.43.0


From 86974f10bc008393e9e522f62609496fee20e2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 2/9] fix: do not overwrite the caller's point in
 VerifyBN256Msm and VerifyBN256Add

Both used the operand as the receiver of the operation, so defining the same
circuit a second time computed with the previous result.
---
 aggregator_lib_circuit.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index afa1509..b2ccc89 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -56,10 +56,10 @@ func VerifyBN256Msm(
 	scalar *big.Int,
 	res *bn254.G1Affine,
 ) error {
-	g1Point = g1Point.ScalarMultiplication(g1Point, scalar)
-	//log.Println("VerifyBN256Msm", g1Point.String(), res.String())
-	api.AssertIsEqual(g1Point.X, res.X)
-	api.AssertIsEqual(g1Point.Y, res.Y)
+	product := new(bn254.G1Affine).ScalarMultiplication(g1Point, scalar)
+	//log.Println("VerifyBN256Msm", product.String(), res.String())
+	api.AssertIsEqual(product.X, res.X)
+	api.AssertIsEqual(product.Y, res.Y)
 	return nil
 }
 
@@ -86,7 +86,7 @@ func VerifyBN256Add(
 	g11Point *bn254.G1Affine,
 	res *bn254.G1Affine,
 ) error {
-	sum := g10Point.Add(g10Point, g11Point)
+	sum := new(bn254.G1Affine).Add(g10Point, g11Point)
 	api.AssertIsEqual(sum.X, res.X)
 	api.AssertIsEqual(sum.Y, res.Y)
 	return nil
-- 
2.43.0


From cd5075fbe1a31582e8858eb53cf965e8faf37f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:14 +0000
Subject: [PATCH 3/9] fix: propagate errors that were dropped or overwritten

ecc_mul_add ignored the error of the addition, CalcVerifyBN256Add and
CalcVerifyBN256Add1 overwrote the error of the advice request, mod returned an
error as if it were a field element and the on-curve check went on with zero
coordinates when a coordinate could not be read.
---
 aggregator_lib_circuit.go | 16 ++++++++++++++--
 fr.go                     |  5 ++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index b2ccc89..581fa1c 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -215,6 +215,9 @@ func AddHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 
 func CalcVerifyBN256Add1(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2]frontend.Variable, error) {
 	result, err := api.Compiler().NewHint(AddHint, 2, x1, y1, x2, y2)
+	if err != nil {
+		return [2]frontend.Variable{}, err
+	}
 	// TODO: sanity check
 
 	// circuit
@@ -259,6 +262,9 @@ func CalcVerifyBN256Add1(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2
 
 func CalcVerifyBN256Add(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2]frontend.Variable, error) {
 	result, err := api.Compiler().NewHint(AddHint, 2, x1, y1, x2, y2)
+	if err != nil {
+		return [2]frontend.Variable{}, err
+	}
 	expectedX, expectedY := mod(api, result[0]), mod(api, result[1])
 	err = VerifyBN254Add(api, [2]frontend.Variable{x1, y1}, [2]frontend.Variable{x2, y2}, [2]frontend.Variable{expectedX, expectedY})
 	return [2]frontend.Variable{expectedX, expectedY}, err
@@ -386,8 +392,14 @@ func VerifyCheckOnCurve(
 ) error {
 	var g1 = bn254.G1Affine{}
 	//var xFr, yFr fr.Element
-	xFr, _ := new(fp.Element).SetInterface(x)
-	yFr, _ := new(fp.Element).SetInterface(y)
+	xFr, err := new(fp.Element).SetInterface(x)
+	if err != nil {
+		return err
+	}
+	yFr, err := new(fp.Element).SetInterface(y)
+	if err != nil {
+		return err
+	}
 	g1.X.Set(xFr)
 	g1.Y.Set(yFr)
 
diff --git a/fr.go b/fr.go
index 20aefb9..deb97b0 100644
--- a/fr.go
+++ b/fr.go
@@ -34,6 +34,9 @@ func ecc_mul_add(api frontend.API, buf []frontend.Variable, offset int) error {
 	}
 
 	res, err := CalcVerifyBN256Add(api, buf[offset], buf[offset+1], buf[offset+2], buf[offset+3])
+	if err != nil {
+		return err
+	}
 	buf[offset] = res[0]
 	buf[offset+1] = res[1]
 	return nil
@@ -57,7 +60,7 @@ func fr_mul(api frontend.API, a frontend.Variable, b frontend.Variable) frontend
 func mod(api frontend.API, a frontend.Variable) frontend.Variable {
 	results, err := api.Compiler().NewHint(modHint, 2, a)
 	if err != nil {
-		return err
+		panic(err)
 	}
 	api.AssertIsEqual(api.Add(results[1], api.Mul(results[0], MODULUS)), a)
 	return results[1]
-- 
2.43.0


From dc03be802119b75bc2c9e9a0c29e2fd9c5230b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 4/9] fix: tie the hashed instance bytes to the instance in
 VerifyInstanceHash

The bytes that enter the Keccak circuit come from Keccak256Hint and nothing
related them to the inputs, so any byte string with its own hash passed.
---
 circuit.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/circuit.go b/circuit.go
index 4e8309a..2490e08 100644
--- a/circuit.go
+++ b/circuit.go
@@ -146,6 +146,18 @@ func VerifyInstanceHash(api frontend.API, inputs []frontend.Variable) (frontend.
 		inputU8Array = append(inputU8Array, binaryF.ByteValueOf(result[i]))
 	}
 
+	// the hashed bytes are advice: tie them to the inputs, 32 big-endian bytes each
+	for i := range inputs {
+		bits := api.ToBinary(inputs[i]) // all bits, below the field modulus
+		for j := 0; j < 32; j++ {
+			var val frontend.Variable = 0
+			if lo := 8 * (31 - j); lo < len(bits) {
+				val = api.FromBinary(bits[lo:min(lo+8, len(bits))]...)
+			}
+			api.AssertIsEqual(result[33+32*i+j], val)
+		}
+	}
+
 	//input := uints.NewU8Array(result[0].(*big.Int).Bytes())
 	//hashVar := uints.NewU8Array(result[0].(*big.Int).Bytes())
 	err = VerifyKeccak256(api, inputU8Array, hashU8Array)
-- 
2.43.0


From 10f5390f8b383dfcce2e33db4b7c5bf99cd878fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 5/9] fix: add points with opposite ordinates and distinct
 abscissas correctly

AddUnified yields (0,0) for such operands, so VerifyBN254Add refused the right
sum and accepted the point at infinity in its place.
---
 msm.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/msm.go b/msm.go
index 26b20af..3f382e6 100644
--- a/msm.go
+++ b/msm.go
@@ -138,6 +138,20 @@ func VerifyBN254Add(
 
 	res := cr.AddUnified(ps1, ps2)
 
+	// AddUnified answers (0,0) whenever the ordinates are opposite, but that is
+	// the sum only when the abscissas agree. Otherwise take the chord, which is
+	// computed for a dummy operand when it is not needed.
+	fpApi, err := emulated.NewField[emparams.BN254Fp](api)
+	if err != nil {
+		return err
+	}
+	opposite := fpApi.IsZero(fpApi.Add(&ps1.Y, &ps2.Y))
+	sameX := fpApi.IsZero(fpApi.Sub(&ps1.X, &ps2.X))
+	useChord := api.And(opposite, api.Sub(1, sameX))
+	dummy := &sw_emulated.AffinePoint[emulated.BN254Fp]{X: *fpApi.Add(&ps1.X, fpApi.One()), Y: ps1.Y}
+	chord := cr.Add(ps1, cr.Select(useChord, ps2, dummy))
+	res = cr.Select(useChord, chord, res)
+
 	expectedX, err := new(fp.Element).SetInterface(expected[0])
 	if err != nil {
 		return err
-- 
2.43.0


From 8d629a5425ad091acec52c6925005af7f14b652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 6/9] fix: return a reduced field element from fr_mul_neg

The negation of a zero product was the modulus itself, which comparisons do
not take for zero, and the type assertion failed in a compiled circuit.
---
 fr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fr.go b/fr.go
index deb97b0..f29bbaf 100644
--- a/fr.go
+++ b/fr.go
@@ -78,7 +78,7 @@ func modHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 
 func fr_mul_neg(api frontend.API, a frontend.Variable, b frontend.Variable) frontend.Variable {
 	tmp := fr_mul(api, a, b)
-	return new(big.Int).Sub(MODULUS, tmp.(*big.Int))
+	return fr_neg(api, tmp)
 }
 
 func fr_add(api frontend.API, a frontend.Variable, b frontend.Variable) frontend.Variable {
-- 
2.43.0


From 41f6b4c2f0c76719a75e89d28bcf2b225c9dc310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 7/9] fix: give the point at infinity as (0,0) in MsmHint and
 AddHint

The coordinates were taken from the printed form, which is (0,1) for the point
at infinity, so the sum of opposite points was refused.
---
 aggregator_lib_circuit.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index 581fa1c..9ddabce 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -119,9 +119,11 @@ func MsmHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 	res := new(bn256.G1)
 	res.ScalarMult(p, inputs[2])
 
-	xStr, yStr, _ := extractAndConvert(res.String())
-	results[0], _ = new(big.Int).SetString(xStr, 10)
-	results[1], _ = new(big.Int).SetString(yStr, 10)
+	// the point at infinity prints as (0,1) but marshals as (0,0), which is how
+	// the circuits write it
+	product := res.Marshal()
+	results[0].SetBytes(product[:32])
+	results[1].SetBytes(product[32:])
 	return nil
 }
 
@@ -207,9 +209,11 @@ func AddHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 	res := new(bn256.G1)
 	res = res.Add(p1, p2)
 
-	xStr, yStr, _ := extractAndConvert(res.String())
-	results[0], _ = new(big.Int).SetString(xStr, 10)
-	results[1], _ = new(big.Int).SetString(yStr, 10)
+	// the point at infinity prints as (0,1) but marshals as (0,0), which is how
+	// the circuits write it
+	sum := res.Marshal()
+	results[0].SetBytes(sum[:32])
+	results[1].SetBytes(sum[32:])
 	return nil
 }
 
-- 
2.43.0


From f9c1868137af43ac7f422fabf4e02af1f7bae6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 8/9] fix: make VerifyNotZero constrain its operand in R1CS

---
 aggregator_lib_circuit.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index 9ddabce..22c329a 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -617,7 +617,9 @@ func VerifyNotZero(api frontend.API, x frontend.Variable) error {
 	//if err != nil {
 	//	return err
 	//}
-	api.AssertIsLessOrEqual(1, x)
+	// not AssertIsLessOrEqual(1, x): gnark's R1CS builder emits no effective
+	// constraint when the smaller operand is a constant
+	api.AssertIsEqual(api.IsZero(x), 0)
 	//api.AssertIsEqual(api.Mul(x, notZero[0]), x)
 	return nil
 }
-- 
2.43.0


From d2c0743de5f24fdc268730b297ae7ba14cf7e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:03 +0000
Subject: [PATCH 9/9] fix: keep the lower bound of VerifyRangeCheck effective
 when it is a constant

---
 aggregator_lib_circuit.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index 22c329a..66c3b35 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -631,7 +631,9 @@ type RangeCheckCircuit struct {
 }
 
 func VerifyRangeCheck(api frontend.API, x frontend.Variable, Min frontend.Variable, Max frontend.Variable) error {
-	api.AssertIsLessOrEqual(Min, x)
+	// Min <= x, with the order reversed: gnark's R1CS builder emits no effective
+	// constraint when the smaller operand is a constant
+	api.AssertIsLessOrEqual(api.Sub(-1, x), api.Sub(-1, Min))
 	api.AssertIsLessOrEqual(x, Max)
 	return nil
 }
-- 
2.43.0

