From 63d2d4db22d070caffc095a4f175656cf2df39d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 1/3] fix: float128ppc: do not modify the argument of
 NewFromBig

NewFromBig changed the precision and rounding mode of the *big.Float it
was given (and thereby rounded its value), so that the caller's value was
altered and concurrent conversions of a shared value raced. Round a copy.
---
 float128ppc/float128ppc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/float128ppc/float128ppc.go b/float128ppc/float128ppc.go
index 9fdc9b3..a775b50 100644
--- a/float128ppc/float128ppc.go
+++ b/float128ppc/float128ppc.go
@@ -100,8 +100,8 @@ func NewFromBig(x *big.Float) (Float, big.Accuracy) {
 		return Zero, big.Exact
 	}
 
-	// set precision of x.
-	x.SetPrec(precision).SetMode(big.ToNearestEven)
+	// set precision of a copy of x; x belongs to the caller.
+	x = new(big.Float).Copy(x).SetPrec(precision).SetMode(big.ToNearestEven)
 
 	// get high part of the double-double floating-point value.
 	high, _ := x.Float64()
-- 
2.43.0


From 03a8b0bb0dac60e048e159bcd6f8cf01b3f3f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 2/3] fix: binary16, binary128: report the error of closing the
 generated file

The generators ignored the result of closing their output, so that a write
error reported on close (NFS, quota, delayed allocation) left an incomplete
extra_test.go behind with a successful exit status.
---
 binary128/gen.go | 4 ++++
 binary16/gen.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/binary128/gen.go b/binary128/gen.go
index abecf7b..b122b2b 100644
--- a/binary128/gen.go
+++ b/binary128/gen.go
@@ -72,6 +72,10 @@ func dumpTest(path string) error {
 	if err := t.Execute(f, data); err != nil {
 		return errors.WithStack(err)
 	}
+	// Some write errors are only reported on close.
+	if err := f.Close(); err != nil {
+		return errors.WithStack(err)
+	}
 	return nil
 }
 
diff --git a/binary16/gen.go b/binary16/gen.go
index 990a585..37ba4f9 100644
--- a/binary16/gen.go
+++ b/binary16/gen.go
@@ -40,6 +40,10 @@ func dumpTest(path string) error {
 	if err := t.Execute(f, data); err != nil {
 		return errors.WithStack(err)
 	}
+	// Some write errors are only reported on close.
+	if err := f.Close(); err != nil {
+		return errors.WithStack(err)
+	}
 	return nil
 }
 
-- 
2.43.0


From b115d0b9853328ceb82fad640f9a42d06c0547eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 3/3] fix: binary128/gen.go: use a random source of its own

rand.Seed does nothing when GODEBUG=randseednop=1 is set (and by default
for modules at go 1.24 or later), and the generated tests were different
every time.
---
 binary128/gen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binary128/gen.go b/binary128/gen.go
index b122b2b..8012ef7 100644
--- a/binary128/gen.go
+++ b/binary128/gen.go
@@ -36,14 +36,14 @@ func dumpTest(path string) error {
 		return errors.WithStack(err)
 	}
 	// Use deterministic source for pseudo-random nunmbers.
-	rand.Seed(1234)
+	rnd := rand.New(rand.NewSource(1234))
 	// Randomize the exponent since the number of exponent, mantissa combinations
 	// otherwise become huge.
 	var exps []int
 	const nrandExps = 64
 	for i := 0; i < nrandExps; i++ {
 		// exponent bits: 0x0001 - 0x7FFE
-		exp := rand.Intn(0x7FFE) + 1
+		exp := rnd.Intn(0x7FFE) + 1
 		exps = append(exps, exp)
 	}
 	sort.Ints(exps)
@@ -53,9 +53,9 @@ func dumpTest(path string) error {
 	const nrandMants = 512
 	for i := 0; i < nrandMants; i++ {
 		// 48 bits.
-		a := rand.Uint64() & 0xFFFFFFFFFFFF
+		a := rnd.Uint64() & 0xFFFFFFFFFFFF
 		// 64 bits.
-		b := rand.Uint64()
+		b := rnd.Uint64()
 		mant := MantBits{a: a, b: b}
 		mants = append(mants, mant)
 	}
-- 
2.43.0

