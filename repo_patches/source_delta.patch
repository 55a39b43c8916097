From c003b93527aed69ecc8808c021f299db3405633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 1/4] fix: take odd linear roots of negative values

powl() of a negative base and the inexact exponent 1/n is NaN, so an odd
root of a negative linear takum came out as NaR. Take the root of the
magnitude and restore the sign, as the logarithmic variants do.
---
 src/root.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/root.c b/src/root.c
index e116d31..28046b9 100644
--- a/src/root.c
+++ b/src/root.c
@@ -75,7 +75,7 @@ takum_linear8_root(takum_linear8 t, int64_t n)
 	}
 
 	f = takum_linear8_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = copysignl(powl(fabsl(f), 1.0l / (long double)n), f);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -94,7 +94,7 @@ takum_linear16_root(takum_linear16 t, int64_t n)
 	}
 
 	f = takum_linear16_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = copysignl(powl(fabsl(f), 1.0l / (long double)n), f);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -113,7 +113,7 @@ takum_linear32_root(takum_linear32 t, int64_t n)
 	}
 
 	f = takum_linear32_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = copysignl(powl(fabsl(f), 1.0l / (long double)n), f);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -132,7 +132,7 @@ takum_linear64_root(takum_linear64 t, int64_t n)
 	}
 
 	f = takum_linear64_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = copysignl(powl(fabsl(f), 1.0l / (long double)n), f);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
-- 
2.43.0


From 84996e4cfad80a4a74158f5046bedc02a83ec0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 2/4] fix: do not overflow in the absolute value of NaR

For the 32 and 64 bit types -t is a signed overflow, hence undefined, when
t is NaR (the most negative integer).
---
 src/absolute.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/absolute.c b/src/absolute.c
index e54ce80..5b1da75 100644
--- a/src/absolute.c
+++ b/src/absolute.c
@@ -18,13 +18,15 @@ takum16_absolute(takum16 t)
 takum32
 takum32_absolute(takum32 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* the NaR code has no negative, it is its own absolute value */
+	return (t < 0 && t != TAKUM32_NAR) ? -t : t;
 }
 
 takum64
 takum64_absolute(takum64 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* the NaR code has no negative, it is its own absolute value */
+	return (t < 0 && t != TAKUM64_NAR) ? -t : t;
 }
 
 takum_linear8
@@ -42,11 +44,13 @@ takum_linear16_absolute(takum_linear16 t)
 takum_linear32
 takum_linear32_absolute(takum_linear32 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* the NaR code has no negative, it is its own absolute value */
+	return (t < 0 && t != TAKUM_LINEAR32_NAR) ? -t : t;
 }
 
 takum_linear64
 takum_linear64_absolute(takum_linear64 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* the NaR code has no negative, it is its own absolute value */
+	return (t < 0 && t != TAKUM_LINEAR64_NAR) ? -t : t;
 }
-- 
2.43.0


From ec4e84cbc14c2ffd4228cba6b00f238563450bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 3/4] fix: export logarithmic takums to float32 and float64
 accurately

powf()/pow() round the base sqrt(e) and the exponent to the target format
before raising, which is off by up to hundreds of units in the last place
for large exponents. Raise in extended precision and round once, as
takum8_to_float64() and the extended float exports already do.
---
 src/conversion.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index af7a9bf..d87745d 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -630,28 +630,29 @@ takum_linear32_from_takum_linear64(takum_linear64 t)
 float
 takum8_to_float32(takum8 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) * powf(SQRTE, codec_takum8_to_l(t));
+	return (float)((t != 0) * (1 - 2 * (t < 0)) *
+	               powl(SQRTE, (long double)codec_takum8_to_l(t)));
 }
 
 float
 takum16_to_float32(takum16 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) *
-	       powf(SQRTE, codec_takum16_to_l(t));
+	return (float)((t != 0) * (1 - 2 * (t < 0)) *
+	               powl(SQRTE, (long double)codec_takum16_to_l(t)));
 }
 
 float
 takum32_to_float32(takum32 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) *
-	       powf(SQRTE, (float)codec_takum32_to_l(t));
+	return (float)((t != 0) * (1 - 2 * (t < 0)) *
+	               powl(SQRTE, (long double)codec_takum32_to_l(t)));
 }
 
 float
 takum64_to_float32(takum64 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) *
-	       powf(SQRTE, (float)codec_takum64_to_l(t));
+	return (float)((t != 0) * (1 - 2 * (t < 0)) *
+	               powl(SQRTE, (long double)codec_takum64_to_l(t)));
 }
 
 float
@@ -693,21 +694,22 @@ takum8_to_float64(takum8 t)
 double
 takum16_to_float64(takum16 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) *
-	       pow(SQRTE, (double)codec_takum16_to_l(t));
+	return (double)((t != 0) * (1 - 2 * (t < 0)) *
+	                powl(SQRTE, (long double)codec_takum16_to_l(t)));
 }
 
 double
 takum32_to_float64(takum32 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) * pow(SQRTE, codec_takum32_to_l(t));
+	return (double)((t != 0) * (1 - 2 * (t < 0)) *
+	                powl(SQRTE, (long double)codec_takum32_to_l(t)));
 }
 
 double
 takum64_to_float64(takum64 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) *
-	       pow(SQRTE, (double)codec_takum64_to_l(t));
+	return (double)((t != 0) * (1 - 2 * (t < 0)) *
+	                powl(SQRTE, (long double)codec_takum64_to_l(t)));
 }
 
 double
-- 
2.43.0


From 7e50bf4bc1f799c72fa3598c0a1d45127021e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 4/4] fix: round float32 imports to takum_linear16 only once

---
 src/conversion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.c b/src/conversion.c
index d87745d..39881d0 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -104,7 +104,7 @@ takum_linear16
 takum_linear16_from_float32(float f)
 {
 	return (takum_linear16)codec_takum16_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_float32(f));
+		f < 0, codec_linear_l_from_float32(f));
 }
 
 takum_linear32
-- 
2.43.0

