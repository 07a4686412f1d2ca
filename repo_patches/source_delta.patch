From 6f626b1e8bcbcedda74950f2fc47db314c3967ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:04 +0000
Subject: [PATCH 001/180] fix: isqrt and icbrt divide by zero on the biggest
 integer

---
 src/core/real_analysis.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 5d98a0f..5f31bf8 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -54,8 +54,8 @@ namespace theoretica {
 	template<typename UnsignedIntType = uint64_t>
 	inline UnsignedIntType isqrt(UnsignedIntType n) {
 
-		// Upper bound
-		UnsignedIntType upper = n + 1;
+		// Upper bound (n + 1 would overflow for the biggest integer)
+		UnsignedIntType upper = n / 2 + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
@@ -94,8 +94,8 @@ namespace theoretica {
 	template<typename UnsignedIntType = uint64_t>
 	inline UnsignedIntType icbrt(UnsignedIntType n) {
 
-		// Upper bound
-		UnsignedIntType upper = n + 1;
+		// Upper bound (n + 1 would overflow for the biggest integer)
+		UnsignedIntType upper = n / 2 + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
-- 
2.43.0


From 88274981a097e6cc061e7c312efa12836eb47d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:04 +0000
Subject: [PATCH 002/180] fix: pad2 shifts a 32-bit integer and is wrong above
 2^30

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 5f31bf8..12d67e4 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -587,11 +587,11 @@ namespace theoretica {
 				// Check if x is a power of 2
 				for (int j = 0; j < i; ++j)
 					if(x & ((UnsignedIntType) 1 << j))
-						return (1 << (bit + 1));
+						return ((UnsignedIntType) 1 << (bit + 1));
 			}
 		}
 
-		return (1 << bit);
+		return ((UnsignedIntType) 1 << bit);
 	}
 
 
-- 
2.43.0


From 310cd72bb2e12083ca0d8eb6b88313ee8233d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:04 +0000
Subject: [PATCH 003/180] fix: binomial_coeff overflows on representable
 coefficients

---
 src/core/real_analysis.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 12d67e4..52cf6c5 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1235,12 +1235,16 @@ namespace theoretica {
 
 		// TO-DO Check out of range
 
+		// Use the symmetry of the coefficients
+		const unsigned int k = (m < n - m) ? m : n - m;
 		IntType res = 1;
 
-		for (unsigned int i = n; i > m; --i)
-			res *= i;
+		// Each partial result is a binomial coefficient,
+		// so that the division is always exact
+		for (unsigned int i = 1; i <= k; ++i)
+			res = res * (n - k + i) / i;
 
-		return res / fact(n - m);
+		return res;
 	}
 
 
-- 
2.43.0


From 944bba01c5751a84b9bd037dd4324b9e13a52926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:04 +0000
Subject: [PATCH 004/180] fix: floor of negative numbers below -1 rounds
 towards zero

---
 src/core/real_analysis.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 52cf6c5..e4199d8 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -270,12 +270,12 @@ namespace theoretica {
 	/// e.g. floor(-0.3) = -1
 	TH_CONSTEXPR inline int floor(real x) {
 
-		if(x < 0 && x > -1)
-			return -1;
+		// Conversion to integer truncates towards zero
+		const int n = int(x);
 
 		// Compute the biggest integer number
 		// that is smaller than x
-		return x - (int(x) % 1);
+		return (x < n) ? n - 1 : n;
 	}
 
 
-- 
2.43.0


From abe211f7420727a5d61aa16c11589934482efddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:42 +0000
Subject: [PATCH 005/180] fix: atan2 returns angles in the wrong quadrant

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index e4199d8..9a383b8 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1108,9 +1108,9 @@ namespace theoretica {
 		}
 
 		if(x > 0) {
-			return sgn(y) * atan(y / x);
+			return atan(y / x);
 		} else {
-			return sgn(y) * atan(y / -x) + PI2;
+			return atan(y / x) + (y < 0 ? -PI : PI);
 		}
 	}
 
-- 
2.43.0


From 6eb2f8efd1b53cc95344cc8e4d405e7abaf85104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 006/180] fix: odd roots of order above 3 of negative numbers
 recurse forever

---
 src/core/real_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 9a383b8..3b853f2 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -834,6 +834,10 @@ namespace theoretica {
 			if(x == 0)
 				return 0;
 
+			// Roots of odd order are odd functions
+			if(x < 0)
+				return -root(-x, n);
+
 			// Approximate root between 0 and 1
 			// The root of the inverse is the inverse of the root
 			// !!! Possible precision problems with smaller numbers
-- 
2.43.0


From e551a2d11c47730c294fa68d3c2c5eab14df19f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:53 +0000
Subject: [PATCH 007/180] fix: gamma and half_gamma overflow 64-bit and 32-bit
 integers for big arguments

---
 src/core/special.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/special.h b/src/core/special.h
index 352576e..eb4eb66 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -27,7 +27,7 @@ namespace theoretica {
 				return nan();
 			}
 
-			return fact(k - 1);
+			return fact<real>(k - 1);
 		}
 
 
@@ -46,8 +46,8 @@ namespace theoretica {
 			}
 
 			return (k % 2 == 0)
-		        ? fact<uint64_t>(k / 2 - 1)
-		        : double_fact<uint64_t>(k - 2) * SQRTPI / (1 << ((k - 1) / 2));
+		        ? fact<real>(k / 2 - 1)
+		        : double_fact<real>(k - 2) * SQRTPI / pow(real(2), (k - 1) / 2);
 		}
 
 
-- 
2.43.0


From c8314c51e59ce36440d2fed5f4cb4e8a5332cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:42 +0000
Subject: [PATCH 008/180] fix: bit_rotate by zero or by more than the width is
 undefined

---
 src/core/bit_op.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/bit_op.h b/src/core/bit_op.h
index 2a03594..643ec10 100644
--- a/src/core/bit_op.h
+++ b/src/core/bit_op.h
@@ -77,7 +77,12 @@ namespace theoretica {
 	inline TH_CONSTEXPR UnsignedIntType
 	bit_rotate(UnsignedIntType x, unsigned int i) {
 
-		return (x << i) | (x >> ((sizeof(UnsignedIntType) * 8) - i));
+		const unsigned int bits = sizeof(UnsignedIntType) * 8;
+
+		// Shifting by the width of the type or more is undefined
+		i %= bits;
+
+		return (i == 0) ? x : ((x << i) | (x >> (bits - i)));
 	}
 
 
-- 
2.43.0


From 0fc3cb7a7bcc869a5680051efc45f55a5c90975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:42 +0000
Subject: [PATCH 009/180] fix: shuffle of an empty set divides by zero

---
 src/pseudorandom/prng.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index 156ae6e..fc306b7 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -210,8 +210,10 @@ namespace theoretica {
 	template<typename Vector>
 	inline void shuffle(Vector& v, PRNG& g, unsigned int rounds = 0) {
 
-		if(v.size() == 0)
+		if(v.size() == 0) {
 			TH_MATH_ERROR("shuffle", v.size(), INVALID_ARGUMENT);
+			return;
+		}
 
 		// The number of rounds defaults to (N - 1)^2
 		if(rounds == 0)
-- 
2.43.0


From ee57ff5f8bbe6c7e77dd4782e6d705774db8c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:29 +0000
Subject: [PATCH 010/180] fix: complex tan and acos are ambiguous and do not
 compile

---
 src/complex/complex_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 590f6b7..8895671 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -99,7 +99,7 @@ namespace theoretica {
 	inline complex<T> tan(complex<T> z) {
 
 		const complex<T> t = z * complex<T>(0, 2);
-		return (exp(t) - 1) / (exp(t) + 1) * complex<T>(0, -1);
+		return (exp(t) - complex<T>(1)) / (exp(t) + complex<T>(1)) * complex<T>(0, -1);
 	}
 
 
@@ -137,7 +137,7 @@ namespace theoretica {
 	/// @param z A complex number
 	template<typename T>
 	inline complex<T> acos(complex<T> z) {
-		return ln(z + sqrt(square(z) - 1)) * complex<T>(0, -1);
+		return ln(z + sqrt(square(z) - complex<T>(1))) * complex<T>(0, -1);
 	}
 
 
-- 
2.43.0


From f7a580f81b5f0f7bf067294d59b791cec543d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:29 +0000
Subject: [PATCH 011/180] fix: complex operator/= by a real binds a temporary
 and does not compile

---
 src/complex/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex.h b/src/complex/complex.h
index 0c26a7f..c3ba180 100644
--- a/src/complex/complex.h
+++ b/src/complex/complex.h
@@ -306,7 +306,7 @@ namespace theoretica {
 
 				if(abs(k) < MACH_EPSILON) {
 					TH_MATH_ERROR("complex::operator/=", k, DIV_BY_ZERO);
-					return complex(nan(), nan());
+					return (*this = complex(nan(), nan()));
 				}
 
 				return (*this = complex(a / k, b / k));
-- 
2.43.0


From 3973dabc181412d5ce71485d6f05d21048b8857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:31 +0000
Subject: [PATCH 012/180] fix: complex sqrt of negative real numbers is zero

---
 src/complex/complex_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 8895671..3443f74 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -113,7 +113,7 @@ namespace theoretica {
 
 		return complex<T>(
 			INVSQR2 * sqrt((z.norm() + z.Re())),
-			INVSQR2 * sqrt((z.norm() - z.Re()))  * sgn(z.b));
+			INVSQR2 * sqrt((z.norm() - z.Re())) * (z.b < 0 ? -1 : 1));
 	}
 
 
-- 
2.43.0


From f8a8366720c6a0b34935f6760626745054bdc467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:15 +0000
Subject: [PATCH 013/180] fix: quat::invert binds a temporary and does not
 compile

---
 src/complex/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 7594254..1453990 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -155,7 +155,7 @@ namespace theoretica {
 
 				if(n < MACH_EPSILON) {
 					TH_MATH_ERROR("quat::invert", n, DIV_BY_ZERO);
-					return quat((Type) nan());
+					return (*this = quat((Type) nan()));
 				}
 
 				return (*this = quat(
-- 
2.43.0


From d5c5948221225a1467de287dac4f4980779824eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:28 +0000
Subject: [PATCH 014/180] fix: quat::rotation uses a constructor which does not
 exist

---
 src/complex/quat.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 1453990..9c4fd59 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -323,10 +323,18 @@ namespace theoretica {
 			/// of <rad> radians around the <axis> arbitrary axis
 			template<typename Vector>
 			inline static quat rotation(Type rad, const Vector& axis) {
+
+				if(axis.size() != 3) {
+					TH_MATH_ERROR("quat::rotation", axis.size(), INVALID_ARGUMENT);
+					return quat((Type) nan());
+				}
+
+				const Vector n_axis = algebra::normalize(axis);
+				const Type s = sin(rad / 2.0);
+
 				return quat(
 					cos(rad / 2.0),
-					algebra::normalize(axis) * sin(rad / 2.0)
-				);
+					n_axis.get(0) * s, n_axis.get(1) * s, n_axis.get(2) * s);
 			}
 
 
-- 
2.43.0


From 0e8790fe94af28325fc5be36fc605ad63c57564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:28 +0000
Subject: [PATCH 015/180] fix: phasor::inverse returns a real and does not
 compile

---
 src/complex/phasor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 9c1b57d..572ccdf 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -126,11 +126,11 @@ namespace theoretica {
 
 
 			/// Compute the inverse of the complex number
-			inline Type inverse() const {
+			inline phasor inverse() const {
 
 				if(modulus < MACH_EPSILON) {
 					TH_MATH_ERROR("phasor::inverse", modulus, DIV_BY_ZERO);
-					return (Type) nan();
+					return phasor((Type) nan(), (Type) nan());
 				}
 
 				return phasor(
-- 
2.43.0


From 29e0a0d19391fece7a9e04abfbf5bc555adbf136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:28 +0000
Subject: [PATCH 016/180] fix: subtracting phasors of equal phase gives a
 negative modulus

---
 src/complex/phasor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 572ccdf..74bfb0a 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -181,7 +181,7 @@ namespace theoretica {
 			/// in algebraic form.
 			inline phasor operator-(const phasor& other) const {
 
-				if(abs(phase - other.phase) < MACH_EPSILON)
+				if(abs(phase - other.phase) < MACH_EPSILON && modulus >= other.modulus)
 					return phasor(modulus - other.modulus, phase);
 
 				return phasor(to_complex() - other.to_complex());
@@ -248,7 +248,7 @@ namespace theoretica {
 			/// Subtract a phasor from this one
 			inline phasor& operator-=(const phasor& other) {
 
-				if(phase == other.phase)
+				if(phase == other.phase && modulus >= other.modulus)
 					modulus -= other.modulus;
 				else
 					*this = phasor(to_complex() - other.to_complex());
-- 
2.43.0


From 9e7218d9ad32b82dbe646e84bac776824b3e4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:55 +0000
Subject: [PATCH 017/180] fix: polynomial::find_order returns the index of a
 null coefficient

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 1582771..45a76e1 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -95,7 +95,7 @@ namespace theoretica {
 			inline unsigned int find_order() const {
 
 				for (int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) < MACH_EPSILON)
+					if(abs(coeff[i]) >= MACH_EPSILON)
 						return i;
 				}
 
-- 
2.43.0


From 5ce0c94c098d9f9620ae88a55539a8549d94bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:55 +0000
Subject: [PATCH 018/180] fix: polynomial::trim never stops on null polynomials

---
 src/polynomial/polynomial.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 45a76e1..bbba014 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -106,12 +106,8 @@ namespace theoretica {
 			/// Remove trailing zero coefficients
 			inline void trim() {
 
-				for (unsigned int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) > MACH_EPSILON)
-						break;
-
+				while (coeff.size() && abs(coeff.back()) < MACH_EPSILON)
 					coeff.pop_back();
-				}
 			}
 
 
-- 
2.43.0


From ee98efb6de4340492c0d8c3c7138334ac0b370a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:56 +0000
Subject: [PATCH 019/180] fix: polynomial difference reads out of bounds when
 the second operand is longer

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index bbba014..df5f6ff 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -147,7 +147,7 @@ namespace theoretica {
 
 				unsigned int i = 0;
 
-				for (; i < min(r.size(), p.size()); ++i)
+				for (; i < min(coeff.size(), p.size()); ++i)
 					r[i] = coeff[i] - p.get(i);
 
 				if (coeff.size() > p.size())
-- 
2.43.0


From 1e0fe78bc80034168378e188eeb7007a1e2a06c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:56 +0000
Subject: [PATCH 020/180] fix: product of empty polynomials allocates a
 negative size

---
 src/polynomial/polynomial.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index df5f6ff..15e8c6c 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -164,6 +164,9 @@ namespace theoretica {
 			/// Multiply two polynomials
 			inline polynomial operator*(const polynomial& p) const {
 
+				if(!size() || !p.size())
+					return polynomial();
+
 				polynomial r = polynomial();
 				r.coeff.resize(this->size() + p.size() - 1);
 
@@ -288,6 +291,9 @@ namespace theoretica {
 			/// Multiply two polynomials
 			inline polynomial& operator*=(const polynomial& p) {
 
+				if(!size() || !p.size())
+					return (*this = polynomial());
+
 				polynomial r = polynomial();
 				r.coeff.resize(this->size() + p.size() - 1, Type(0));
 
-- 
2.43.0


From f56dada5020b7b60f68a22d994557dbceed5cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 021/180] fix: polynomial equality is false unless both are
 null

---
 src/polynomial/polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 15e8c6c..142a4f9 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -347,12 +347,12 @@ namespace theoretica {
 				}
 
 				if(size() > other.size()) {
-					for (unsigned int i = 0; i < size(); ++i) {
+					for (unsigned int i = n; i < size(); ++i) {
 						if(abs(coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
 				} else {
-					for (unsigned int i = 0; i < other.size(); ++i) {
+					for (unsigned int i = n; i < other.size(); ++i) {
 						if(abs(other.coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
-- 
2.43.0


From b4e76ad8d3ba86c6fdd5d7ea30060aae17aa1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 022/180] fix: polynomial division stops one step early and
 reads empty operands

---
 src/polynomial/polynomial.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 142a4f9..bb4557a 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -186,8 +186,8 @@ namespace theoretica {
 				const unsigned int d_order = d.find_order();
 				const unsigned int this_order = find_order();
 
-				if(d_order == 0 && d.get(0) == 0) {
-					TH_MATH_ERROR("polynomial::operator/", d.get(0), DIV_BY_ZERO);
+				if(!d.size() || (d_order == 0 && d.get(0) == 0)) {
+					TH_MATH_ERROR("polynomial::operator/", d_order, DIV_BY_ZERO);
 					return polynomial(nan());
 				}
 
@@ -198,14 +198,14 @@ namespace theoretica {
 				polynomial q = polynomial();
 				unsigned int i = 0;
 
-				while(i < this_order) {
+				while(i <= this_order + 1) {
 
 					// Compute only once the degree of the polynomial
 					const unsigned int r_order = r.find_order();
 
 					// Stop execution if the division is complete
 					// (when the remainder is 0 or has lower degree)
-					if((r_order == 0 && (abs(r.get(0)) < MACH_EPSILON)) || r_order < d_order)
+					if(!r.size() || (r_order == 0 && (abs(r.get(0)) < MACH_EPSILON)) || r_order < d_order)
 						break;
 
 					// Simple division between highest degree terms
@@ -218,12 +218,15 @@ namespace theoretica {
 					q += t;
 					r -= t * d;
 
+					// The highest degree term cancels exactly
+					r[r_order] = Type(0);
+
 					i++;
 				}
 
 				// The algorithm has stopped iterating after a number
-				// of the dividend's degree counts
-				if(i == this_order) {
+				// greater than the dividend's number of terms
+				if(i > this_order + 1) {
 					TH_MATH_ERROR("polynomial::operator/", i, NO_ALGO_CONVERGENCE);
 					return polynomial(nan());
 				}
-- 
2.43.0


From aca2397b032daebf1b9e4e0c1dd527163191bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 023/180] fix: polynomial division by a null scalar reports the
 error but divides

---
 src/polynomial/polynomial.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index bb4557a..4771884 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -252,6 +252,7 @@ namespace theoretica {
 
 				if(abs(a) < MACH_EPSILON) {
 					TH_MATH_ERROR("polynomial::operator/", a, DIV_BY_ZERO);
+					return polynomial(nan());
 				}
 
 				polynomial r = polynomial(*this);
-- 
2.43.0


From 8f1760ba8ef0c5ac0a45e9bf2bb0cef7954f76d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 024/180] fix: polynomial::quadratic_roots is ambiguous and
 does not compile

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 4771884..deb33b9 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -417,7 +417,7 @@ namespace theoretica {
 				// Use Vieta's theorem to avoid catastrophic cancellation
 				if(abs(p) > 1) {
 
-					z1 = -sgn(p) * (abs(p) / 2.0
+					z1 = Type(-sgn(p)) * (abs(p) / 2.0
 						+ abs(p) * sqrt(complex<>(0.25 - (q / p) / p)));
 					z2 = q / z1;
 
-- 
2.43.0


From 4a67064d5dcab43dd5ad1400eb13fdf8e272b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 025/180] fix: hermite_weights of no roots builds a polynomial
 of degree 2^32-1

---
 src/polynomial/orthogonal.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index dbcc2f4..f665908 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -316,6 +316,10 @@ namespace theoretica {
 	inline std::vector<real> hermite_weights(const std::vector<real>& roots) {
 
 		const unsigned int n = roots.size();
+
+		if(n == 0)
+			return {};
+
 		const polynomial<real> H = hermite_polynomial(n - 1);
 
 		std::vector<real> weights;
-- 
2.43.0


From 1f1fbeddc632ce759f92b263d1685192abe172aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:07 +0000
Subject: [PATCH 026/180] fix: associated Legendre functions of odd negative
 order wrap around 2^64

---
 src/polynomial/orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index f665908..56fac7c 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -89,7 +89,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= pow(-1, m) * fact(l + m) / fact(l - m);
+			K *= pow(-1, m) * real(fact(l + m) / fact(l - m));
 		}
 
 		for (int i = 0; i < m; ++i)
-- 
2.43.0


From 75ffde3417d2b7c1b9290297f5d6e8a13b42b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:33 +0000
Subject: [PATCH 027/180] fix: fixed-size vec operator/= calls an undeclared
 function and does not compile

---
 src/algebra/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 0f5edb3..09e7092 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -281,7 +281,7 @@ namespace theoretica {
 
 			if(abs(scalar) < MACH_EPSILON) {
 				TH_MATH_ERROR("vec::operator/=", scalar, DIV_BY_ZERO);
-				vec_error(*this);
+				algebra::vec_error(*this);
 				return *this;
 			}
 
-- 
2.43.0


From a29af48e127313a80f9f6cc3410add26a6115c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:33 +0000
Subject: [PATCH 028/180] fix: vec_copy writes out of bounds when a fixed-size
 destination is smaller

---
 src/algebra/algebra.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 187d0c5..f0d88a1 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -144,6 +144,12 @@ namespace theoretica {
 
 			dest.resize(src.size());
 
+			// The destination may have a fixed size
+			if(dest.size() != src.size()) {
+				TH_MATH_ERROR("algebra::vec_copy", src.size(), INVALID_ARGUMENT);
+				return vec_error(dest);
+			}
+
 			for (unsigned int i = 0; i < src.size(); ++i)
 				dest[i] = src[i];
 
-- 
2.43.0


From a3c14da7b82c1383774f8578a7dba17f40ea16b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:33 +0000
Subject: [PATCH 029/180] fix: norm and dot product of empty vectors read out
 of bounds

---
 src/algebra/algebra.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index f0d88a1..683540a 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -280,10 +280,10 @@ namespace theoretica {
 		template<typename Vector>
 		inline auto sqr_norm(const Vector& v) {
 
-			auto sum = pair_inner_product(v[0], v[0]);
+			decltype(pair_inner_product(v[0], v[0])) sum (0.0);
 
 			// Use conjugation for complex numbers
-			for (unsigned int i = 1; i < v.size(); ++i)
+			for (unsigned int i = 0; i < v.size(); ++i)
 				sum += pair_inner_product(v[i], v[i]);
 
 			return sum;
@@ -361,10 +361,10 @@ namespace theoretica {
 				return vector_element_t<Vector1>(nan());
 			}
 
-			auto sum = pair_inner_product(v[0], w[0]);
+			decltype(pair_inner_product(v[0], w[0])) sum (0.0);
 
 			// Use conjugation for complex numbers
-			for (unsigned int i = 1; i < v.size(); ++i)
+			for (unsigned int i = 0; i < v.size(); ++i)
 				sum += pair_inner_product(v[i], w[i]);
 
 			return sum;
-- 
2.43.0


From cabc030c3b732b74d6fdbd923a8c26c0882cf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:33 +0000
Subject: [PATCH 030/180] fix: vec_sum and vec_diff in place do not compile
 with different vector types

---
 src/algebra/algebra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 683540a..7e16b3d 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1138,7 +1138,7 @@ namespace theoretica {
 		/// @param v2 The second vector to add
 		/// @return A reference to the overwritten vector
 		template<typename Vector1, typename Vector2>
-		inline Vector2& vec_sum(Vector1& v1, const Vector2& v2) {
+		inline Vector1& vec_sum(Vector1& v1, const Vector2& v2) {
 
 			if(v1.size() != v2.size()) {
 				TH_MATH_ERROR("algebra::vec_sum", v1.size(), INVALID_ARGUMENT);
@@ -1186,7 +1186,7 @@ namespace theoretica {
 		/// @param v2 The second vector
 		/// @return A reference to the overwritten vector
 		template<typename Vector1, typename Vector2>
-		inline Vector2& vec_diff(Vector1& v1, const Vector2& v2) {
+		inline Vector1& vec_diff(Vector1& v1, const Vector2& v2) {
 
 			if(v1.size() != v2.size()) {
 				TH_MATH_ERROR("algebra::vec_diff", v1.size(), INVALID_ARGUMENT);
-- 
2.43.0


From f90ee3cd6c57edb9b39f2b47ab28be116cca5054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:33 +0000
Subject: [PATCH 031/180] fix: vec::euclidean_base writes out of bounds when
 the size is not that of the vector type

---
 src/algebra/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 09e7092..4e53387 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -426,7 +426,7 @@ namespace theoretica {
 		inline static vec<Type, N> euclidean_base(
 			unsigned int i, unsigned int n = N) {
 
-			if(i >= n) {
+			if(i >= n || n != N) {
 				TH_MATH_ERROR("vec::euclidean_base", i, INVALID_ARGUMENT);
 				return vec<Type, N>(Type(nan()));
 			}
-- 
2.43.0


From 8826e65d4e45742aa252128e86c01dc7bb620e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:58 +0000
Subject: [PATCH 032/180] fix: dynamic matrices which are not square address
 elements with the wrong stride

---
 src/algebra/mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 1cf48af..64f86ae 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1066,9 +1066,9 @@ namespace theoretica {
 		inline Type& at(unsigned int i, unsigned int j) {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
@@ -1082,9 +1082,9 @@ namespace theoretica {
 		inline const Type& at(unsigned int i, unsigned int j) const {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
-- 
2.43.0


From f3bd4fe45ec539d87498935cee206f181801850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:58 +0000
Subject: [PATCH 033/180] fix: mat::resize moves elements to other rows and
 columns

---
 src/algebra/mat.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 64f86ae..6af39a1 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1239,13 +1239,18 @@ namespace theoretica {
 
 			std::vector<Type> new_data (rows * cols);
 
-			if (data.size()) {
+			const size_t min_rows = rows < row_sz ? rows : row_sz;
+			const size_t min_cols = cols < col_sz ? cols : col_sz;
 
-				size_t min_elements = min(rows, row_sz) * min(cols, col_sz);
-
-				// Copy the overlapping elements
-				for (unsigned int i = 0; i < min_elements; ++i)
-					new_data[i] = data[i];
+			// Copy the overlapping elements
+			for (size_t i = 0; i < min_rows; ++i) {
+				for (size_t j = 0; j < min_cols; ++j) {
+#ifdef THEORETICA_ROW_FIRST
+					new_data[j + i * cols] = at(i, j);
+#else
+					new_data[i + j * rows] = at(i, j);
+#endif
+				}
 			}
 
 			data = new_data;
-- 
2.43.0


From 9a491bf02f32ae6086f4818f1de8e82f29015567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:58 +0000
Subject: [PATCH 034/180] fix: mat_copy writes out of bounds when a fixed-size
 destination is smaller

---
 src/algebra/algebra.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 7e16b3d..cea3a05 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -126,6 +126,12 @@ namespace theoretica {
 
 			dest.resize(src.rows(), src.cols());
 
+			// The destination may have a fixed size
+			if(dest.rows() != src.rows() || dest.cols() != src.cols()) {
+				TH_MATH_ERROR("algebra::mat_copy", src.rows(), INVALID_ARGUMENT);
+				return mat_error(dest);
+			}
+
 			for (unsigned int i = 0; i < src.rows(); ++i)
 				for (unsigned int j = 0; j < src.cols(); ++j)
 					dest(i, j) = src(i, j);
-- 
2.43.0


From a5ba96480056d7a4ec1da8746c48f0ea24d3729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:58 +0000
Subject: [PATCH 035/180] fix: mat_swap_cols iterates over the columns instead
 of the rows

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index cea3a05..8ef91f7 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -223,7 +223,7 @@ namespace theoretica {
 			if (col1 == col2)
 				return A;
 
-			for (unsigned int i = 0; i < A.cols(); ++i) {
+			for (unsigned int i = 0; i < A.rows(); ++i) {
 
 				const Type tmp = A(i, col1);
 
-- 
2.43.0


From 4428de69b209740c0b151a943995239b4baf4670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:33 +0000
Subject: [PATCH 036/180] fix: apply_transform does not store the result in the
 vector

---
 src/algebra/algebra.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 8ef91f7..2cfa912 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -693,14 +693,22 @@ namespace theoretica {
 			}
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
+
+			// The vector may have a fixed size
+			if(res.size() != A.rows()) {
+				TH_MATH_ERROR("algebra::apply_transform", A.rows(), INVALID_ARGUMENT);
+				vec_error(v);
+				return v;
+			}
+
 			vec_zeroes(res);
 
 			for (unsigned int i = 0; i < A.rows(); ++i)
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res[i] += A(i, j) * v[j];
 
-			vec_copy(res, v);
+			vec_copy(v, res);
 			return v;
 		}
 
-- 
2.43.0


From 26752244042b2d0e3fc3ec86125cd864227bade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:33 +0000
Subject: [PATCH 037/180] fix: transforming vectors by matrices which are not
 square is out of bounds

---
 src/algebra/algebra.h | 7 ++++---
 src/algebra/mat.h     | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 2cfa912..287b61b 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -722,9 +722,10 @@ namespace theoretica {
 		inline Vector transform(const Matrix& A, const Vector& v) {
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
 
-			if(v.size() != A.cols()) {
+			// The vector may have a fixed size
+			if(v.size() != A.cols() || res.size() != A.rows()) {
 				TH_MATH_ERROR("algebra::transform", v.size(), INVALID_ARGUMENT);
 				vec_error(res);
 				return res;
@@ -756,7 +757,7 @@ namespace theoretica {
 				return res;
 			}
 
-			if(res.size() != v.size()) {
+			if(res.size() != A.rows()) {
 				TH_MATH_ERROR("algebra::transform", res.size(), INVALID_ARGUMENT);
 				vec_error(res);
 				return res;
diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 6af39a1..1e8adc4 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -332,7 +332,8 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		/// @return The transformed vector as a new `vec<Type, N>`.
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			return algebra::transform(res, *this, v);
 		}
 
 
@@ -877,7 +878,7 @@ namespace theoretica {
 		template<typename Vector>
 		inline Vector transform(const Vector& v) const {
 
-			if(v.size() != rows()) {
+			if(v.size() != cols()) {
 				TH_MATH_ERROR("mat::transform", v.size(), INVALID_ARGUMENT);
 				Vector res;
 				res.resize(rows());
-- 
2.43.0


From 9e94bfeac6ec7068aa9b863f66dc4733553d1483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:58 +0000
Subject: [PATCH 038/180] fix: dynamic matrices which are not square cannot
 transform fixed-size vectors

---
 src/algebra/mat.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 1e8adc4..cad1646 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -895,7 +895,9 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		template<unsigned int N = 0, unsigned int K = 0>
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			res.resize(rows());
+			return algebra::transform(res, *this, v);
 		}
 
 
-- 
2.43.0


From 88faa5c9b65f2c0a6eac401fa4444f6b99238a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:58 +0000
Subject: [PATCH 039/180] fix: vector times matrix computes matrix times vector

---
 src/algebra/mat.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index cad1646..e804a1d 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -284,7 +284,9 @@ namespace theoretica {
 		template<typename VecType, unsigned int M>
 		inline friend vec<VecType, K> operator*(
 			const vec<VecType, M>& a, const mat<Type, N, K>& B) {
-			return B * a;
+			vec<VecType, K> res;
+			return algebra::transform(
+				res, algebra::transpose<mat<Type, N, K>, mat<Type, K, N>>(B), a);
 		}
 
 
@@ -850,7 +852,9 @@ namespace theoretica {
 		template<typename VecType, unsigned int M>
 		inline friend vec<VecType, 0> operator*(
 			const vec<VecType, M>& a, const mat<Type, 0, 0>& B) {
-			return B * a;
+			vec<VecType, 0> res;
+			res.resize(B.cols());
+			return algebra::transform(res, algebra::transpose(B), a);
 		}
 
 
-- 
2.43.0


From 127dbccb36f888220a8e392b1705b2caa00dfd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:58 +0000
Subject: [PATCH 040/180] fix: diagonal constructor of fixed-size matrices
 ignores the diagonal or writes out of bounds

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index e804a1d..440b56c 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -212,7 +212,7 @@ namespace theoretica {
 				resize(n, k);
 
 			algebra::mat_zeroes(*this);
-			const unsigned int m = min(n, k);
+			const unsigned int m = min(N, K);
 
 			for (unsigned int i = 0; i < m; ++i)
 				at(i, i) = diagonal;
-- 
2.43.0


From 5bc4155dad2d91fdffd3c4709ef2062b4b14015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:58 +0000
Subject: [PATCH 041/180] fix: mat_sum and mat_diff in place do not compile
 with different matrix types

---
 src/algebra/algebra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 287b61b..1bdcba9 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -782,7 +782,7 @@ namespace theoretica {
 		/// @param B The second matrix to add
 		/// @return A reference to the overwritten matrix
 		template<typename Matrix1, typename Matrix2>
-		inline Matrix2& mat_sum(Matrix1& A, const Matrix2& B) {
+		inline Matrix1& mat_sum(Matrix1& A, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_sum", A.rows(), INVALID_ARGUMENT);
@@ -850,7 +850,7 @@ namespace theoretica {
 		/// @param B The second matrix
 		/// @return A reference to the overwritten matrix
 		template<typename Matrix1, typename Matrix2>
-		inline Matrix2& mat_diff(Matrix1& A, const Matrix2& B) {
+		inline Matrix1& mat_diff(Matrix1& A, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_diff", A.rows(), INVALID_ARGUMENT);
-- 
2.43.0


From 2fe6217a9393e60de32ec333ba7060c09b41c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:59 +0000
Subject: [PATCH 042/180] fix: mat_lincomb does not compile

---
 src/algebra/algebra.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 1bdcba9..caca184 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -919,7 +919,7 @@ namespace theoretica {
 		/// @param B The second matrix to combine
 		/// @return A reference to the overwritten matrix
 		template<typename Field1, typename Matrix1, typename Field2, typename Matrix2>
-		inline Matrix2& mat_lincomb(
+		inline Matrix1& mat_lincomb(
 			Field1 alpha, Matrix1& A, Field2 beta, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
@@ -958,14 +958,14 @@ namespace theoretica {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.rows(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(A.cols() != B.cols()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.cols(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(res.rows() != A.rows()) {
@@ -984,7 +984,7 @@ namespace theoretica {
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res(i, j) = A(i, j) * alpha + B(i, j) * beta;
 
-			return A;
+			return res;
 		}
 
 
-- 
2.43.0


From 99f2b3d12b98de43553ef99550c5dac1fb68e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:15 +0000
Subject: [PATCH 043/180] fix: trace and diagonal product of empty matrices
 read out of bounds

---
 src/algebra/algebra.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index caca184..e476732 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -566,10 +566,10 @@ namespace theoretica {
 		template<typename Matrix>
 		inline auto trace(const Matrix& m) {
 
-			auto sum = m(0, 0);
+			matrix_element_t<Matrix> sum (0.0);
 			const size_t n = min(m.rows(), m.cols());
 
-			for (unsigned int i = 1; i < n; ++i)
+			for (unsigned int i = 0; i < n; ++i)
 				sum += m(i, i);
 
 			return sum;
@@ -584,10 +584,10 @@ namespace theoretica {
 		template<typename Matrix>
 		inline auto diagonal_product(const Matrix& m) {
 
-			auto mul = m(0, 0);
+			matrix_element_t<Matrix> mul (1.0);
 			const size_t n = min(m.rows(), m.cols());
 
-			for (unsigned int i = 1; i < n; ++i)
+			for (unsigned int i = 0; i < n; ++i)
 				mul *= m(i, i);
 
 			return mul;
-- 
2.43.0


From c1d5ee7b2872623d8b17b6bce525326c5a6be096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:15 +0000
Subject: [PATCH 044/180] fix: dynamic matrices cannot be constructed from
 other matrices

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 440b56c..ebbcf69 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -723,7 +723,7 @@ namespace theoretica {
 		/// @tparam Matrix A compatible matrix type.
 		/// @param m The matrix to copy from.
 		template <
-			typename Matrix, enable_matrix<Matrix>
+			typename Matrix, enable_matrix<Matrix> = true
 		>
 		mat(const Matrix& m) {
 			resize(m.rows(), m.cols());
-- 
2.43.0


From b2d502ba5824cc0887484a751c408e93ffffa0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:25 +0000
Subject: [PATCH 045/180] fix: product of fixed-size matrices which are not
 square is always an error

---
 src/algebra/mat.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index ebbcf69..73127ba 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -385,6 +385,16 @@ namespace theoretica {
    		/// @tparam Matrix The type of the matrix to multiply with.
    		/// @param B The matrix to multiply with.
    		/// @return The resulting matrix.
+		template<unsigned int M>
+		inline mat<Type, N, M> operator*(const mat<Type, K, M>& B) const {
+			return mul(B);
+		}
+
+
+		/// Matrix multiplication using the `*` operator.
+		/// @tparam Matrix The type of the matrix to multiply with.
+		/// @param B The matrix to multiply with.
+		/// @return The resulting matrix.
 		template<typename Matrix>
 		inline auto operator*(const Matrix& B) const {
 
-- 
2.43.0


From 70f361e64733947c8247f53a09c5d4ab93260aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:31 +0000
Subject: [PATCH 046/180] fix: LU decomposition of complex matrices conjugates
 the factors

---
 src/algebra/algebra.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index e476732..3de8bbf 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1425,7 +1425,7 @@ namespace theoretica {
 					U(i, j) = A(i, j);
 				
 					for(unsigned int k = 0; k < i; ++k)
-						U(i, j) -= pair_inner_product(L(i, k), U(k, j));
+						U(i, j) -= L(i, k) * U(k, j);
 				}
 
 				for(unsigned int j = i + 1; j < A.rows(); ++j) {
@@ -1433,7 +1433,7 @@ namespace theoretica {
 					L(j, i) = A(j, i);
 
 					for(unsigned int k = 0; k < i; ++k)
-						L(j, i) -= pair_inner_product(L(j, k), U(k, i));
+						L(j, i) -= L(j, k) * U(k, i);
 
 					L(j, i) /= U(i, i);
 				}
@@ -1465,7 +1465,7 @@ namespace theoretica {
 					A(i, j) /= A(j, j);
 
 					for(unsigned int k = j + 1; k < A.rows(); ++k)
-						A(i, k) -= pair_inner_product(A(i, j), A(j, k));
+						A(i, k) -= A(i, j) * A(j, k);
 				}
 			}
 		
-- 
2.43.0


From 014ea87e7df027404cb23361da70fdd3ad69630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:31 +0000
Subject: [PATCH 047/180] fix: decompose_lu leaves the previous elements over
 the diagonal of L

---
 src/algebra/algebra.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 3de8bbf..3eac0b9 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1411,11 +1411,8 @@ namespace theoretica {
 				return;
 			}
 
-			using Type = matrix_element_t<Matrix1>;
-
-			// Set the diagonal of L to 1.0
-			for (unsigned int i = 0; i < A.rows(); ++i)
-				L(i, i) = (Type) 1.0;
+			// Set the diagonal of L to 1.0 and the other elements to zero
+			make_identity(L);
 
 			// Compute L and U
 			for(unsigned int i = 0; i < A.rows(); ++i) {
-- 
2.43.0


From ba3b024767b10bd752eea86b79297a1b2f3f53dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:54 +0000
Subject: [PATCH 048/180] fix: solve_triangular_upper reads out of bounds

---
 src/algebra/algebra.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 3eac0b9..2092fc3 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1637,17 +1637,12 @@ namespace theoretica {
 				return vec_error(x);
 			}
 
-			if (U.rows() == 1) {
-				x[0] = b[0] / U(0, 0);
-				return x;
-			}
-
 			// Solve using backward substitution
 			for (int i = U.rows() - 1; i >= 0; --i) {
 				
-				Type sum = U(i, i + 1) * x[i + 1];
+				Type sum = Type(0.0);
 
-				for (unsigned int j = i + 2; j < U.cols(); ++j)
+				for (unsigned int j = i + 1; j < U.cols(); ++j)
 					sum += U(i, j) * x[j];
 
 				if (abs(U(i, i)) < MACH_EPSILON) {
-- 
2.43.0


From 91ee0cb2f2a76446afb2b8fc44c01f68da90f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:54 +0000
Subject: [PATCH 049/180] fix: solve_triangular does not report matrices which
 are not triangular

---
 src/algebra/algebra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 2092fc3..af4210b 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1673,6 +1673,7 @@ namespace theoretica {
 			else if(is_upper_triangular(T))
 				return solve_triangular_upper(T, b);
 			else {
+				TH_MATH_ERROR("algebra::solve_triangular", false, INVALID_ARGUMENT);
 				Vector err;
 				err.resize(b.size());
 				return vec_error(err);
-- 
2.43.0


From 2986f9e8dfa5e66da845ca1070a706abfa604ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:13 +0000
Subject: [PATCH 050/180] fix: solve returns NaN for regular systems with a
 null leading minor

---
 src/algebra/algebra.h | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index af4210b..47af9d0 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1742,8 +1742,41 @@ namespace theoretica {
 		template<typename Matrix, typename Vector>
 		inline Vector solve_lu(Matrix A, Vector b) {
 
-			// Apply in-place LU decomposition
-			decompose_lu_inplace(A);
+			if (!is_square(A) || A.rows() != b.size()) {
+				TH_MATH_ERROR("algebra::solve_lu", A.rows(), INVALID_ARGUMENT);
+				return vec_error(b);
+			}
+
+			// Apply in-place LU decomposition, exchanging
+			// equations to use the biggest pivot
+			for (unsigned int j = 0; j < A.rows(); ++j) {
+
+				unsigned int pivot = j;
+
+				for (unsigned int i = j + 1; i < A.rows(); ++i)
+					if (abs(A(pivot, j)) < abs(A(i, j)))
+						pivot = i;
+
+				if (abs(A(pivot, j)) < MACH_EPSILON) {
+					TH_MATH_ERROR("algebra::solve_lu", j, DIV_BY_ZERO);
+					return vec_error(b);
+				}
+
+				if (pivot != j) {
+					mat_swap_rows(A, pivot, j);
+					const auto tmp = b[pivot];
+					b[pivot] = b[j];
+					b[j] = tmp;
+				}
+
+				for (unsigned int i = j + 1; i < A.rows(); ++i) {
+
+					A(i, j) /= A(j, j);
+
+					for (unsigned int k = j + 1; k < A.rows(); ++k)
+						A(i, k) -= A(i, j) * A(j, k);
+				}
+			}
 
 			// Apply forward and backward substitution
 			return solve_lu_inplace(A, b);
-- 
2.43.0


From 04392b6a173fe1a7fbe5e909fcca0f7c902b2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:14 +0000
Subject: [PATCH 051/180] fix: determinant is NaN for matrices with a null
 leading minor

---
 src/algebra/algebra.h | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 47af9d0..fa384fa 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -2070,12 +2070,47 @@ namespace theoretica {
 		template<typename Matrix>
 		inline auto det(const Matrix& A) {
 
+			using Type = matrix_element_t<Matrix>;
+
+			if (!is_square(A)) {
+				TH_MATH_ERROR("algebra::det", A.rows(), INVALID_ARGUMENT);
+				return Type(nan());
+			}
+
 			Matrix LU = A;
-			decompose_lu_inplace(LU);
+			Type sign (1.0);
+
+			// Reduce to triangular form, exchanging rows
+			// to use the biggest pivot
+			for (unsigned int j = 0; j < LU.rows(); ++j) {
+
+				unsigned int pivot = j;
+
+				for (unsigned int i = j + 1; i < LU.rows(); ++i)
+					if (abs(LU(pivot, j)) < abs(LU(i, j)))
+						pivot = i;
+
+				// All the elements of the column are null
+				if (LU(pivot, j) == Type(0.0))
+					return Type(0.0);
+
+				if (pivot != j) {
+					mat_swap_rows(LU, pivot, j);
+					sign = sign * Type(-1.0);
+				}
+
+				for (unsigned int i = j + 1; i < LU.rows(); ++i) {
+
+					const Type coeff = LU(i, j) / LU(j, j);
+
+					for (unsigned int k = j; k < LU.rows(); ++k)
+						LU(i, k) -= coeff * LU(j, k);
+				}
+			}
 
 			// The determinant of a triangular matrix
 			// is the product of the elements on its diagonal
-			return diagonal_product(LU);
+			return sign * diagonal_product(LU);
 		}
 
 
-- 
2.43.0


From 30b0673f8cdc118a910d71a3c34722b1f7230a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:58 +0000
Subject: [PATCH 052/180] fix: rotation_3d_yaxis and rotation_3d_zaxis write
 outside 3x3 matrices

---
 src/algebra/transform.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e984556..fe41d29 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -286,7 +286,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = 1;
 			m(2, 2) = c;
-			m(3, 3) = 1;
 
 			m(0, 2) = s;
 			m(2, 0) = -s;
@@ -329,7 +328,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = c;
 			m(2, 2) = 1;
-			m(3, 3) = 1;
 
 			m(0, 1) = -s;
 			m(1, 0) = s;
-- 
2.43.0


From b9a154824363976d54410247e90fd4bd10726d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:58 +0000
Subject: [PATCH 053/180] fix: rotation_3d has the wrong sign in one element,
 the matrix is not a rotation

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index fe41d29..1e8ed94 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -196,7 +196,7 @@ namespace theoretica {
 
 			m(0, 0) = c + Rx * Rx * cm1;
 			m(0, 1) = Rx * Ry * cm1 - Rz * s;
-			m(0, 2) = Rx * Rz * cm1 - Ry * s;
+			m(0, 2) = Rx * Rz * cm1 + Ry * s;
 
 			m(1, 0) = Ry * Rx * cm1 + Rz * s;
 			m(1, 1) = c + Ry * Ry * cm1;
-- 
2.43.0


From b31e47683505eaeb8d66ef0b3b128808330a31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:58 +0000
Subject: [PATCH 054/180] fix: rotation_3d is not a rotation when the axis is
 not a unit vector

---
 src/algebra/transform.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 1e8ed94..790dd42 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -188,9 +188,19 @@ namespace theoretica {
 			const real s = sin(theta);
 			const real c = cos(theta);
 
-			const real Rx = (real) axis[0];
-			const real Ry = (real) axis[1];
-			const real Rz = (real) axis[2];
+			// Only the direction of the axis matters
+			const real length = sqrt(
+				square((real) axis[0]) + square((real) axis[1]) + square((real) axis[2]));
+
+			if(length < MACH_EPSILON) {
+				TH_MATH_ERROR("algebra::rotation_3d", length, DIV_BY_ZERO);
+				mat_error(m);
+				return m;
+			}
+
+			const real Rx = (real) axis[0] / length;
+			const real Ry = (real) axis[1] / length;
+			const real Rz = (real) axis[2] / length;
 
 			const real cm1 = (1 - c);
 
-- 
2.43.0


From afdcb9df33e9ba6748d67c3e7d020c6b32670148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:58 +0000
Subject: [PATCH 055/180] fix: projection matrices are transposed and ortho
 misses the homogeneous element

---
 src/algebra/transform.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 790dd42..a72ecdb 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -387,12 +387,12 @@ namespace theoretica {
 			mat_zeroes(m);
 
 			m(0, 0)  = 2 * near / (right - left);
-			m(2, 0)  = (right + left) / (right - left);
+			m(0, 2)  = (right + left) / (right - left);
 			m(1, 1)  = 2 * near / (top - bottom);
-			m(2, 1)  = (top + bottom) / (top - bottom);
+			m(1, 2)  = (top + bottom) / (top - bottom);
 			m(2, 2) = -(far + near) / (far - near);
-			m(3, 2) = -(2 * far * near) / (far - near);
-			m(2, 3) = -1;
+			m(2, 3) = -(2 * far * near) / (far - near);
+			m(3, 2) = -1;
 			m(3, 3) = 0;
 
 			return m;
@@ -455,11 +455,12 @@ namespace theoretica {
 			mat_zeroes(m);
 
 			m(0, 0)  = 2 / (right - left);
-			m(3, 0)  = -(right + left) / (right - left);
+			m(0, 3)  = -(right + left) / (right - left);
 			m(1, 1)  = 2 / (top - bottom);
-			m(3, 1)  = -(top + bottom) / (top - bottom);
+			m(1, 3)  = -(top + bottom) / (top - bottom);
 			m(2, 2) = -2 / (far - near);
-			m(3, 2) = -(far + near) / (far - near);
+			m(2, 3) = -(far + near) / (far - near);
+			m(3, 3) = 1;
 
 			return m;
 		}
-- 
2.43.0


From c01b59ddb56c9cc723c31f0dce7f80e2cc6904c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:58 +0000
Subject: [PATCH 056/180] fix: perspective_fov gives an error for dynamic
 matrices of the right size

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index a72ecdb..b3ac452 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -425,7 +425,7 @@ namespace theoretica {
 			const real height = near * tan(radians(fov / 2.f));
 			const real width = height * aspect;
 
-			return perspective<Matrix>(-width, width, -height, height, near, far);
+			return perspective<Matrix>(-width, width, -height, height, near, far, m.rows(), m.cols());
 		}
 
 
-- 
2.43.0


From 425d577034fd1b6c5a65bfd5bcdbc3feb10d3c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:58 +0000
Subject: [PATCH 057/180] fix: look_at reads outside the axis vectors and
 misses their first component

---
 src/algebra/transform.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index b3ac452..6189b9b 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -498,19 +498,19 @@ namespace theoretica {
 			Matrix m;
 			m.resize(4, 4);
 
-			m(0, 0) = x_axis[1];
-			m(0, 1) = x_axis[2];
-			m(0, 2) = x_axis[3];
+			m(0, 0) = x_axis[0];
+			m(0, 1) = x_axis[1];
+			m(0, 2) = x_axis[2];
 			m(0, 3) = dot(camera, vec_scalmul(-1.0, x_axis));
 
-			m(1, 0) = y_axis[1];
-			m(1, 1) = y_axis[2];
-			m(1, 2) = y_axis[3];
+			m(1, 0) = y_axis[0];
+			m(1, 1) = y_axis[1];
+			m(1, 2) = y_axis[2];
 			m(1, 3) = dot(camera, vec_scalmul(-1.0, y_axis));
 
-			m(2, 0) = z_axis[1];
-			m(2, 1) = z_axis[2];
-			m(2, 2) = z_axis[3];
+			m(2, 0) = z_axis[0];
+			m(2, 1) = z_axis[1];
+			m(2, 2) = z_axis[2];
 			m(2, 3) = dot(camera, vec_scalmul(-1.0, z_axis));
 
 			m(3, 0) = 0;
-- 
2.43.0


From 863863e35b09969cd824c33d0f00ff3fbd572bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:58 +0000
Subject: [PATCH 058/180] fix: symplectic accepts odd and rectangular matrices
 of fixed size

---
 src/algebra/transform.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 6189b9b..c284645 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -530,8 +530,8 @@ namespace theoretica {
 			if(rows && cols)
 				m.resize(rows, cols);
 
-			if(rows != cols || (rows % 2 != 0)) {
-				TH_MATH_ERROR("algebra::symplectic", rows, INVALID_ARGUMENT);
+			if(m.rows() != m.cols() || (m.rows() % 2 != 0)) {
+				TH_MATH_ERROR("algebra::symplectic", m.rows(), INVALID_ARGUMENT);
 				mat_error(m);
 				return m;
 			}
-- 
2.43.0


From 31e79c9b3a56b5482b0a1d8ca508f5af5e13bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:00 +0000
Subject: [PATCH 059/180] fix: l2_norm and linf_norm read outside empty vectors

---
 src/algebra/distance.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 3c7be56..fffe5e0 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -66,6 +66,9 @@ namespace theoretica {
 		template<typename Vector>
 		inline real l2_norm(const Vector& v) {
 
+			if(!v.size())
+				return 0;
+
 			auto sum = pair_inner_product(v[0], v[0]);
 
 			for (unsigned int i = 1; i < v.size(); ++i)
@@ -83,6 +86,9 @@ namespace theoretica {
 		template<typename Vector>
 		inline real linf_norm(const Vector& v) {
 
+			if(!v.size())
+				return 0;
+
 			real res = abs(v[0]);
 
 			for (unsigned int i = 1; i < v.size(); ++i)
-- 
2.43.0


From c28fff80100ca8ee3acc3620f371a002bd219c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:00 +0000
Subject: [PATCH 060/180] fix: hermitian_distance of a vector from itself is
 not null

---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index fffe5e0..0f02472 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -213,7 +213,7 @@ namespace theoretica {
 			complex<T> sum = 0;
 
 			for (size_t i = 0; i < v1.size(); ++i) {
-				const complex<T> diff = v1[i] - conjugate(v2[i]);
+				const complex<T> diff = v1[i] - v2[i];
 				sum += diff * diff.conjugate();
 			}
 
-- 
2.43.0


From c7eb6e89d7c64fe70cd1b6ef5a3a72674d71004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:00 +0000
Subject: [PATCH 061/180] fix: canberra_distance is NaN when both vectors have
 a null element

---
 src/algebra/distance.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 0f02472..e107f67 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -318,8 +318,14 @@ namespace theoretica {
 
 			real sum = 0;
 
-			for (size_t i = 0; i < v1.size(); ++i)
-				sum += abs(v1[i] - v2[i]) / (abs(v1[i]) + abs(v2[i]));
+			for (size_t i = 0; i < v1.size(); ++i) {
+
+				const real total = abs(v1[i]) + abs(v2[i]);
+
+				// Equal null elements do not contribute
+				if(total != 0)
+					sum += abs(v1[i] - v2[i]) / total;
+			}
 
 			return sum;
 		}
-- 
2.43.0


From 380ee331f54b66e97cfb4e4165e580d01e3bc265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:00 +0000
Subject: [PATCH 062/180] fix: cosine_distance returns the cosine similarity,
 which is 1 for equal vectors

---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index e107f67..f3db856 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -354,7 +354,7 @@ namespace theoretica {
 				sum_sqr_y += square(v2[i]);
 			}
 
-			return product / sqrt(sum_sqr_x * sum_sqr_y);
+			return 1 - product / sqrt(sum_sqr_x * sum_sqr_y);
 		}
 
 
-- 
2.43.0


From cb5708c7841d409d0a4d9ee31514b9c263bf2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:59 +0000
Subject: [PATCH 063/180] fix: fft reports no error for sizes which are not a
 power of two and shifts out of range for empty vectors

---
 src/signal/fft.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/signal/fft.h b/src/signal/fft.h
index 5d6eefc..3d627d3 100644
--- a/src/signal/fft.h
+++ b/src/signal/fft.h
@@ -33,11 +33,16 @@ namespace theoretica {
 			const unsigned int N = x.size();
 			const real sign = (inverse ? 1.0 : -1.0);
 
+			// The transform of an empty vector is empty
+			if (N == 0)
+				return k;
+
 			// Compute the logarithm of the size
 			const unsigned int log2N = ilog2(N);
 
 			// Enforce power of 2 vector size
-			if (N != (unsigned int) (1 << log2N)) {
+			if (N != (1u << log2N)) {
+				TH_MATH_ERROR("signal::fft", N, INVALID_ARGUMENT);
 				return algebra::vec_error(k);
 			}
 
-- 
2.43.0


From f147563a45af1aa60986a1c47d9560b06247d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:59 +0000
Subject: [PATCH 064/180] fix: operator*= and operator/= of dual use the
 overwritten real part for the dual part

---
 src/autodiff/dual.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index d6f337d..a237db8 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -215,8 +215,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual& operator*=(const dual& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
+				*this = operator*(other);
 				return *this;
 			}
 
@@ -231,8 +230,7 @@ namespace theoretica {
 			/// Divide this dual number by another one
 			inline dual& operator/=(const dual& other) {
 
-				a = (a / other.a);
-				b = (b * other.a - a * other.b) / square(other.a);
+				*this = operator/(other);
 				return *this;
 			}
 
-- 
2.43.0


From 61bc17dc548289719f10891150180660600035d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:59 +0000
Subject: [PATCH 065/180] fix: division of a dual number by zero reports no
 error and gives infinite values

---
 src/autodiff/dual.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index a237db8..ba93d4f 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -171,12 +171,24 @@ namespace theoretica {
 
 			/// Dual division
 			inline dual operator/(const dual& other) const {
+
+				if(other.a == 0) {
+					TH_MATH_ERROR("dual::operator/", other.a, DIV_BY_ZERO);
+					return dual(nan(), nan());
+				}
+
 				return dual(a / other.a,
 					(b * other.a - a * other.b) / square(other.a));
 			}
 
 			/// Divide a dual number by a real number
 			inline dual operator/(real r) const {
+
+				if(r == 0) {
+					TH_MATH_ERROR("dual::operator/", r, DIV_BY_ZERO);
+					return dual(nan(), nan());
+				}
+
 				return dual(a / r, b / r);
 			}
 
-- 
2.43.0


From 2fd95ab9216dc42c9c050a06412f1bfd8d6630bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:59 +0000
Subject: [PATCH 066/180] fix: tanh of a dual number has a derivative four
 times too small

---
 src/autodiff/dual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index c247a5e..f63506d 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -218,7 +218,7 @@ namespace theoretica {
 		const real exp_x = exp(x.Re());
 		return dual(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x)
+			4.0 * x.Dual() / square(exp_x + 1.0 / exp_x)
 		);
 	}
 
-- 
2.43.0


From 05c274037e65987f3f1f34694854b24b0b14e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:59 +0000
Subject: [PATCH 067/180] fix: asin and acos of dual numbers do not report the
 lower end of the domain

---
 src/autodiff/dual_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index f63506d..4d330ad 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -157,7 +157,7 @@ namespace theoretica {
 	/// Compute the arcsine of a dual number
 	inline dual asin(dual x) {
 
-		if(x.Re() >= 1) {
+		if(x.Re() >= 1 || x.Re() <= -1) {
 			TH_MATH_ERROR("asin(dual)", x.Re(), OUT_OF_DOMAIN);
 			return dual(nan(), nan());
 		}
@@ -169,7 +169,7 @@ namespace theoretica {
 	/// Compute the arccosine of a dual number
 	inline dual acos(dual x) {
 
-		if(x.Re() >= 1) {
+		if(x.Re() >= 1 || x.Re() <= -1) {
 			TH_MATH_ERROR("acos(dual)", x.Re(), OUT_OF_DOMAIN);
 			return dual(nan(), nan());
 		}
-- 
2.43.0


From cde6356af251b23570ade6ef06a090ed95bacdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:01 +0000
Subject: [PATCH 068/180] fix: pow(dual, 0) is NaN when the real part is null

---
 src/autodiff/dual_functions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index 4d330ad..6c55408 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -45,6 +45,9 @@ namespace theoretica {
 	/// Compute the n-th power of a dual number
 	inline dual pow(dual x, int n) {
 
+		if(n == 0)
+			return dual(1.0, 0.0);
+
 		const real pow_n_1_x = pow(x.Re(), n - 1);
 		return dual(pow_n_1_x * x.Re(), pow_n_1_x * n * x.Dual());
 	}
-- 
2.43.0


From b7ef55eb9804a08eb78c1e789e115a3ee62eb879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:26 +0000
Subject: [PATCH 069/180] fix: LOG10E, LN2 and LN10 are truncated to twelve
 digits

---
 src/core/constants.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/constants.h b/src/core/constants.h
index 4aa399a..ca8cf32 100644
--- a/src/core/constants.h
+++ b/src/core/constants.h
@@ -243,13 +243,13 @@ namespace theoretica {
 	constexpr real LOG210 = 3.32192809488736218170856773213;
 
 	/// The base-10 logarithm of e
-	constexpr real LOG10E = 0.434294481903;
+	constexpr real LOG10E = 0.43429448190325182765;
 
 	/// The natural logarithm of 2
-	constexpr real LN2 = 0.69314718056;
+	constexpr real LN2 = 0.69314718055994530942;
 
 	/// The natural logarithm of 10
-	constexpr real LN10 = 2.30258509299;
+	constexpr real LN10 = 2.30258509299404568402;
 
 	/// The scalar conversion factor from degrees to radians
 	constexpr real DEG2RAD = 0.017453292519943295474371680598;
-- 
2.43.0


From 967cb0aa0e47412302e5fc79494de918dc1026b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 070/180] fix: operator*= of dual2 uses the overwritten parts

---
 src/autodiff/dual2.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 21ebe43..4310ec7 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -207,9 +207,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual2& operator*=(const dual2& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
-				c = (a * other.c) + (2 * b * other.b) + (c * other.a);
+				*this = operator*(other);
 				return *this;
 			}
 
-- 
2.43.0


From 6ba9431dc5a679a7a34b014e204356c378e4b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 071/180] fix: the inverse of dual2 has a wrong second-order
 part, so quotients have wrong second derivatives

---
 src/autodiff/dual2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 4310ec7..39fb1aa 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -109,7 +109,7 @@ namespace theoretica {
 					return dual2(nan(), nan(), nan());
 				}
 
-				return dual2(1.0 / a, -b / square(a), 2 * b / cube(a));
+				return dual2(1.0 / a, -b / square(a), 2 * square(b) / cube(a) - c / square(a));
 			}
 
 			/// Identity (for consistency)
-- 
2.43.0


From e9483bb2eb6fa7559bf89345d38a7b91db28eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 072/180] fix: pow of dual2 multiplies the second-order part
 twice by the first-order part and is NaN at zero for n = 0 and 1

---
 src/autodiff/dual2_functions.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 00211a5..fd377c1 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -40,13 +40,19 @@ namespace theoretica {
 	/// Compute the n-th power of a second order dual number
 	inline dual2 pow(dual2 x, int n) {
 
+		if(n == 0)
+			return dual2(1.0, 0.0, 0.0);
+
+		if(n == 1)
+			return x;
+
 		const real pow_n_2_x = pow(x.Re(), n - 2);
 
 		real f = pow_n_2_x * square(x.Re());
-		real df = pow_n_2_x * x.Re() * n * x.Dual1();
+		real df = pow_n_2_x * x.Re() * n;
 		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1()) + df * x.Dual2();
 
-		return dual2(f, df, d2f);
+		return dual2(f, df * x.Dual1(), d2f);
 	}
 
 
-- 
2.43.0


From c05426bd1c60a5fc28f81f4c57d652af19080037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 073/180] fix: abs of dual2 drops the second-order part

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index fd377c1..53b5d86 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -202,7 +202,7 @@ namespace theoretica {
 
 	/// Compute the absolute value of a second order dual number
 	inline dual2 abs(dual2 x) {
-		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), 0);
+		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), x.Dual2() * sgn(x.Re()));
 	}
 
 
-- 
2.43.0


From 9bc337e01b9f275432f2308c29bb90bfd221c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 074/180] fix: the second derivative of atan has the wrong sign

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 53b5d86..42e4933 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -250,7 +250,7 @@ namespace theoretica {
 		return dual2(
 			atan(x.Re()),
 			x.Dual1() / (1 + square(x.Re())),
-			square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
+			-square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
 				+ x.Dual2() / (1 + square(x.Re()))
 		);
 	}
-- 
2.43.0


From f569dcd4aed4623a9457bc8b765168cf3e9b8c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 075/180] fix: asin and acos of dual2 do not report the lower
 end of the domain

---
 src/autodiff/dual2_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 42e4933..84a0033 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -209,7 +209,7 @@ namespace theoretica {
 	/// Compute the arcsine of a second order dual number
 	inline dual2 asin(dual2 x) {
 
-		if(x.Re() >= 1) {
+		if(x.Re() >= 1 || x.Re() <= -1) {
 			TH_MATH_ERROR("asin(dual2)", x.Re(), OUT_OF_DOMAIN);
 			return dual2(nan(), nan());
 		}
@@ -228,7 +228,7 @@ namespace theoretica {
 	/// Compute the arcosine of a second order dual number
 	inline dual2 acos(dual2 x) {
 
-		if(x.Re() >= 1) {
+		if(x.Re() >= 1 || x.Re() <= -1) {
 			TH_MATH_ERROR("acos(dual2)", x.Re(), OUT_OF_DOMAIN);
 			return dual2(nan(), nan());
 		}
-- 
2.43.0


From 4320db72efe279bcbda38de613a0beb69b9dde44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 076/180] fix: functions of dual2 outside the domain return a
 null second derivative

---
 src/autodiff/dual2_functions.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 84a0033..b80db69 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -63,7 +63,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(dual2)", sqrt_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -110,7 +110,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(dual2)", cos_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -129,7 +129,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(dual2)", sin_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -158,7 +158,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(ln(x.Re()),
@@ -173,7 +173,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -189,7 +189,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -211,7 +211,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1 || x.Re() <= -1) {
 			TH_MATH_ERROR("asin(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		const real sqrt_1mx2 = sqrt(1 - square(x.Re()));
@@ -230,7 +230,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1 || x.Re() <= -1) {
 			TH_MATH_ERROR("acos(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		const real sqrt_1mx2 = sqrt(1 - square(x.Re()));
-- 
2.43.0


From d5d71b5fca2679456aa03ab1b8f4de59cc8d2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:35 +0000
Subject: [PATCH 077/180] fix: operator*= and operator/= of multidual use the
 overwritten real part

---
 src/autodiff/multidual.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index f185adf..ff8dfc6 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -205,8 +205,7 @@ namespace theoretica {
 			/// Multiply this multidual number by another one
 			inline multidual& operator*=(const multidual& other) {
 
-				a = (a * other.a);
-				v = (other.v * a) + (v * other.a);
+				*this = operator*(other);
 				return *this;
 			}
 
@@ -221,8 +220,7 @@ namespace theoretica {
 			/// Divide this multidual number by another one
 			inline multidual& operator/=(const multidual& other) {
 
-				a = (a / other.a);
-				v = (v * other.a - other.v * a) / (other.a * other.a);
+				*this = operator/(other);
 				return *this;
 			}
 
-- 
2.43.0


From aacfb70b5bbf75feac28a049ca8abbdd5ad6b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:35 +0000
Subject: [PATCH 078/180] fix: division of multidual rejects a null numerator
 instead of a null denominator

---
 src/autodiff/multidual.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index ff8dfc6..3b18ae3 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -156,9 +156,9 @@ namespace theoretica {
 			/// Dual division
 			inline multidual operator/(const multidual& other) const {
 
-				if(a == 0) {
+				if(other.a == 0) {
 					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(nan(), N));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(a / other.a,
@@ -167,6 +167,12 @@ namespace theoretica {
 
 			/// Divide a multidual number by a real number
 			inline multidual operator/(real r) const {
+
+				if(r == 0) {
+					TH_MATH_ERROR("multidual::operator/", r, DIV_BY_ZERO);
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
+				}
+
 				return multidual(a / r, v / r);
 			}
 
-- 
2.43.0


From d32199ff6b089247755e137abc9b06dcc1517e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:35 +0000
Subject: [PATCH 079/180] fix: errors of multidual convert NaN to the size of
 the dual part

---
 src/autodiff/multidual.h           |  4 ++--
 src/autodiff/multidual_functions.h | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 3b18ae3..9870a14 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -98,7 +98,7 @@ namespace theoretica {
 
 				if(a == 0) {
 					TH_MATH_ERROR("multidual::inverse", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(N, nan()));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(1.0 / a, v * (-1 / (a * a)));
@@ -236,7 +236,7 @@ namespace theoretica {
 				if(r == 0) {
 					TH_MATH_ERROR("multidual::operator/=", 0, DIV_BY_ZERO);
 					a = nan();
-					v = vec<real, N>(nan(), N);
+					v = vec<real, N>(v.size(), nan());
 					return *this;
 				}
 
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index d9cb67a..73b594a 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -51,7 +51,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(multidual)", sqrt_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(sqrt_x, x.Dual() * 0.5 / sqrt_x);
@@ -80,7 +80,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(multidual)", cos_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(tan(x.Re()), x.Dual() / square(cos_x));
@@ -95,7 +95,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(multidual)", sin_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(cot(x.Re()), x.Dual() * (-1 / square(sin_x)));
@@ -116,7 +116,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(ln(x.Re()), x.Dual() / x.Re());
@@ -129,7 +129,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(log2(x.Re()), x.Dual() * LOG2E / x.Re());
@@ -142,7 +142,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(log10(x.Re()), x.Dual() * LOG10E / x.Re());
@@ -162,7 +162,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(asin(x.Re()), x.Dual() / sqrt(1 - square(x.Re())));
@@ -175,7 +175,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
 
 		return multidual<N>(acos(x.Re()), x.Dual() * (-1 / sqrt(1 - square(x.Re()))));
-- 
2.43.0


From 2ef35cd9edcf282423dc1a6d6eef61b86630f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:35 +0000
Subject: [PATCH 080/180] fix: asin and acos of multidual do not report the
 lower end of the domain

---
 src/autodiff/multidual_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 73b594a..d8e1c99 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -160,7 +160,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> asin(multidual<N> x) {
 
-		if(x.Re() >= 1) {
+		if(x.Re() >= 1 || x.Re() <= -1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
 			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
@@ -173,7 +173,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> acos(multidual<N> x) {
 
-		if(x.Re() >= 1) {
+		if(x.Re() >= 1 || x.Re() <= -1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
 			return multidual<N>(nan(), vec<real, N>(x.size(), nan()));
 		}
-- 
2.43.0


From 12fd014d476af6fe93dfe25ff1a76f7586bef98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:35 +0000
Subject: [PATCH 081/180] fix: tanh of multidual has a derivative four times
 too small

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index d8e1c99..84a8c43 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -213,7 +213,7 @@ namespace theoretica {
 		real exp_x = exp(x.Re());
 		return multidual<N>(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x));
+			x.Dual() * 4.0 / square(exp_x + 1.0 / exp_x));
 	}
 
 }
-- 
2.43.0


From 7b2fce18034cd0bdd53cf79c2ee90a08b89028ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:35 +0000
Subject: [PATCH 082/180] fix: pow(multidual, 0) is NaN when the real part is
 null

---
 src/autodiff/multidual_functions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 84a8c43..69627b6 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -38,6 +38,10 @@ namespace theoretica {
 	/// Compute the n-th power of a multidual number
 	template<unsigned int N>
 	multidual<N> pow(multidual<N> x, int n) {
+
+		if(n == 0)
+			return multidual<N>(1.0, vec<real, N>(x.size(), 0.0));
+
 		real pow_n_1_x = pow(x.Re(), n - 1);
 		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
 	}
-- 
2.43.0


From 6d053a78f1adf038fe0d8aed445b3c700aa8ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:35 +0000
Subject: [PATCH 083/180] fix: extract functions of multidual skip every
 element of dynamic vectors

---
 src/autodiff/multidual.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 9870a14..7bf17ea 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -280,7 +280,7 @@ namespace theoretica {
 				vec<real, N> x;
 				x.resize(v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
+				for (unsigned int i = 0; i < v.size(); ++i)
 					x[i] = v.get(i).Re();
 
 				return x;
@@ -296,8 +296,8 @@ namespace theoretica {
 				mat<real, N, N> J;
 				J.resize(v.size(), v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
-					for (unsigned int j = 0; j < N; ++j)
+				for (unsigned int i = 0; i < v.size(); ++i)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 				
 				return J;
@@ -312,9 +312,12 @@ namespace theoretica {
 				vec<real, N>& x,
 				mat<real, N, N>& J) {
 
-				for (unsigned int i = 0; i < N; ++i) {
+				x.resize(v.size());
+				J.resize(v.size(), v.size());
+
+				for (unsigned int i = 0; i < v.size(); ++i) {
 					
-					for (unsigned int j = 0; j < N; ++j)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 					
 					x[i] = v.get(i).Re();
-- 
2.43.0


From bb16ff2b103bf8fe0e599b771ee83ef86bf39d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:18 +0000
Subject: [PATCH 084/180] fix: curl converts NaN to the size of the result when
 the dimension is not three

---
 src/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 88d1a7b..f243d1a 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -288,7 +288,7 @@ namespace theoretica {
 
 			if(x.size() != 3) {
 				TH_MATH_ERROR("th::curl", x.size(), INVALID_ARGUMENT);
-				return vec<real, N>(nan(), x.size());
+				return vec<real, N>(x.size(), nan());
 			}
 
 			mat<real, N, N> J = jacobian<N, N>(f, x);
-- 
2.43.0


From d76d6d9fb146815a9ed167b327b74602b9960c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:26 +0000
Subject: [PATCH 085/180] fix: pow of dynamic multidual numbers does not
 compile

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 69627b6..a7be6f5 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -43,7 +43,7 @@ namespace theoretica {
 			return multidual<N>(1.0, vec<real, N>(x.size(), 0.0));
 
 		real pow_n_1_x = pow(x.Re(), n - 1);
-		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
+		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * (pow_n_1_x * n));
 	}
 
 
-- 
2.43.0


From 22ae6e7b0ff04e007580b72663c93d42af7ed396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:32 +0000
Subject: [PATCH 086/180] fix: abs of dynamic multidual numbers does not
 compile

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index a7be6f5..25845a3 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -156,7 +156,7 @@ namespace theoretica {
 	/// Compute the absolute value of a multidual number
 	template<unsigned int N>
 	multidual<N> abs(multidual<N> x) {
-		return multidual<N>(abs(x.Re()), x.Dual() * sgn(x.Re()));
+		return multidual<N>(abs(x.Re()), x.Dual() * real(sgn(x.Re())));
 	}
 
 
-- 
2.43.0


From 9b972df02466862a9736b21ae536da5a969dc52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:34 +0000
Subject: [PATCH 087/180] fix: the second derivative of cot has the wrong sign

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index b80db69..c4aed22 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -135,7 +135,7 @@ namespace theoretica {
 		return dual2(
 			cot(x.Re()),
 			-x.Dual1() / square(sin_x),
-			-2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
+			2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
 		);
 	}
 
-- 
2.43.0


From d464d7478b30a61d15b8562b0626d1cf73de032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:57 +0000
Subject: [PATCH 088/180] fix: sturm_liouville does not compile

---
 src/autodiff/autodiff.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index f243d1a..4422800 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -437,8 +437,8 @@ namespace theoretica {
 			vec<real, N> eta) {
 
 			return gradient(f, eta)
-				 * mat<real, N, N>::symplectic(eta.size(), eta.size())
-				 * gradient(H, eta);
+				 * (algebra::symplectic<mat<real, N, N>>(eta.size(), eta.size())
+				 * gradient(H, eta));
 		}
 
 	}
-- 
2.43.0


From 6b600d561f5e3aa47b687016cc0c85d5d5a4a8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:57 +0000
Subject: [PATCH 089/180] fix: directional_derivative does not compile

---
 src/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 4422800..b0338b4 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -341,7 +341,7 @@ namespace theoretica {
 		inline vec<real, N> directional_derivative(multidual<N>(*f)(vec<multidual<N>, N>),
 			const vec<real, N>& x, const vec<real, N>& v) {
 
-			return v * dot(v, gradient(f, x));
+			return v * algebra::dot(v, gradient(f, x));
 		}
 
 
-- 
2.43.0


From e34e65b490bdc350d8d2e47053c352d6883e240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:56 +0000
Subject: [PATCH 090/180] fix: legendre_roots returns repeated roots from
 degree 6 on, so Gauss-Legendre quadrature is wrong for those orders

---
 src/polynomial/orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 56fac7c..5111af5 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -260,7 +260,7 @@ namespace theoretica {
 
 		for (unsigned int i = 1; i <= n; ++i) {
 			roots.push_back(
-				root_newton(P, deriv(P), (2.0 / (n + 1)) * i - 1.0)
+				root_newton(P, deriv(P), -cos(PI * (i - 0.25) / (n + 0.5)))
 			);
 		}
 
-- 
2.43.0


From 1c827bc672c69e387dfc551e678b0fd0c1bdd266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:56 +0000
Subject: [PATCH 091/180] fix: integral_simpson with an odd number of steps
 does not approximate the integral

---
 src/calculus/integral.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index a74fd4c..d2abde0 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -130,7 +130,11 @@ namespace theoretica {
 			TH_MATH_ERROR("integral_simpson", steps, DIV_BY_ZERO);
 			return nan();
 		}
-		
+
+		// The rule needs an even number of steps
+		if(steps % 2 != 0)
+			steps++;
+
 		const real dx = (b - a) / (real) steps;
 		real res = 0;
 
-- 
2.43.0


From 3ca856d26cfec76d4520b5b31208c19c362c838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:56 +0000
Subject: [PATCH 092/180] fix: integral_romberg with no iterations reads
 outside its table

---
 src/calculus/integral.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index d2abde0..e1cdacf 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -168,6 +168,11 @@ namespace theoretica {
 		real a, real b,
 		unsigned int iter = 8) {
 
+		if(iter == 0) {
+			TH_MATH_ERROR("integral_romberg", iter, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real T[iter][iter];
 
 		T[0][0] = (f(a) + f(b)) * (b - a) / 2.0;
-- 
2.43.0


From 4e4b34ec072b1d854571ef578487d1535c517187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:56 +0000
Subject: [PATCH 093/180] fix: integral_legendre reads outside the weights when
 there are less weights than nodes

---
 src/calculus/integral.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index e1cdacf..dbce440 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -336,6 +336,11 @@ namespace theoretica {
 		RealFunction f, real a, real b,
 		const std::vector<real>& x, const std::vector<real>& w) {
 
+		if(x.size() != w.size()) {
+			TH_MATH_ERROR("integral_legendre", x.size(), INVALID_ARGUMENT);
+			return nan();
+		}
+
 		const real mean = (b + a) / 2.0;
 		const real halfdiff = (b - a) / 2.0;
 
-- 
2.43.0


From 92cdc0589a821659634638060fadc45cc334f507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:56 +0000
Subject: [PATCH 094/180] fix: integral_inf_riemann reports no convergence when
 the last allowed step converges

---
 src/calculus/integral.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index dbce440..677d96f 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -528,7 +528,7 @@ namespace theoretica {
 		// Number of steps performed
 		unsigned int i = 0;
 
-		while(abs(delta) > tol && i <= max_iter) {
+		while(abs(delta) > tol && i < max_iter) {
 
 			delta = integral_romberg_tol(f, x_n, x_n + step_sz, tol);
 			sum += delta;
@@ -536,7 +536,7 @@ namespace theoretica {
 			i++;
 		}
 
-		if(i >= max_iter) {
+		if(abs(delta) > tol) {
 			TH_MATH_ERROR("integral_inf_riemann", i, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
-- 
2.43.0


From 0eb35f6132b4411c209fd84d6dda65cdc5dab018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:44 +0000
Subject: [PATCH 095/180] fix: the last stage of Kutta's 3/8 rule uses the
 first slope in place of the third

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 5b599b2..6816966 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -238,7 +238,7 @@ namespace theoretica {
 			const Vector k1 = f(t, x);
 			const Vector k2 = f(t + (h / 3.0), x + k1 * (h / 3.0));
 			const Vector k3 = f(t + (h * 2.0 / 3.0), x + h * (-k1 / 3.0 + k2));
-			const Vector k4 = f(t + h, x + h * (k1 - k2 + k1));
+			const Vector k4 = f(t + h, x + h * (k1 - k2 + k3));
 
 			return x + (k1 + 3.0 * k2 + 3.0 * k3 + k4) * (h / 8.0);
 		}
-- 
2.43.0


From c9c3f3bd5074e92b54c19ac80313f32d5f362499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:44 +0000
Subject: [PATCH 096/180] fix: the Adams-Bashforth method of third order has a
 wrong last coefficient

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 6816966..3c07f9d 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -279,7 +279,7 @@ namespace theoretica {
 			const Vector& x2, real t2, real h = 0.001) {
 
 			return x2 + h *	(
-				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (3. / 8.) * f(t0, x0)
+				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (5. / 12.) * f(t0, x0)
 			);
 		}
 
-- 
2.43.0


From 0a83bb8fbe52adae73811e5254de18db1db7bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:44 +0000
Subject: [PATCH 097/180] fix: solve_fixstep converts NaN to the size of its
 result when the final time precedes the initial one

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 3c07f9d..dab80a5 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -315,7 +315,7 @@ namespace theoretica {
 
 			if (tf < t0) {
 				TH_MATH_ERROR("ode::solve_fixstep", tf, INVALID_ARGUMENT);
-				ode_solution_t<Vector> err; err.t = Vector(nan());
+				ode_solution_t<Vector> err; err.t = vec<real>(1, nan());
 				return err;
 			}
 
-- 
2.43.0


From 3a4bb631954c2870b979d888a1add19ef4b632ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:44 +0000
Subject: [PATCH 098/180] fix: solve_fixstep accepts null and negative step
 sizes, for which the number of steps is undefined

---
 src/calculus/ode.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index dab80a5..23fcd5f 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -319,6 +319,12 @@ namespace theoretica {
 				return err;
 			}
 
+			if (stepsize <= 0) {
+				TH_MATH_ERROR("ode::solve_fixstep", stepsize, INVALID_ARGUMENT);
+				ode_solution_t<Vector> err; err.t = vec<real>(1, nan());
+				return err;
+			}
+
 			const unsigned int steps = floor((tf - t0) / stepsize);
 			unsigned int total_steps = steps;
 			unsigned int i;
-- 
2.43.0


From e7127cbab852e6e905ba1323dae73a85a76aca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:44 +0000
Subject: [PATCH 099/180] fix: deriv_ridders of degree zero reads outside its
 table

---
 src/calculus/deriv.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/deriv.h b/src/calculus/deriv.h
index c0d0983..563d002 100644
--- a/src/calculus/deriv.h
+++ b/src/calculus/deriv.h
@@ -137,6 +137,11 @@ namespace theoretica {
 	>
 	inline real deriv_ridders(RealFunction f, real x, real h = 0.01, unsigned int degree = 3) {
 
+		if(degree == 0) {
+			TH_MATH_ERROR("deriv_ridders", degree, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real A[degree][degree];
 
 		for (unsigned int i = 0; i < degree; ++i) {
-- 
2.43.0


From 380dc8ad8c1338dda0ba0e53c5cbac72a5ce699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:46 +0000
Subject: [PATCH 100/180] fix: root_bisect returned 0 for a short interval and
 otherwise an end of the bracket, up to twice the tolerance from the root

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 4d07d06..3b9fbf0 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -93,7 +93,7 @@ namespace theoretica {
 			return nan();
 		}
 
-		return x_avg;
+		return (x_max + x_min) / 2.0;
 	}
 
 
-- 
2.43.0


From ab7f8d8f30727697d3f5540255c2de60883e3958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:47 +0000
Subject: [PATCH 101/180] fix: root_steffensen never converged (shadowed f_x)
 and divided by zero at an exact root

---
 src/optimization/roots.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 3b9fbf0..3828189 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -426,7 +426,12 @@ namespace theoretica {
 
 		while(abs(f_x) > tol && iter <= max_iter) {
 
-			const real f_x = f(x);
+			f_x = f(x);
+
+			// Stop at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
-- 
2.43.0


From 5e5537a551cd655c81965fc6aa6284ef56c16a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:47 +0000
Subject: [PATCH 102/180] fix: root_ostrowski divided by zero at an exact root
 and returned NaN, even for linear functions

---
 src/optimization/roots.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 3828189..8932d4f 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -572,6 +572,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// Stop at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = f(x - u);
-- 
2.43.0


From b4354ef39592a38240031e8b342eef98d784def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:47 +0000
Subject: [PATCH 103/180] fix: complex root_newton did not compile (undefined
 df, ordering of complex numbers)

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 8932d4f..c8efd49 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -302,10 +302,10 @@ namespace theoretica {
 		complex<Type> f_z = Type(inf());
 		unsigned int iter = 0;
 
-		while(f_z * f_z.conjugate() > tol * tol && iter <= max_iter) {
+		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
-			z = z - (f_z / df(z));
+			z = z - (f_z / Df(z));
 			iter++;
 		}
 
-- 
2.43.0


From 830cf314b39dc195753c6200effc2cf07c211980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:58 +0000
Subject: [PATCH 104/180] fix: roots of a polynomial did not compile (division
 of a const argument) and read coefficient 0 of an empty polynomial

---
 src/optimization/roots.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index c8efd49..1f2bc5c 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -712,15 +712,19 @@ namespace theoretica {
 
 		// Effective order of the polynomial
 		const unsigned int n = p.find_order();
-		p /= p.coeff[n];
+
+		// A constant polynomial has no isolated roots
+		if(n == 0)
+			return {};
 
 		// Absolute value of the highest coefficient
-		Field a_hi = abs(p.coeff[n]);
+		// of the monic polynomial
+		Field a_hi = 1;
 		Field a_sum = 0;
 
 		// Sum the absolute values of the lesser coefficients
 		for (unsigned int i = 0; i < n; ++i)
-			a_sum += abs(p.coeff[i]);
+			a_sum += abs(p.coeff[i] / p.coeff[n]);
 
 		// The roots are bounded in absolute value by the maximum
 		const Field M = max(a_hi, a_sum);
-- 
2.43.0


From da68de32a68fb4e94af06482bf017838e56dd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:24 +0000
Subject: [PATCH 105/180] fix: multiroot_newton with dynamic vectors built its
 error result from a NaN size

---
 src/optimization/multi_roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/multi_roots.h b/src/optimization/multi_roots.h
index 20e55ee..7d40c51 100644
--- a/src/optimization/multi_roots.h
+++ b/src/optimization/multi_roots.h
@@ -58,7 +58,7 @@ namespace theoretica {
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_root_newton", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(x.size(), nan());
 		}
 
 		return x;
-- 
2.43.0


From b6f4945edae549b0be0553ffc702280e98751124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:24 +0000
Subject: [PATCH 106/180] fix: minimize_bisection returned a maximum as if it
 were the minimum

---
 src/optimization/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/extrema.h b/src/optimization/extrema.h
index 07f17c3..9f1b3a2 100644
--- a/src/optimization/extrema.h
+++ b/src/optimization/extrema.h
@@ -194,7 +194,7 @@ namespace theoretica {
 
 		if(deriv_central(Df, z) < 0) {
 			TH_MATH_ERROR("minimize_bisection", z, NO_ALGO_CONVERGENCE);
-			return z;
+			return nan();
 		}
 
 		return z;
-- 
2.43.0


From def82eb760e3db0a23dba81a05415152825c1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:39 +0000
Subject: [PATCH 107/180] fix: multivariate gradient search did not compile for
 fixed steps, ignored its tolerance and built dynamic error results from a NaN
 size

---
 src/optimization/multi_extrema.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 4550e80..98d2f2a 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -38,7 +38,7 @@ namespace theoretica {
 
 		if(gamma >= 0) {
 			TH_MATH_ERROR("multi_minimize_grad", gamma, INVALID_ARGUMENT);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		vec<real, N> x = guess;
@@ -47,15 +47,15 @@ namespace theoretica {
 
 		do {
 
-			grad = gradient(f, x);
+			grad = autodiff::gradient(f, x);
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
@@ -126,11 +126,11 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
@@ -161,7 +161,7 @@ namespace theoretica {
 
 		do {
 
-			grad = -gradient(f, x);
+			grad = -autodiff::gradient(f, x);
 
 			// Maximize f(x + gamma * gradient) in [-1, 0]
 			// using Golden Section extrema search
@@ -177,11 +177,11 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
-- 
2.43.0


From e0f063b12642ff721726f00b9ba82f26f8910776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:39 +0000
Subject: [PATCH 108/180] fix: multi_maximize_grad rejected every step size,
 including its default

---
 src/optimization/multi_extrema.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 98d2f2a..754325c 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -82,7 +82,29 @@ namespace theoretica {
 		real tolerance = OPTIMIZATION_MINGRAD_TOLERANCE,
 		unsigned int max_iter = OPTIMIZATION_MINGRAD_ITER) {
 
-		return multi_minimize_grad(f, guess, -gamma, tolerance, max_iter);
+		if(gamma >= 0) {
+			TH_MATH_ERROR("multi_maximize_grad", gamma, INVALID_ARGUMENT);
+			return vec<real, N>(guess.size(), nan());
+		}
+
+		vec<real, N> x = guess;
+		vec<real, N> grad;
+		unsigned int iter = 0;
+
+		do {
+
+			grad = autodiff::gradient(f, x);
+			x -= gamma * grad;
+			iter++;
+
+		} while(grad.norm() > tolerance && iter <= max_iter);
+
+		if(iter > max_iter) {
+			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
+			return vec<real, N>(guess.size(), nan());
+		}
+
+		return x;
 	}
 
 
-- 
2.43.0


From e4e72b0fd41ca0a5f494bc2694a39f58743c7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:45 +0000
Subject: [PATCH 109/180] fix: lagrange_polynomial divided by zero for equal
 abscissae which are not adjacent

---
 src/interpolation/polynomial.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index e358fc2..a890f3c 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -31,9 +31,11 @@ namespace theoretica {
 		// Check that all x_i are different to prevent
 		// division by zero
 		for (unsigned int i = 0; i < points.size() - 1; ++i) {
-			if(points[i].get(0) == points[i + 1].get(0)) {
-				TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
-				return polynomial<T>({T(nan())});
+			for (unsigned int j = i + 1; j < points.size(); ++j) {
+				if(points[i].get(0) == points[j].get(0)) {
+					TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
+					return polynomial<T>({T(nan())});
+				}
 			}
 		}
 
-- 
2.43.0


From 4799b0ea0e487aab0cb50a3560b1b56d395765ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:45 +0000
Subject: [PATCH 110/180] fix: interpolate_grid of order 0 divided by zero

---
 src/interpolation/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index a890f3c..4fa0f09 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -100,7 +100,7 @@ namespace theoretica {
 
 		// Sample <order + 1> equidistant points
 		for (unsigned int i = 0; i < order + 1; ++i) {
-			real x = (b - a) / real(order) * real(i) + a;
+			real x = order ? (b - a) / real(order) * real(i) + a : a;
 			points[i] = {x, f(x)};
 		}
 
-- 
2.43.0


From 273b1544d2455a1893e8055515f5177ea5c73380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:45 +0000
Subject: [PATCH 111/180] fix: bezier did not compile (wrote to its const
 argument)

---
 src/interpolation/splines.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index cc91e90..296706c 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -199,13 +199,15 @@ namespace theoretica {
 			return vec<real, N>(nan());
 		}
 
-		for (int index = points.size(); index > 1; --index) {
+		std::vector<vec<real, N>> p = points;
+
+		for (int index = p.size(); index > 1; --index) {
 
 			for (int i = 0; i < index - 1; ++i)
-				points[i] = lerp(points[i], points[i + 1], t);
+				p[i] = lerp(p[i], p[i + 1], t);
 		}
 
-		return points[0];
+		return p[0];
 	}
 
 
-- 
2.43.0


From 9af43e6e5bbba3439131c2e89974217b61e4a1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:45 +0000
Subject: [PATCH 112/180] fix: cubic_splines wrote past the end of the
 coefficients

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 296706c..4a49a5a 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -273,7 +273,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
@@ -347,7 +347,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
-- 
2.43.0


From 5099a25d62c57c389c3e5561f8d6705424026da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:45 +0000
Subject: [PATCH 113/180] fix: cubic splines of unequally spaced points did not
 have continuous derivatives (wrong interval in the tridiagonal system)

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 4a49a5a..648a8a8 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -287,7 +287,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (p[i + 1][0] - p[i - 1][0]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
@@ -361,7 +361,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (x[i + 1] - x[i - 1]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
-- 
2.43.0


From 33119d25f1af7dbdb4560c8f377cc76d711ec362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:26 +0000
Subject: [PATCH 114/180] fix: vector remap did not compile (invlerp returned a
 vector) and invlerp ignored the elements of dynamic vectors

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 648a8a8..b85beb7 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -36,13 +36,13 @@ namespace theoretica {
 
 	/// Inverse linear interpolation
 	template<unsigned int N>
-	inline vec<real, N> invlerp(
+	inline real invlerp(
 		const vec<real, N>& P1, const vec<real, N>& P2, real value) {
 
 		real t = invlerp(P1.get(0), P2.get(0), value);
 
 		// Check that all computed t_i are the same
-		for (int i = 1; i < N; ++i) {
+		for (unsigned int i = 1; i < P1.size(); ++i) {
 
 			real t_new = invlerp(P1.get(i), P2.get(i), value);
 
-- 
2.43.0


From 68599e5782fded7cb834b7ffec3893358a37c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:26 +0000
Subject: [PATCH 115/180] fix: slerp and bezier of dynamic vectors built their
 error results from a NaN size

---
 src/interpolation/splines.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index b85beb7..b53a3ed 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -94,7 +94,7 @@ namespace theoretica {
 		// which would make the computation impossible
 		if(P1_l == 0 || P2_l == 0) {
 			TH_MATH_ERROR("slerp", P1_l ? P2_l : P1_l, IMPOSSIBLE_OPERATION);
-			return vec<real, N>(nan());
+			return vec<real, N>(P1.size(), nan());
 		}
 
 		// Angle between P1 and P2 (from the dot product)
@@ -104,7 +104,7 @@ namespace theoretica {
 		// Check that the sine of the angle is not zero
 		if(s == 0) {
 			TH_MATH_ERROR("slerp", s, DIV_BY_ZERO);
-			return vec<real, N>(nan());
+			return vec<real, N>(P1.size(), nan());
 		}
 
 		return (P1 * sin((1 - t) * omega) + P2 * sin(t * omega)) / s;
@@ -191,12 +191,12 @@ namespace theoretica {
 		
 		if(points.size() < 2) {
 			TH_MATH_ERROR("bezier", points.size(), INVALID_ARGUMENT);
-			return vec<real, N>(nan());
+			return vec<real, N>(points.size() ? points[0].size() : N, nan());
 		}
 
 		if(t < 0 || t > 1) {
 			TH_MATH_ERROR("bezier", t, INVALID_ARGUMENT);
-			return vec<real, N>(nan());
+			return vec<real, N>(points.size() ? points[0].size() : N, nan());
 		}
 
 		std::vector<vec<real, N>> p = points;
-- 
2.43.0


From 821f0c610f84042569ce04b0a3bb6971c2226116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 116/180] fix: pvalue_chi_squared integrated the Gaussian tail
 over steps of 1e-16, giving 0 beyond three standard deviations for ndf >= 260

---
 src/statistics/statistics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 2c2a88c..4e0ca33 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -506,7 +506,7 @@ namespace theoretica {
 					if(new_x < -3)
 						return 1 - integral_inf_riemann([=](real x) {
 							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, -new_x, 1E-16, 25);
+						}, -new_x, 1, 1E-16, 25);
 
 					return 0.5 + integral_romberg_tol([=](real x) {
 						return exp(-x * x / 2) / SQRTPI / SQRT2;
@@ -516,7 +516,7 @@ namespace theoretica {
 					if(new_x > 3)
 						return integral_inf_riemann([=](real x) {
 							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, new_x, 1E-16, 25);
+						}, new_x, 1, 1E-16, 25);
 
 					return 0.5 - integral_romberg_tol([=](real x) {
 						return exp(-x * x / 2) / SQRTPI / SQRT2;
-- 
2.43.0


From 55046b47ab61a2dd5b0ea45aa99d03bbdab27123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 117/180] fix: autocorrelation counted the first element twice
 at lag 0, dropped elements from the denominator at lags above 1 and read an
 empty dataset

---
 src/statistics/statistics.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 4e0ca33..0159a1e 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -304,20 +304,22 @@ namespace theoretica {
 		template<typename Dataset>
 		inline real autocorrelation(const Dataset& X, unsigned int n = 1) {
 
-			if(X.size() < n) {
+			if(X.size() < n || !X.size()) {
 				TH_MATH_ERROR("autocorrelation", X.size(), INVALID_ARGUMENT);
 				return nan();
 			}
 
 			const real mu = mean(X);
 			real num = 0;
-			real den = square(X[0] - mu);
+			real den = 0;
 
-			for (unsigned int i = n; i < X.size(); ++i) {
+			for (unsigned int i = 0; i < X.size(); ++i) {
 
 				const real delta = X[i] - mu;
-				num += delta * (X[i - n] - mu);
 				den += delta * delta;
+
+				if(i >= n)
+					num += delta * (X[i - n] - mu);
 			}
 
 			return num / den;
-- 
2.43.0


From d7623146f3bd4f718f07c5ef212353bbe0a9b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 118/180] fix: quotient_sum read the first element of empty
 datasets

---
 src/core/dataset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 4d48119..89865b7 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -97,7 +97,7 @@ namespace theoretica {
 	template<typename Vector>
 	inline auto quotient_sum(const Vector& X, const Vector& Y) {
 
-		if(X.size() != Y.size()) {
+		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("quotient_sum", X.size(), INVALID_ARGUMENT);
 			return nan();
 		}
-- 
2.43.0


From df12f4267b23fc0a385b6928fefef7f0fa0179ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 119/180] fix: map into a destination of another size built a
 vector from a NaN size

---
 src/core/dataset.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 89865b7..2413366 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -267,7 +267,10 @@ namespace theoretica {
 
 		if(src.size() != dest.size()) {
 			TH_MATH_ERROR("th::map", dest.size(), INVALID_ARGUMENT);
-			dest = Vector2(nan());
+
+			for (unsigned int i = 0; i < dest.size(); ++i)
+				dest[i] = vector_element_t<Vector2>(nan());
+
 			return dest;
 		}
 
-- 
2.43.0


From 4c41056861180364695ab7e26a475bd00fc90037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 120/180] fix: concatenate wrote past the end of a fixed-size
 result

---
 src/core/dataset.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 2413366..c1419af 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -316,6 +316,17 @@ namespace theoretica {
 
 		Vector3 res;
 		res.resize(v1.size() + v2.size());
+
+		// Check that the type of the result can hold all elements
+		if(res.size() != v1.size() + v2.size()) {
+			TH_MATH_ERROR("concatenate", res.size(), INVALID_ARGUMENT);
+
+			for (unsigned int i = 0; i < res.size(); ++i)
+				res[i] = vector_element_t<Vector3>(nan());
+
+			return res;
+		}
+
 		const unsigned int offset = v1.size();
 
 		for (unsigned int i = 0; i < offset; ++i)
-- 
2.43.0


From c840698632673506336cf45b544120f536926b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:52 +0000
Subject: [PATCH 121/180] fix: sum of an empty vector of non-real elements read
 its first element

---
 src/core/dataset.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index c1419af..1d151f8 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -231,6 +231,9 @@ namespace theoretica {
 		if TH_CONSTIF (has_real_elements<Vector>())
 			return sum_pairwise(X);
 
+		if(!X.size())
+			return vector_element_t<Vector>(0);
+
 		auto res = X[0];
 		for(unsigned int i = 1; i < X.size(); i++)
 			res += X[i];
-- 
2.43.0


From 330e61221c2807a1481f111c7d4dc1d88c06096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:52 +0000
Subject: [PATCH 122/180] fix: map wrote past the end of a fixed-size result

---
 src/core/dataset.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 1d151f8..b8ca8cf 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -295,6 +295,16 @@ namespace theoretica {
 		Vector2 res;
 		res.resize(X.size());
 
+		// Check that the type of the result can hold all elements
+		if(res.size() != X.size()) {
+			TH_MATH_ERROR("th::map", res.size(), INVALID_ARGUMENT);
+
+			for (unsigned int i = 0; i < res.size(); ++i)
+				res[i] = vector_element_t<Vector2>(nan());
+
+			return res;
+		}
+
 		for (unsigned int i = 0; i < X.size(); i++)
 			res[i] = f(X[i]);
 
-- 
2.43.0


From 2e14bf59bd41eea2358d93c857e812ea0a1eed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:26 +0000
Subject: [PATCH 123/180] fix: sum of complex or integer elements did not
 compile as C++14 (the overload for real elements was never viable)

---
 src/core/dataset.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index b8ca8cf..793ce7b 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -214,7 +214,7 @@ namespace theoretica {
 	/// @param X The vector of values to sum
 	template <
 		typename Vector,
-		std::enable_if_t<has_real_elements<Vector>::value> = true
+		std::enable_if_t<has_real_elements<Vector>::value, bool> = true
 	>
 	inline auto sum(const Vector& X) {
 		return sum_pairwise(X);
@@ -224,13 +224,11 @@ namespace theoretica {
 	/// Compute the sum of a set of values.
 	///
 	/// @param X The vector of values to sum
-	template<typename Vector>
+	template <
+		typename Vector,
+		std::enable_if_t<!has_real_elements<Vector>::value, bool> = true
+	>
 	inline auto sum(const Vector& X) {
-
-		// Use pairwise sum to reduce floating point errors.
-		if TH_CONSTIF (has_real_elements<Vector>())
-			return sum_pairwise(X);
-
 		if(!X.size())
 			return vector_element_t<Vector>(0);
 
-- 
2.43.0


From 07cf6081d3e5f563da5cf0c1013e04ef83970d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:46 +0000
Subject: [PATCH 124/180] fix: the minimum of a histogram filled with insert()
 was always -inf

---
 src/statistics/histogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 9b0944e..e9d27d2 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -63,7 +63,7 @@ namespace theoretica {
 			/// @param range_min The lower bound of the range
 			/// @param range_max The upper bound of the range
 			histogram(unsigned int bin_count, real range_min, real range_max)
-				: N(0), value_max(-inf()), value_min(-inf()), run_average(0), run_tss(0) {
+				: N(0), value_max(-inf()), value_min(inf()), run_average(0), run_tss(0) {
 
 				bin_counts.resize(bin_count);
 				this->range_max = range_max;
-- 
2.43.0


From 27a3512afbf83d2d8d31461a53024537f1c2f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:46 +0000
Subject: [PATCH 125/180] fix: histogram wrote past its bins when a value close
 to the upper end was rounded up, and put every value of a range shorter than
 the machine epsilon in the last bin

---
 src/statistics/histogram.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index e9d27d2..afc77a9 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -134,13 +134,16 @@ namespace theoretica {
 			/// so care should be taken to use only valid inputs.
 			inline unsigned int index(real x) const {
 
-				if(abs(x - range_max) < MACH_EPSILON)
+				if(x >= range_max)
 					return bin_counts.size() - 1;
 
-				return floor(
+				const unsigned int i = floor(
 					(x - range_min) / (range_max - range_min)
 					* bin_counts.size()
 				);
+
+				// The quotient may be rounded up to 1
+				return i < bin_counts.size() ? i : bin_counts.size() - 1;
 			}
 
 
-- 
2.43.0


From ea7561c65eb55da381cf2581d15425afba183fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:47 +0000
Subject: [PATCH 126/180] fix: inserting NaN, or any value into a histogram
 without bins, wrote outside the bins

---
 src/statistics/histogram.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index afc77a9..d63b78a 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -108,7 +108,8 @@ namespace theoretica {
 			/// @param x The value to insert
 			inline void insert(real x) {
 
-				if(x < range_min || x > range_max)
+				// Ignore values outside the range (including NaN)
+				if(!(x >= range_min && x <= range_max) || !bin_counts.size())
 					return;
 
 				// Update average and TSS using Welford's method
@@ -213,7 +214,7 @@ namespace theoretica {
 			/// @return The value of the histogram function at x
 			inline real operator()(real x) {
 
-				if (x < range_min || x > range_max)
+				if (!(x >= range_min && x <= range_max) || !bin_counts.size())
 					return 0.0;
 
 				return bin_counts[index(x)];
-- 
2.43.0


From 69deeba02f9ac8ff0ffe1f3e3503e214e2f6fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 127/180] fix: ols_linear_orig returned sum(x)/sum(y) instead
 of the least squares slope

---
 src/statistics/regression.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 67d42e6..e11489a 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -218,17 +218,17 @@ namespace theoretica {
 				return;
 			}
 
-			const real sum_x = sum(X);
-			const real sum_y = sum(Y);
+			const real sum_xy = product_sum(X, Y);
+			const real sum_sqr_x = sum_squares(X);
 
-			if(abs(sum_y) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_y, DIV_BY_ZERO);
+			if(abs(sum_sqr_x) < MACH_EPSILON) {
+				TH_MATH_ERROR("ols_linear_orig", sum_sqr_x, DIV_BY_ZERO);
 				B = nan();
 				return;
 			}
 
-			B = sum_x / sum_y;
-			sigma_B = sqrt(X.size() * square(sigma_Y / sum_x));
+			B = sum_xy / sum_sqr_x;
+			sigma_B = sqrt(square(sigma_Y) / sum_sqr_x);
 		}
 
 		/// Compute the Weight Least Squares regression
-- 
2.43.0


From c640eb05c4ca5563dc5e474225ee48e500026a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 128/180] fix: wls_linear_orig returned a ratio of weighted
 sums instead of the weighted least squares slope

---
 src/statistics/regression.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index e11489a..43c0e53 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -244,17 +244,17 @@ namespace theoretica {
 				return;
 			}
 
-			const real sum_xw = product_sum(X, W);
-			const real sum_yw = product_sum(Y, W);
+			const real sum_xyw = product_sum(X, Y, W);
+			const real sum_xxw = product_sum(X, X, W);
 
-			if(abs(sum_yw) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_yw, DIV_BY_ZERO);
+			if(abs(sum_xxw) < MACH_EPSILON) {
+				TH_MATH_ERROR("wls_linear_orig", sum_xxw, DIV_BY_ZERO);
 				B = nan();
 				return;
 			}
 
-			B = sum_xw / sum_yw;
-			sigma_B = sqrt(sum(W) / sum_xw);
+			B = sum_xyw / sum_xxw;
+			sigma_B = sqrt(1.0 / sum_xxw);
 		}
 
 
-- 
2.43.0


From 0261dced509e32434e103ae12a69e0ed9e6bd9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 129/180] fix: linear_model with different errors on each point
 did not compile (arguments of apply swapped)

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 43c0e53..1bfd41f 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -457,9 +457,9 @@ namespace theoretica {
 
 				// The weights are given by the squared inverse of the sigma
 				auto W = sigma;
-				apply(W, [](real x) {
+				apply([](real x) {
 					return 1.0 / (x * x);
-				});
+				}, W);
 
 				wls_linear(X, Y, W, A, B, covar_mat);
 
-- 
2.43.0


From 2b88037da84a8e68bf53ecc9d11c3a79463735fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 130/180] fix: the chi-squared of linear_model with constant
 errors was not the sum of the squared residuals over the variance

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 1bfd41f..7401050 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -427,8 +427,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / sigma_Y;
 				ndf = Y.size() - 2;
+				chi_squared = square(err / sigma_Y) * ndf;
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
@@ -507,8 +507,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / (square(sigma_Y) + square(B * sigma_X));
 				ndf = Y.size() - 2;
+				chi_squared = square(err) * ndf / (square(sigma_Y) + square(B * sigma_X));
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
-- 
2.43.0


From 1a71b635a9c04301128719ca4ea595858a5188eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:07 +0000
Subject: [PATCH 131/180] fix: regressions and weighted means of datasets of
 different types did not compile

---
 src/core/dataset.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 793ce7b..3f128bb 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -42,8 +42,8 @@ namespace theoretica {
 
 
 	/// Sum the products of two sets of values
-	template<typename Vector>
-	inline auto product_sum(const Vector& X, const Vector& Y) {
+	template<typename Vector1, typename Vector2>
+	inline auto product_sum(const Vector1& X, const Vector2& Y) {
 
 		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("product_sum", X.size(), INVALID_ARGUMENT);
@@ -59,8 +59,8 @@ namespace theoretica {
 
 
 	/// Sum the products of the squares of two sets of data
-	template<typename Vector>
-	inline auto product_sum_squares(const Vector& X, const Vector& Y) {
+	template<typename Vector1, typename Vector2>
+	inline auto product_sum_squares(const Vector1& X, const Vector2& Y) {
 
 		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("product_sum_squares", X.size(), INVALID_ARGUMENT);
@@ -77,8 +77,9 @@ namespace theoretica {
 
 
     /// Sum the products of three sets of values
-    template<typename Vector>
-	inline auto product_sum(const Vector& X, const Vector& Y, const Vector& Z) {
+    template<typename Vector1, typename Vector2, typename Vector3>
+	inline auto product_sum(
+		const Vector1& X, const Vector2& Y, const Vector3& Z) {
 
 		if(X.size() != Y.size() || X.size() != Z.size() || !X.size()) {
 			TH_MATH_ERROR("product_sum", X.size(), INVALID_ARGUMENT);
@@ -94,8 +95,8 @@ namespace theoretica {
 
 
     /// Sum the quotients of two sets of values
-	template<typename Vector>
-	inline auto quotient_sum(const Vector& X, const Vector& Y) {
+	template<typename Vector1, typename Vector2>
+	inline auto quotient_sum(const Vector1& X, const Vector2& Y) {
 
 		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("quotient_sum", X.size(), INVALID_ARGUMENT);
-- 
2.43.0


From 67b5b2e0906639cf08438692bbc397931665953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:43 +0000
Subject: [PATCH 132/180] fix: exp of infinities, NaN and arguments beyond 2^31
 recursed until the stack overflowed

---
 src/core/real_analysis.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 3b853f2..a6aa4a1 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -741,6 +741,11 @@ namespace theoretica {
 		if(x < 0)
 			return 1.0 / exp(-x);
 
+		// The result is infinite (or NaN) well before
+		// the integer part of x overflows
+		if(!(x < 12000))
+			return x * inf();
+
 		const real fract_x = fract(x);
 		const int floor_x = floor(x);
 
-- 
2.43.0


From 07d2b73147542a317eb0c7ba7ac232b79db4664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:43 +0000
Subject: [PATCH 133/180] fix: tanh and coth returned NaN where the exponential
 overflows

---
 src/core/real_analysis.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index a6aa4a1..e4230a9 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1150,8 +1150,10 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic tangent of x
 	inline real tanh(real x) {
-		real exp_x = exp(x);
-		return (exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x);
+		// Only negative exponents are used to avoid overflows
+		const real exp_2x = square(exp(-abs(x)));
+		const real t = (1.0 - exp_2x) / (1.0 + exp_2x);
+		return x < 0 ? -t : t;
 	}
 
 
@@ -1159,8 +1161,10 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic cotangent of x
 	inline real coth(real x) {
-		real exp_x = exp(x);
-		return (exp_x + 1.0 / exp_x) / (exp_x - 1.0 / exp_x);
+		// Only negative exponents are used to avoid overflows
+		const real exp_2x = square(exp(-abs(x)));
+		const real t = (1.0 + exp_2x) / (1.0 - exp_2x);
+		return x < 0 ? -t : t;
 	}
 
 
-- 
2.43.0


From 31e3480ccb608b53bdccce02c01493503fd69cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:43 +0000
Subject: [PATCH 134/180] fix: asinh of large negative numbers lost all digits
 or returned -inf

---
 src/core/real_analysis.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index e4230a9..36c20b4 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1170,6 +1170,12 @@ namespace theoretica {
 
 	/// Compute the inverse hyperbolic sine
 	inline real asinh(real x) {
+
+		// Use the symmetry of the function
+		// to avoid cancellation for negative values
+		if(x < 0)
+			return -asinh(-x);
+
 		return ln(x + sqrt(square(x) + 1));
 	}
 
-- 
2.43.0


From d990aac3d5b7dff902a91a5666da2f97fe831beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:43 +0000
Subject: [PATCH 135/180] fix: cbrt did not converge for large arguments

---
 src/core/real_analysis.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 36c20b4..098cd8e 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -213,8 +213,20 @@ namespace theoretica {
 			return 1.0 / cbrt(1.0 / x);
 		}
 
-		// Approximate cbrt(x) using Newton-Raphson
-		real y = x;
+		// Infinity and NaN
+		if(!(x < inf()))
+			return x;
+
+		// Approximate cbrt(x) using Newton-Raphson,
+		// starting from x or from a smaller power of 2
+		// which is not smaller than the root
+		real y = 1;
+		while(cube(y) < x)
+			y *= 2;
+
+		if(x < y)
+			y = x;
+
 		unsigned int i = 0;
 
 		while((cube(y) - x) > OPTIMIZATION_TOL && i < OPTIMIZATION_NEWTON_ITER) {
-- 
2.43.0


From 398e5ddab5fdfb3468d5ba17f6f44890c4d38e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:43 +0000
Subject: [PATCH 136/180] fix: the portable sqrt did not converge for large
 arguments

---
 src/core/real_analysis.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 098cd8e..292dddb 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -171,8 +171,20 @@ namespace theoretica {
 			return 1.0 / sqrt(1.0 / x);
 		}
 
-		// Approximate sqrt(x) using Newton-Raphson
-		real y = x;
+		// Infinity and NaN
+		if(!(x < inf()))
+			return x;
+
+		// Approximate sqrt(x) using Newton-Raphson,
+		// starting from x or from a smaller power of 2
+		// which is not smaller than the root
+		real y = 1;
+		while(square(y) < x)
+			y *= 2;
+
+		if(x < y)
+			y = x;
+
 		unsigned int i = 0;
 
 		while((square(y) - x) > OPTIMIZATION_TOL && i < OPTIMIZATION_NEWTON_ITER) {
-- 
2.43.0


From f2ebc691fa53a8b9752a73fb2b463db005114492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:43 +0000
Subject: [PATCH 137/180] fix: the portable logarithms looped forever above
 2^63

---
 src/core/real_analysis.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 292dddb..abf8ade 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -470,13 +470,18 @@ namespace theoretica {
 		if (x < 1.0)
 			return -log2(1.0 / x);
 
-		// Compute the biggest power of 2 so that x <= 2^i
+		// The domain reduction would not end
+		// for infinity and NaN
+		if(!(x < inf()))
+			return x;
+
+		// Compute the smallest power of 2 so that x <= 2^i,
+		// reducing the domain to [1/2, 1]
 		unsigned int i = 0;
-		while(x > (uint64_t(1) << i))
+		while(x > 1.0) {
+			x /= 2.0;
 			i++;
-
-		// Domain reduction to [1, 2]
-		x /= (uint64_t(1) << i);
+		}
 
 		// Use the Taylor expansion of the logarithm
 		// ln(1 + x) = \sum_k^n (-1)^(k+1) x^k / k
-- 
2.43.0


From c4a930d2d70d43f8cb6923d0f8f85280c6781257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:43 +0000
Subject: [PATCH 138/180] fix: the portable tan recursed until the stack
 overflowed for huge and infinite arguments

---
 src/core/real_analysis.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index abf8ade..8184a74 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1010,6 +1010,13 @@ namespace theoretica {
 		if(x < 0)
 			return -tan(-x);
 
+		// The domain reduction is not possible
+		// when the integer part overflows
+		if(!(x / PI < 2147483647.0)) {
+			TH_MATH_ERROR("tan", x, OUT_OF_DOMAIN);
+			return nan();
+		}
+
 		// Domain reduction to [0, PI]
 		x -= floor(x / PI) * PI;
 
-- 
2.43.0


From f830dda4ade6931464c9971c114b3c8bae102db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:14 +0000
Subject: [PATCH 139/180] fix: bernoulli returned a non-null mass outside {0,
 1}

---
 src/statistics/distributions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 1121a78..7dfbb86 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -80,6 +80,9 @@ namespace theoretica {
 		/// Bernoulli distribution
 		inline real bernoulli(unsigned int k, real p) {
 
+			if(k > 1)
+				return 0;
+
 			return pow(p, k) * pow(1 - p, 1 - k);
 		}
 
-- 
2.43.0


From d948de766547d8f74e2235ff95b6021cea70ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:14 +0000
Subject: [PATCH 140/180] fix: binomial returned NaN or an error for more
 successes than trials and overflowed its coefficient

---
 src/statistics/distributions.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 7dfbb86..fd7020f 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -122,7 +122,10 @@ namespace theoretica {
 		/// Binomial distribution function
 		inline real binomial(unsigned int nu, unsigned int n, real p) {
 
-			return binomial_coeff(n, nu) *
+			if(nu > n)
+				return 0;
+
+			return binomial_coeff<real>(n, nu) *
 				pow(p, nu) * pow(1 - p, n - nu);
 		}
 
-- 
2.43.0


From 95c9ba57eb8de0da0aa50a5854d01923d5cc28dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:14 +0000
Subject: [PATCH 141/180] fix: poisson, multinomial and erlang overflowed their
 factorials beyond 20, erlang had a density for x < 0

---
 src/statistics/distributions.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index fd7020f..6eb6e97 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -103,7 +103,7 @@ namespace theoretica {
 		/// Poisson distribution
 		inline real poisson(unsigned int k, real lambda) {
 
-			return exp(-lambda) * pow(lambda, k) / (real) fact(k);
+			return exp(-lambda) * pow(lambda, k) / fact<real>(k);
 		}
 
 
@@ -155,10 +155,10 @@ namespace theoretica {
 				return nan();
 			}
 
-			real res = fact(n);
+			real res = fact<real>(n);
 
 			for (unsigned int i = 0; i < k; ++i)
-				res *= pow(p[i], x[i]) / fact(x[i]);
+				res *= pow(p[i], x[i]) / fact<real>(x[i]);
 
 			return res;
 		}
@@ -463,8 +463,11 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(x < 0)
+				return 0;
+
 			return pow(lambda, k) * pow(x, k - 1)
-					* exp(-lambda * x) / fact(k - 1);
+					* exp(-lambda * x) / fact<real>(k - 1);
 		}
 
 
-- 
2.43.0


From e06e7ff04f5272f297daa765c0f5d114d9e80e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:14 +0000
Subject: [PATCH 142/180] fix: gamma, beta, log_normal and maxwell had a
 density outside of their support

---
 src/statistics/distributions.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 6eb6e97..867547f 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -223,6 +223,9 @@ namespace theoretica {
 		/// alpha (shape) and beta (rate)
 		inline real gamma(real x, real alpha, real beta) {
 
+			if(x < 0)
+				return 0;
+
 			return powf(beta, alpha) * powf(x, alpha - 1)
 				* exp(-beta * x) / special::gamma(alpha);
 		}
@@ -244,6 +247,9 @@ namespace theoretica {
 		/// alpha (shape) and beta (shape)
 		inline real beta(real x, real alpha, real beta) {
 
+			if(x < 0 || x > 1)
+				return 0;
+
 			return powf(x, alpha - 1) * powf(1 - x, beta - 1)
 				/ special::beta(alpha, beta);
 		}
@@ -286,6 +292,9 @@ namespace theoretica {
 		/// Log-normal distribution
 		inline real log_normal(real x, real mu, real sigma) {
 
+			if(x <= 0)
+				return 0;
+
 			return 1.0 / (2.50662827463 * sigma * x) *
 				exp(-square(ln(x) - mu) / (2 * square(sigma)));
 		}
@@ -393,6 +402,9 @@ namespace theoretica {
 		/// Maxwell-Boltzmann distribution
 		inline real maxwell(real x, real a) {
 
+			if(x < 0)
+				return 0;
+
 			return (SQRT2 / SQRTPI) * square(x) * exp(-square(x / a) / 2.0) / cube(a);
 		}
 
-- 
2.43.0


From 27252a7a4e7edb309adba8da44bb1467cd084c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:15 +0000
Subject: [PATCH 143/180] fix: rand_cauchy returned NaN when the generator drew
 a null uniform

---
 src/pseudorandom/sampling.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 8240aab..591af16 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -397,7 +397,14 @@ namespace theoretica {
 	/// distribution using the quantile (inverse) function method.
 	inline real rand_cauchy(real mu, real alpha, PRNG& g) {
 
-		return alpha * tan(PI * (rand_uniform(0, 1, g) - 0.5)) + mu;
+		real u;
+
+		// The quantile function diverges in zero
+		do {
+			u = rand_uniform(0, 1, g);
+		} while(u <= 0);
+
+		return alpha * tan(PI * (u - 0.5)) + mu;
 	}
 
 
-- 
2.43.0


From 8ba78bcec8bbe507087079e16246bf4e0f6c7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:15 +0000
Subject: [PATCH 144/180] fix: rand_gaussian_boxmuller returned infinities or
 NaN when the generator drew a null uniform

---
 src/pseudorandom/sampling.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 591af16..43c9284 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -245,7 +245,13 @@ namespace theoretica {
 
 		// Generate a random point inside the unit circle
 		
-		const real x = rand_uniform(0, 1, g);
+		real x;
+
+		// The logarithm is not defined in zero
+		do {
+			x = rand_uniform(0, 1, g);
+		} while(x <= 0);
+
 		const real y = rand_uniform(0, 1, g);
 
 		const real x_transf = sqrt(-2 * ln(x));
-- 
2.43.0


From f4af09f80534d030d916d5826ef19a6edbf89e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:15 +0000
Subject: [PATCH 145/180] fix: hit-or-miss integration between c and d was
 wrong unless one of them was zero

---
 src/pseudorandom/montecarlo.h | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/pseudorandom/montecarlo.h b/src/pseudorandom/montecarlo.h
index cc6905a..00950a8 100644
--- a/src/pseudorandom/montecarlo.h
+++ b/src/pseudorandom/montecarlo.h
@@ -173,16 +173,13 @@ namespace theoretica {
 
 			const real f_x = f(x_n);
 
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f_x >= y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		// The fraction of points below the function estimates the area
+		// over the minimum c
+		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c) + c * (b - a);
 	}
 
 
@@ -241,16 +238,13 @@ namespace theoretica {
 
 			const real f_x = f(x_n);
 
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f_x >= y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		// The fraction of points below the function estimates the area
+		// over the minimum c
+		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c) + c * (b - a);
 	}
 
 
-- 
2.43.0


From 7725cd4e80e263adabf15dcc6ee46a2c91e900c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:49 +0000
Subject: [PATCH 146/180] fix: error_propagation read out of bounds with fewer
 uncertainties than variables

---
 src/statistics/errorprop.h | 355 +++++++++++++++++++------------------
 1 file changed, 180 insertions(+), 175 deletions(-)

diff --git a/src/statistics/errorprop.h b/src/statistics/errorprop.h
index 75f58a0..91a3113 100644
--- a/src/statistics/errorprop.h
+++ b/src/statistics/errorprop.h
@@ -1,175 +1,180 @@
-
-///
-/// @file errorprop.h Automatic propagation of uncertainties on arbitrary functions
-///
-
-#ifndef THEORETICA_ERRORPROP_H
-#define THEORETICA_ERRORPROP_H
-
-#include "../core/core_traits.h"
-#include "../algebra/vec.h"
-#include "../autodiff/autodiff.h"
-#include "../statistics/statistics.h"
-#include "../pseudorandom/montecarlo.h"
-#include "../pseudorandom/sampling.h"
-
-
-namespace theoretica {
-
-
-	namespace stats {
-
-
-		/// Build the covariance matrix given a vector of datasets
-		/// by computing the covariance between all couples of sets.
-		///
-		/// @param v A vector of datasets of measures
-		/// @return The covariance matrix of the datasets
-		template <
-			typename Matrix = mat<real>, typename Dataset = vec<real>,
-			enable_vector<Dataset> = true
-		>
-		inline Matrix covar_mat(const std::vector<Dataset>& v) {
-
-			Matrix cm;
-			cm.resize(v.size(), v.size());
-
-			for (unsigned int i = 0; i < cm.rows(); ++i)
-				for (unsigned int j = 0; j < cm.cols(); ++j)
-					cm(i, j) = stats::covariance(v[i], v[j]);
-
-			return cm;
-		}
-
-
-		/// Automatically propagate uncertainties under quadrature
-		/// on an arbitrary function given the uncertainties
-		/// on the variables, the mean values of the variables
-		/// and the function itself, by using automatic differentiation.
-		/// This function assumes that the correlation between
-		/// different variables is zero, if that is not the case, the covariance
-		/// matrix should be used.
-		///
-		/// @param f The function to propagate error on
-		/// @param x Best values for the variables
-		/// @param delta_x Vector of uncertainties on the variables
-		/// @return The propagated error on the function
-		template<
-			unsigned int N = 0,
-			typename MultiDualFunction = autodiff::dreal_t<N>(*)(autodiff::dvec_t<N>)>
-		inline real error_propagation(
-			MultiDualFunction f,
-			const vec<real, N>& x_best, const vec<real, N>& delta_x) {
-
-			real err_sqr = 0;
-			const multidual<N> df = f(multidual<N>::make_argument(x_best));
-
-			for (unsigned int i = 0; i < x_best.size(); ++i)
-				err_sqr += square(df.Dual().get(i) * delta_x.get(i));
-
-			return sqrt(err_sqr);
-		}
-
-
-		/// Automatically propagate uncertainties under quadrature
-		/// on an arbitrary function given the uncertainties
-		/// on the variables, the mean values of the variables
-		/// and the function itself, by using automatic differentiation.
-		///
-		/// @param f The function to propagate error on
-		/// @param x Best values for the variables
-		/// @param cm Covariance matrix of the variables,
-		/// where diagonal entries are the variance of the variables
-		/// and off-diagonal entries are the covariance between
-		/// different variables. May be constructed from datasets
-		/// using the function covar_mat.
-		/// @return The propagated error on the function
-		template <
-			unsigned int N = 0,
-			typename Matrix, enable_matrix<Matrix> = true,
-			typename MultiDualFunction = autodiff::dreal_t<N>(*)(autodiff::dvec_t<N>)
-		>
-		inline real error_propagation(
-			MultiDualFunction f, const vec<real, N>& x_best, const Matrix& cm) {
-
-
-			if(cm.rows() != x_best.size()) {
-				TH_MATH_ERROR("error_propagation", cm.rows(), INVALID_ARGUMENT);
-				return nan();
-			}
-
-			if(cm.cols() != x_best.size()) {
-				TH_MATH_ERROR("error_propagation", cm.cols(), INVALID_ARGUMENT);
-				return nan();
-			}
-
-			real err_sqr = 0;
-			const multidual<N> df = f(multidual<N>::make_argument(x_best));
-
-			for (unsigned int i = 0; i < cm.rows(); ++i)
-				for (unsigned int j = 0; j < cm.cols(); ++j)
-					err_sqr += df.Dual().get(i) * df.Dual().get(j) * cm(i, j);
-
-			return sqrt(err_sqr);
-		}
-
-
-		/// Automatically propagate uncertainties under quadrature
-		/// on an arbitrary function given the function and the
-		/// set of measured data. The covar_mat function is used
-		/// to estimate the covariance matrix from the data sets.
-		/// For this to work, the data sets should have the same size,
-		/// so as to estimate their covariance.
-		///
-		/// @param f The function to propagate error on
-		/// @param v A vector of different datasets of the
-		/// measures of the variables
-		/// @return The propagated error on the function
-		template<
-			unsigned int N = 0,
-			typename MultiDualFunction = multidual<N>(*)(autodiff::dvec_t<N>),
-			typename Dataset = vec<real, N>>
-		inline real error_propagation(
-			MultiDualFunction f,
-			const std::vector<Dataset>& v) {
-
-			vec<real, N> x_mean;
-			x_mean.resize(v.size());
-
-			for (unsigned int i = 0; i < v.size(); ++i)
-				x_mean[i] = stats::mean(v[i]);
-
-			return error_propagation(
-				f, x_mean, covar_mat<mat<real, N, N>, Dataset>(v));
-		}
-
-
-		/// Propagate the statistical error on a given function
-		/// using the Monte Carlo method, by
-		/// generating a sample following the probability
-		/// distribution of the function and computing
-		/// its standard deviation. N sample vectors of size M are generated
-		/// by sampling the M different pdf_sampler distributions which
-		/// correspond to the input variables of the function.
-		/// The resulting sample is used to estimate the standard deviation
-		/// over the result of the function.
-		/// 
-		///
-		/// @param f The function to propagate error on
-		/// @param rv A list of distribution samplers
-		/// which sample from the probability distributions
-		/// of the random variables.
-		/// @param N The number of sampled values to use, defaults to
-		/// 1 million.
-		/// @return The standard deviation of the Monte Carlo sample
-		template<typename Function>
-		real error_propagation_mc(
-			Function f, std::vector<pdf_sampler>& rv, unsigned int N = 1E+6) {
-
-			return stats::stdev(sample_mc(f, rv, N));
-		}
-	}
-}
-
-
-#endif
+
+///
+/// @file errorprop.h Automatic propagation of uncertainties on arbitrary functions
+///
+
+#ifndef THEORETICA_ERRORPROP_H
+#define THEORETICA_ERRORPROP_H
+
+#include "../core/core_traits.h"
+#include "../algebra/vec.h"
+#include "../autodiff/autodiff.h"
+#include "../statistics/statistics.h"
+#include "../pseudorandom/montecarlo.h"
+#include "../pseudorandom/sampling.h"
+
+
+namespace theoretica {
+
+
+	namespace stats {
+
+
+		/// Build the covariance matrix given a vector of datasets
+		/// by computing the covariance between all couples of sets.
+		///
+		/// @param v A vector of datasets of measures
+		/// @return The covariance matrix of the datasets
+		template <
+			typename Matrix = mat<real>, typename Dataset = vec<real>,
+			enable_vector<Dataset> = true
+		>
+		inline Matrix covar_mat(const std::vector<Dataset>& v) {
+
+			Matrix cm;
+			cm.resize(v.size(), v.size());
+
+			for (unsigned int i = 0; i < cm.rows(); ++i)
+				for (unsigned int j = 0; j < cm.cols(); ++j)
+					cm(i, j) = stats::covariance(v[i], v[j]);
+
+			return cm;
+		}
+
+
+		/// Automatically propagate uncertainties under quadrature
+		/// on an arbitrary function given the uncertainties
+		/// on the variables, the mean values of the variables
+		/// and the function itself, by using automatic differentiation.
+		/// This function assumes that the correlation between
+		/// different variables is zero, if that is not the case, the covariance
+		/// matrix should be used.
+		///
+		/// @param f The function to propagate error on
+		/// @param x Best values for the variables
+		/// @param delta_x Vector of uncertainties on the variables
+		/// @return The propagated error on the function
+		template<
+			unsigned int N = 0,
+			typename MultiDualFunction = autodiff::dreal_t<N>(*)(autodiff::dvec_t<N>)>
+		inline real error_propagation(
+			MultiDualFunction f,
+			const vec<real, N>& x_best, const vec<real, N>& delta_x) {
+
+			if(delta_x.size() != x_best.size()) {
+				TH_MATH_ERROR("error_propagation", delta_x.size(), INVALID_ARGUMENT);
+				return nan();
+			}
+
+			real err_sqr = 0;
+			const multidual<N> df = f(multidual<N>::make_argument(x_best));
+
+			for (unsigned int i = 0; i < x_best.size(); ++i)
+				err_sqr += square(df.Dual().get(i) * delta_x.get(i));
+
+			return sqrt(err_sqr);
+		}
+
+
+		/// Automatically propagate uncertainties under quadrature
+		/// on an arbitrary function given the uncertainties
+		/// on the variables, the mean values of the variables
+		/// and the function itself, by using automatic differentiation.
+		///
+		/// @param f The function to propagate error on
+		/// @param x Best values for the variables
+		/// @param cm Covariance matrix of the variables,
+		/// where diagonal entries are the variance of the variables
+		/// and off-diagonal entries are the covariance between
+		/// different variables. May be constructed from datasets
+		/// using the function covar_mat.
+		/// @return The propagated error on the function
+		template <
+			unsigned int N = 0,
+			typename Matrix, enable_matrix<Matrix> = true,
+			typename MultiDualFunction = autodiff::dreal_t<N>(*)(autodiff::dvec_t<N>)
+		>
+		inline real error_propagation(
+			MultiDualFunction f, const vec<real, N>& x_best, const Matrix& cm) {
+
+
+			if(cm.rows() != x_best.size()) {
+				TH_MATH_ERROR("error_propagation", cm.rows(), INVALID_ARGUMENT);
+				return nan();
+			}
+
+			if(cm.cols() != x_best.size()) {
+				TH_MATH_ERROR("error_propagation", cm.cols(), INVALID_ARGUMENT);
+				return nan();
+			}
+
+			real err_sqr = 0;
+			const multidual<N> df = f(multidual<N>::make_argument(x_best));
+
+			for (unsigned int i = 0; i < cm.rows(); ++i)
+				for (unsigned int j = 0; j < cm.cols(); ++j)
+					err_sqr += df.Dual().get(i) * df.Dual().get(j) * cm(i, j);
+
+			return sqrt(err_sqr);
+		}
+
+
+		/// Automatically propagate uncertainties under quadrature
+		/// on an arbitrary function given the function and the
+		/// set of measured data. The covar_mat function is used
+		/// to estimate the covariance matrix from the data sets.
+		/// For this to work, the data sets should have the same size,
+		/// so as to estimate their covariance.
+		///
+		/// @param f The function to propagate error on
+		/// @param v A vector of different datasets of the
+		/// measures of the variables
+		/// @return The propagated error on the function
+		template<
+			unsigned int N = 0,
+			typename MultiDualFunction = multidual<N>(*)(autodiff::dvec_t<N>),
+			typename Dataset = vec<real, N>>
+		inline real error_propagation(
+			MultiDualFunction f,
+			const std::vector<Dataset>& v) {
+
+			vec<real, N> x_mean;
+			x_mean.resize(v.size());
+
+			for (unsigned int i = 0; i < v.size(); ++i)
+				x_mean[i] = stats::mean(v[i]);
+
+			return error_propagation(
+				f, x_mean, covar_mat<mat<real, N, N>, Dataset>(v));
+		}
+
+
+		/// Propagate the statistical error on a given function
+		/// using the Monte Carlo method, by
+		/// generating a sample following the probability
+		/// distribution of the function and computing
+		/// its standard deviation. N sample vectors of size M are generated
+		/// by sampling the M different pdf_sampler distributions which
+		/// correspond to the input variables of the function.
+		/// The resulting sample is used to estimate the standard deviation
+		/// over the result of the function.
+		/// 
+		///
+		/// @param f The function to propagate error on
+		/// @param rv A list of distribution samplers
+		/// which sample from the probability distributions
+		/// of the random variables.
+		/// @param N The number of sampled values to use, defaults to
+		/// 1 million.
+		/// @return The standard deviation of the Monte Carlo sample
+		template<typename Function>
+		real error_propagation_mc(
+			Function f, std::vector<pdf_sampler>& rv, unsigned int N = 1E+6) {
+
+			return stats::stdev(sample_mc(f, rv, N));
+		}
+	}
+}
+
+
+#endif
-- 
2.43.0


From ab082a662b786248b44d2cdabb92b090902b68a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:07 +0000
Subject: [PATCH 147/180] fix: matrix rows ran together in to_string without
 parentheses

---
 src/algebra/mat.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 73127ba..0c380ef 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -669,7 +669,9 @@ namespace theoretica {
 					}
 		
 					if(parenthesis)
-						res << ")" << std::endl;
+						res << ")";
+
+					res << std::endl;
 				}
 
 				return res.str();
@@ -1303,7 +1305,9 @@ namespace theoretica {
 					}
 		
 					if(parenthesis)
-						res << ")" << std::endl;
+						res << ")";
+
+					res << std::endl;
 				}
 
 				return res.str();
-- 
2.43.0


From de86902d4f6554259378b093f15db125c8f3bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:07 +0000
Subject: [PATCH 148/180] fix: readln never returned at the end of the input

---
 src/utility.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utility.h b/src/utility.h
index c561ed4..6e3f9f2 100644
--- a/src/utility.h
+++ b/src/utility.h
@@ -94,9 +94,7 @@ namespace theoretica {
 		std::string line;
 		Type value;
 
-		while(true) {
-
-			std::getline(in, line);
+		while(std::getline(in, line)) {
 
 			// Stop reading when the terminator is reached.
 			if(line == terminator)
-- 
2.43.0


From a829f0c62ab2f6cffa49f510eab3b39e9a84256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:07 +0000
Subject: [PATCH 149/180] fix: math_exception could not be caught as
 std::exception

---
 src/core/error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/error.h b/src/core/error.h
index d2104ee..501fb20 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -86,7 +86,7 @@ namespace theoretica {
 
 #if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
 
-	class math_exception : std::exception {
+	class math_exception : public std::exception {
 
 	private:
 		MATH_ERRCODE err;
-- 
2.43.0


From c6f9c327156461aa7cba5559d7f55b8eb8212331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:07 +0000
Subject: [PATCH 150/180] fix: math_exception did not describe OUT_OF_RANGE

---
 src/core/error.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/error.h b/src/core/error.h
index 501fb20..7c2b8e8 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -112,6 +112,7 @@ namespace theoretica {
 				case DIV_BY_ZERO: return "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					return "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE: return "The result was out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					return "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: return "The algorithm did not converge"; break;
@@ -166,6 +167,7 @@ namespace theoretica {
 				case DIV_BY_ZERO: err_str << "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					err_str << "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE: err_str << "The result was out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					err_str << "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: err_str << "The algorithm did not converge"; break;
-- 
2.43.0


From a6d9af883f872351e6316b23ee42bc39513e7c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:22 +0000
Subject: [PATCH 151/180] fix: chi-squared p-values were wrong by up to 0.2 for
 more than 70 degrees of freedom below the mean

---
 src/statistics/statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 0159a1e..848e1c2 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -530,7 +530,7 @@ namespace theoretica {
 			const real coeff = exp(-special::lngamma(ndf / 2.0) - chi_sqr / 2.0);
 
 			// Use different methods when Gauss-Laguerre is not numerically stable
-			if((ndf > 70 && chi_sqr < (ndf / 2.0))) {
+			if(ndf > 70 && chi_sqr < ndf) {
 
 				// Use equivalent formula around potential singularity
 				real res = integral_romberg_tol([=](real x) {
-- 
2.43.0


From e10c70b635a0bb68747c0a79ea4301ebec49dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:22 +0000
Subject: [PATCH 152/180] fix: chi-squared p-values were wrong by up to 12% for
 few odd degrees of freedom

---
 src/statistics/statistics.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 848e1c2..52114e7 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -526,6 +526,17 @@ namespace theoretica {
 				}
 			}
 
+			// The integrand is not smooth for few odd degrees of freedom
+			// and low Chi-squared, relate it to higher degrees of freedom
+			if(ndf % 2 == 1 && ndf < 15 && chi_sqr < 20) {
+
+				const real diff = (chi_sqr > 0)
+					? exp(ndf / 2.0 * ln(chi_sqr / 2) - chi_sqr / 2 - special::lngamma(ndf / 2.0 + 1))
+					: 0;
+
+				return pvalue_chi_squared(chi_sqr, ndf + 2) - diff;
+			}
+
 			// Compute the coefficient using a stable equivalent formula
 			const real coeff = exp(-special::lngamma(ndf / 2.0) - chi_sqr / 2.0);
 
-- 
2.43.0


From 40d708cf1d3407b59f872615c42c0bf8129889a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:22 +0000
Subject: [PATCH 153/180] fix: chi-squared p-values were infinite for 256 to
 259 degrees of freedom

---
 src/statistics/statistics.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 52114e7..f75626b 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -555,10 +555,13 @@ namespace theoretica {
 				return coeff * res;
 			}
 
-			// Approximate the integral using Gauss-Laguerre quadrature
-			return coeff * integral_gauss(
+			// Approximate the integral using Gauss-Laguerre quadrature,
+			// keeping the coefficient inside to prevent overflow
+			const real ln_coeff = -special::lngamma(ndf / 2.0) - chi_sqr / 2.0;
+
+			return integral_gauss(
 				[=](real x) {
-					return pow(sqrt(x + chi_sqr / 2), ndf - 2);
+					return exp((ndf - 2.0) / 2.0 * ln(x + chi_sqr / 2) + ln_coeff);
 			}, tables::laguerre_roots_16, tables::laguerre_weights_16, 16);
 		}
 	  
-- 
2.43.0


From 2a4eaba4f78026feb34e6c488c56acf30b29455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:01 +0000
Subject: [PATCH 154/180] fix: the n-th root was NaN for many arguments:
 root(1e12, 5) by default, root(1e6, 10) and root(x, 20) without the x86
 instructions

---
 src/core/real_analysis.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 8184a74..437be0e 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -878,13 +878,24 @@ namespace theoretica {
 			return 1.0 / root(1.0 / x, n);
 		}
 
+		// Infinity and NaN
+		if(!(x < inf()))
+			return x;
+
 		// Approximate n-th root using Newton-Raphson.
 		// If fast exponentials and logarithms are available,
-		// use a first calculation to speed up convergence.
+		// use a first calculation to speed up convergence,
+		// otherwise start from x or from a smaller power of 2
+		// which is not smaller than the root.
 #ifdef THEORETICA_X86
 		real y = exp(ln(x) / n);
 #else
-		real y = x;
+		real y = 1;
+		while(pow(y, n) < x)
+			y *= 2;
+
+		if(x < y)
+			y = x;
 #endif
 
 		unsigned int i = 0;
@@ -896,7 +907,14 @@ namespace theoretica {
 			if((y_pow * y - x) < OPTIMIZATION_TOL)
 				break;
 
-			y = (y * (n - 1) + x / y_pow) / (real) n;
+			const real y_new = (y * (n - 1) + x / y_pow) / (real) n;
+
+			// The iterates decrease towards the root,
+			// until rounding errors prevail
+			if(y_new >= y)
+				break;
+
+			y = y_new;
 			i++;
 		}
 
-- 
2.43.0


From 298e8b57c3344a82dc6c81b7f49e41b428c58e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:47 +0000
Subject: [PATCH 155/180] fix: tanh of dual and multidual numbers was NaN for
 arguments beyond +-710

---
 src/autodiff/dual_functions.h      | 5 ++---
 src/autodiff/multidual_functions.h | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index 6c55408..57031f8 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -218,10 +218,9 @@ namespace theoretica {
 	/// Compute the hyperbolic tangent of a dual number
 	inline dual tanh(dual x) {
 
-		const real exp_x = exp(x.Re());
 		return dual(
-			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			4.0 * x.Dual() / square(exp_x + 1.0 / exp_x)
+			tanh(x.Re()),
+			x.Dual() / square(cosh(x.Re()))
 		);
 	}
 
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 25845a3..b4bccb7 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -214,10 +214,9 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> tanh(multidual<N> x) {
 
-		real exp_x = exp(x.Re());
 		return multidual<N>(
-			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() * 4.0 / square(exp_x + 1.0 / exp_x));
+			tanh(x.Re()),
+			x.Dual() / square(cosh(x.Re())));
 	}
 
 }
-- 
2.43.0


From 73bf65bde9c8451cd993950b530591ee30bcc63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:15 +0000
Subject: [PATCH 156/180] fix: Poisson and binomial masses of big counts were
 infinite or NaN (poisson(171; 100), binomial with n = 1500)

---
 src/statistics/distributions.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 867547f..d7a108f 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -103,6 +103,10 @@ namespace theoretica {
 		/// Poisson distribution
 		inline real poisson(unsigned int k, real lambda) {
 
+			// Use logarithms for big values, as the factors would overflow
+			if(lambda > 0 && (k > 100 || lambda > 100))
+				return exp(k * ln(lambda) - lambda - special::lngamma(k + 1.0));
+
 			return exp(-lambda) * pow(lambda, k) / fact<real>(k);
 		}
 
@@ -125,6 +129,12 @@ namespace theoretica {
 			if(nu > n)
 				return 0;
 
+			// Use logarithms for big values, as the factors would overflow
+			if(n > 500 && p > 0 && p < 1)
+				return exp(special::lngamma(n + 1.0) - special::lngamma(nu + 1.0)
+					- special::lngamma(n - nu + 1.0)
+					+ nu * ln(p) + (n - nu) * ln(1 - p));
+
 			return binomial_coeff<real>(n, nu) *
 				pow(p, nu) * pow(1 - p, n - nu);
 		}
-- 
2.43.0


From 300b58270ee5fa1ee7c7f52d4d8b12ad600b5a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:15 +0000
Subject: [PATCH 157/180] fix: chi-squared and Student densities of many
 degrees of freedom were infinite or NaN (chi-squared from 250, Student from
 300), and half_gamma infinite from 303

---
 src/core/special.h             | 14 +++++++++++---
 src/statistics/distributions.h | 14 ++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/core/special.h b/src/core/special.h
index eb4eb66..09b8479 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -45,9 +45,17 @@ namespace theoretica {
 				return nan();
 			}
 
-			return (k % 2 == 0)
-		        ? fact<real>(k / 2 - 1)
-		        : double_fact<real>(k - 2) * SQRTPI / pow(real(2), (k - 1) / 2);
+			if(k % 2 == 0)
+				return fact<real>(k / 2 - 1);
+
+			// Use the double factorial identity, dividing each
+			// factor by 2, as the whole product would overflow
+			real res = SQRTPI;
+
+			for (unsigned int i = 1; i < k; i += 2)
+				res *= i / real(2);
+
+			return res;
 		}
 
 
diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index d7a108f..401dc44 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -183,6 +183,11 @@ namespace theoretica {
 			if(x < 0)
 				return 0;
 
+			// Use logarithms for big values, as the factors would overflow
+			if(k > 100 && x > 0)
+				return exp((k / 2.0 - 1) * ln(x / 2) - x / 2
+					- special::lngamma(k / 2.0)) / 2;
+
 			const real coeff = special::half_gamma(k);
 
 			if(k % 2 == 0)
@@ -208,6 +213,10 @@ namespace theoretica {
 			if(x < 0)
 				return 0;
 
+			// Use logarithms for big values, as the factors would overflow
+			if(k > 100 && x > 0)
+				return exp((k / 2.0 - 1) * ln(x / 2) - x / 2 - ln(half_gamma_k)) / 2;
+
 			if(k % 2 == 0)
 				return pow(x, int(k / 2) - 1) * exp(-x / 2.0)
 					/ (pow(SQRT2, k) * half_gamma_k);
@@ -282,6 +291,11 @@ namespace theoretica {
 
 			const real a = 1 + (x * x / nu);
 
+			// Use logarithms for big values, as the coefficients would overflow
+			if(nu > 100)
+				return exp(special::lngamma((nu + 1.0) / 2) - special::lngamma(nu / 2.0)
+					- (nu + 1.0) * ln(a) / 2) / (sqrt(nu) * SQRTPI);
+
 			return (special::half_gamma(nu + 1) / special::half_gamma(nu))
 					* pow(sqrt(a), -nu - 1) / (sqrt(nu) * SQRTPI);
 		}
-- 
2.43.0


From 186de1d51a7aecb66354091c76b8757f7094db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:15 +0000
Subject: [PATCH 158/180] fix: gamma and Erlang densities of big shapes were
 infinite or NaN (shape 150 and above, or 100 with rate 10000)

---
 src/statistics/distributions.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 401dc44..f3ef790 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -245,6 +245,11 @@ namespace theoretica {
 			if(x < 0)
 				return 0;
 
+			// Use logarithms for big values, as the factors would overflow
+			if(alpha > 20 && x > 0)
+				return beta * exp((alpha - 1) * ln(beta * x)
+					- beta * x - special::lngamma(alpha));
+
 			return powf(beta, alpha) * powf(x, alpha - 1)
 				* exp(-beta * x) / special::gamma(alpha);
 		}
@@ -502,6 +507,11 @@ namespace theoretica {
 			if(x < 0)
 				return 0;
 
+			// Use logarithms for big values, as the factors would overflow
+			if(k > 100 && x > 0)
+				return lambda * exp((k - 1) * ln(lambda * x)
+					- lambda * x - special::lngamma(k));
+
 			return pow(lambda, k) * pow(x, k - 1)
 					* exp(-lambda * x) / fact<real>(k - 1);
 		}
-- 
2.43.0


From d063e65244314a957a679b7d85a492f39089ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:15 +0000
Subject: [PATCH 159/180] fix: Bernoulli, Poisson and binomial masses from a
 parameter vector were not zero at negative points

---
 src/statistics/distributions.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index f3ef790..4669689 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -95,6 +95,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(k < 0)
+				return 0;
+
 			return bernoulli(static_cast<unsigned int>(k), theta[0]);
 
 		}
@@ -119,6 +122,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(k < 0)
+				return 0;
+
 			return poisson(static_cast<unsigned int>(k), theta[0]);
 		}
 
@@ -148,6 +154,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(nu < 0)
+				return 0;
+
 			return binomial(static_cast<unsigned int>(nu),
 				static_cast<unsigned int>(theta[0]), theta[1]);
 		}
-- 
2.43.0


From 97fca4f1242dce85fa817cd344d4d7cfe8a64280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:15 +0000
Subject: [PATCH 160/180] fix: the multinomial mass was not zero for outcomes
 which do not add up to the number of trials

---
 src/statistics/distributions.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 4669689..c8d3dc7 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -174,6 +174,15 @@ namespace theoretica {
 				return nan();
 			}
 
+			// The outcomes of all trials must be counted
+			unsigned int sum = 0;
+
+			for (unsigned int i = 0; i < k; ++i)
+				sum += x[i];
+
+			if(sum != n)
+				return 0;
+
 			real res = fact<real>(n);
 
 			for (unsigned int i = 0; i < k; ++i)
-- 
2.43.0


From 85a236563a601c80e0a0a64c2ed20cd65f6b8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:43 +0000
Subject: [PATCH 161/180] fix: powf(0, a) was NaN for every exponent, and with
 it the gamma density at 0 and the beta density at 0 and 1

---
 src/core/real_analysis.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 437be0e..af8e0c7 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -828,6 +828,17 @@ namespace theoretica {
 	/// Approximated as \f$e^{a ln(|x|) sgn(x)}\f$
 	inline real powf(real x, real a) {
 
+		// The logarithm is not defined at zero
+		if(x == 0) {
+
+			if(a < 0) {
+				TH_MATH_ERROR("powf", x, DIV_BY_ZERO);
+				return inf();
+			}
+
+			return (a == 0) ? 1 : 0;
+		}
+
 		if(a < 0)
 			return 1.0 / exp(-a * ln(abs(x)) * sgn(x));
 
-- 
2.43.0


From 044286fe411e8b50d9f865639730684ad97f0c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:19 +0000
Subject: [PATCH 162/180] fix: beta, Pareto and Erlang densities of big shapes
 were NaN or infinite (beta(1000, 500), Pareto with exponent 100 and minimum
 10000, Erlang of shape 100 and rate 10000)

---
 src/statistics/distributions.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index c8d3dc7..3cfafc1 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -292,6 +292,15 @@ namespace theoretica {
 			if(x < 0 || x > 1)
 				return 0;
 
+			if((x == 0 && alpha > 1) || (x == 1 && beta > 1))
+				return 0;
+
+			// Use logarithms for big values, as the factors would underflow
+			if(alpha + beta > 100 && x > 0 && x < 1)
+				return exp((alpha - 1) * ln(x) + (beta - 1) * ln(1 - x)
+					+ special::lngamma(alpha + beta)
+					- special::lngamma(alpha) - special::lngamma(beta));
+
 			return powf(x, alpha - 1) * powf(1 - x, beta - 1)
 				/ special::beta(alpha, beta);
 		}
@@ -498,7 +507,7 @@ namespace theoretica {
 			if(x < x_m)
 				return 0;
 
-			return alpha * powf(x_m, alpha) / powf(x, alpha + 1);
+			return alpha * powf(x_m / x, alpha) / x;
 		}
 
 
@@ -526,7 +535,7 @@ namespace theoretica {
 				return 0;
 
 			// Use logarithms for big values, as the factors would overflow
-			if(k > 100 && x > 0)
+			if(k > 30 && x > 0)
 				return lambda * exp((k - 1) * ln(lambda * x)
 					- lambda * x - special::lngamma(k));
 
-- 
2.43.0


From 1201f6e7b72e8df8dcdd5cbcb43f32fac6fe9da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 163/180] fix: an unfitted linear_model, and one whose fit
 failed, had uninitialised errors, chi-squared, p-value and degrees of freedom

---
 src/statistics/regression.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 7401050..f37507c 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -286,37 +286,37 @@ namespace theoretica {
 		struct linear_model {
 
 			/// Intercept
-			real A;
+			real A = nan();
 
 			/// Estimated error on A
-			real sigma_A;
+			real sigma_A = nan();
 
 			/// Slope
-			real B;
+			real B = nan();
 
 			/// Estimated error on B
-			real sigma_B;
+			real sigma_B = nan();
 
 			/// Covariance matrix of the coefficients A and B
-			mat2 covar_mat;
+			mat2 covar_mat = mat2(nan());
 
 			/// Total error on linearization
-			real err;
+			real err = nan();
 
 			/// Chi-squared on linearization
-			real chi_squared;
+			real chi_squared = nan();
 
 			/// Number of degrees of freedom
 			/// of the linear regression
-			unsigned int ndf;
+			unsigned int ndf = 0;
 
 			/// The p-value associated to the
 			/// computed Chi-squared
-			real p_value;
+			real p_value = nan();
 
 
 			/// Default constructor
-			linear_model() : A(nan()), B(nan()) {}
+			linear_model() {}
 
 
 			/// Construct a linear model from data
-- 
2.43.0


From 842d0912c7605c41c34f31e4e6be2e810693552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:07 +0000
Subject: [PATCH 164/180] fix: seeding the default generator (xoshiro) or
 wyrand again had no effect on the sequence

---
 src/pseudorandom/prng.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index fc306b7..c34fcc3 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -52,7 +52,17 @@ namespace theoretica {
 
 			/// Seed the PRNG.
 			inline void seed(uint64_t seed) {
+
 				x = seed;
+
+				// The state of these generators is held by their parameters
+				const pseudorandom_function f_xoshiro = randgen_xoshiro;
+				const pseudorandom_function f_wyrand = randgen_wyrand;
+
+				if(f == f_xoshiro)
+					param = PRNG::xoshiro(seed).param;
+				else if(f == f_wyrand && param.size() == 3)
+					param[0] = seed;
 			}
 
 
-- 
2.43.0


From 96b6d70b604ff10001a12b5a12e8faa95ead0d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:35 +0000
Subject: [PATCH 165/180] fix: acos(-0.0) was -pi/2

---
 src/core/real_analysis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index af8e0c7..eca2dac 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1155,6 +1155,9 @@ namespace theoretica {
 			return nan();
 		}
 
+		if(x == 0)
+			return PI2;
+
 		if(x < 0)
 			return atan(sqrt(1 - x * x) / x) + PI;
 		else
-- 
2.43.0


From eeaf984aa2a3cfb93934307015cac4966c18ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:35 +0000
Subject: [PATCH 166/180] fix: the log-gamma function lost its precision for
 small arguments: wrong by 0.1 at 1e-15 and infinite below 1e-16

---
 src/core/special.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/special.h b/src/core/special.h
index 09b8479..6c796cf 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -94,7 +94,7 @@ namespace theoretica {
 			real A5 = c[0];
 
 			for (int i = 1; i < 7; ++i)
-				A5 += c[i] / (x + i - 1);
+				A5 += c[i] / (x + (i - 1));
 
 			return (x - 0.5) * (ln(x + 4.5) - 1)
 					- 5 + ln(SQRTPI * SQRT2 * A5);
-- 
2.43.0


From efd42c8ca2ebbee7092c22ea83c8330c8e945aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:35 +0000
Subject: [PATCH 167/180] fix: the gamma function was NaN for positive
 arguments below the machine epsilon

---
 src/core/special.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/special.h b/src/core/special.h
index 6c796cf..72bf0f8 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -111,7 +111,7 @@ namespace theoretica {
 			const real x_fract = fract(x);
 
 			// Check if x is a pole or an integer number
-			if(x_fract < MACH_EPSILON) {
+			if(x_fract < MACH_EPSILON && (x <= 0 || x >= 1)) {
 
 				if(x <= 0) {
 					TH_MATH_ERROR("gamma", x, OUT_OF_DOMAIN);
-- 
2.43.0


From d8bf768d296d3791148dbe65b48bf53325ee0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:22 +0000
Subject: [PATCH 168/180] fix: the Hermite normalisation and quadrature weights
 overflowed from degree 17 on

---
 src/polynomial/orthogonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 5111af5..d9d37d0 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -205,7 +205,7 @@ namespace theoretica {
 	/// Normalization constant for the nth Hermite polynomial
 	inline real hermite_polyn_normalization(unsigned int n) {
 
-		return 1.0 / sqrt((1 << n) * fact(n) * SQRTPI);
+		return 1.0 / sqrt(pow(real(2), n) * fact<real>(n) * SQRTPI);
 	}
 
 
@@ -327,7 +327,7 @@ namespace theoretica {
 
 		for (unsigned int i = 0; i < n; ++i) {
 			weights.push_back(
-				((1 << (n - 1)) * fact(n) * SQRTPI) / square(n * H(roots[i]))
+				(pow(real(2), n - 1) * fact<real>(n) * SQRTPI) / square(n * H(roots[i]))
 			);
 		}
 
-- 
2.43.0


From 7cade73f453c3bd00daa7982b488ac21a67abf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:22 +0000
Subject: [PATCH 169/180] fix: associated Legendre functions of negative order
 were wrong for l + |m| > 20, where the factorials overflow

---
 src/polynomial/orthogonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index d9d37d0..86b9f9a 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -89,7 +89,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= pow(-1, m) * real(fact(l + m) / fact(l - m));
+			K *= pow(-1, m) * fact<real>(l + m) / fact<real>(l - m);
 		}
 
 		for (int i = 0; i < m; ++i)
@@ -121,7 +121,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= fact(l + m) / fact(l - m);
+			K *= fact<real>(l + m) / fact<real>(l - m);
 		}
 
 		polynomial<real> L = legendre_polynomial(l);
-- 
2.43.0


From e7b1463110c65759cfbf50ed26f178c5d0de8d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:35 +0000
Subject: [PATCH 170/180] fix: the inverse of well-conditioned matrices with a
 small leading element was wrong, as rows were exchanged only for null pivots

---
 src/algebra/algebra.h | 43 ++++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index fa384fa..57d0f0f 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1959,34 +1959,23 @@ namespace theoretica {
 			// Iterate on all columns
 			for (unsigned int i = 0; i < src.rows(); ++i) {
 				
-				// Make sure the element on the diagonal
-				// is non-zero by adding the first non-zero row
-				if(A(i, i) == (Type) 0) {
-
-					bool flag = false;
-
-					// Iterate on all rows
-					for (unsigned int j = i + 1; j < src.rows(); ++j) {
-
-						// Add the j-th row to the i-th row
-						// if Aji is non-zero
-						if(A(j, i) != (Type) 0) {
-
-							for (unsigned int k = 0; k < src.rows(); ++k) {
-								A(i, k) += A(j, k);
-								dest(i, k) += dest(j, k);
-							}
-
-							flag = true;
-							break;
-						}
-					}
+				// Find the row with the biggest element in the column,
+				// as a small pivot would lose all precision
+				unsigned int pivot = i;
+
+				for (unsigned int j = i + 1; j < src.rows(); ++j)
+					if(abs(A(pivot, i)) < abs(A(j, i)))
+						pivot = j;
+
+				if(A(pivot, i) == (Type) 0) {
+					TH_MATH_ERROR("algebra::inverse", pivot, IMPOSSIBLE_OPERATION);
+					mat_error(dest);
+					return dest;
+				}
 
-					if(!flag) {
-						TH_MATH_ERROR("algebra::inverse", flag, IMPOSSIBLE_OPERATION);
-						mat_error(dest);
-						return dest;
-					}
+				if(pivot != i) {
+					mat_swap_rows(A, pivot, i);
+					mat_swap_rows(dest, pivot, i);
 				}
 
 				auto inv_pivot = ((Type) 1.0) / A(i, i);
-- 
2.43.0


From ffa6917bcc4aa30a64c03527e0529b1c62275394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:36 +0000
Subject: [PATCH 171/180] fix: the in-place Cholesky decomposition did not
 report matrices which are not positive definite

---
 src/algebra/algebra.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 57d0f0f..4faef37 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1550,6 +1550,11 @@ namespace theoretica {
 			// Compute the Cholesky decomposition in-place
 			for (unsigned int k = 0; k < A.rows(); ++k) {
 
+				if (A(k, k) < MACH_EPSILON) {
+					TH_MATH_ERROR("algebra::decompose_cholesky_inplace", A(k, k), INVALID_ARGUMENT);
+					return mat_error(A);
+				}
+
 				A(k, k) = sqrt(A(k, k));
 
 				for (unsigned int i = k + 1; i < A.rows(); ++i)
-- 
2.43.0


From f2949d580e8cf37ec0a48ed78bf0ff884d00fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:43 +0000
Subject: [PATCH 172/180] fix: the solvers of factored systems, LU in place and
 Cholesky, divided by null diagonal elements without reporting it

---
 src/algebra/algebra.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 4faef37..9cbb719 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1730,6 +1730,11 @@ namespace theoretica {
 				for (unsigned int j = i + 1; j < A.rows(); ++j)
 					sum += A(i, j) * b[j];
 
+				if (A(i, i) == Type(0.0)) {
+					TH_MATH_ERROR("algebra::solve_lu_inplace", i, DIV_BY_ZERO);
+					return vec_error(b);
+				}
+
 				b[i] = (b[i] - sum) / A(i, i);
 			}
 		
@@ -1891,6 +1896,11 @@ namespace theoretica {
 				for (unsigned int j = 0; j < i; ++j)
 					sum += L(i, j) * x[j];
 
+				if (L(i, i) == Type(0.0)) {
+					TH_MATH_ERROR("algebra::solve_cholesky", i, DIV_BY_ZERO);
+					return vec_error(x);
+				}
+
 				x[i] = (x[i] - sum) / L(i, i);
 			}
 
-- 
2.43.0


From 4941895fd8760fb32d890ac0e6e260d5b4576bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:05 +0000
Subject: [PATCH 173/180] fix: the LU decompositions divided by null pivots
 without reporting it

---
 src/algebra/algebra.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 9cbb719..784217f 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1425,6 +1425,13 @@ namespace theoretica {
 						U(i, j) -= L(i, k) * U(k, j);
 				}
 
+				// A null pivot cannot be used to eliminate the following rows
+				if (i + 1 < A.rows() && U(i, i) == matrix_element_t<Matrix3>(0.0)) {
+					TH_MATH_ERROR("algebra::decompose_lu", i, DIV_BY_ZERO);
+					mat_error(L); mat_error(U);
+					return;
+				}
+
 				for(unsigned int j = i + 1; j < A.rows(); ++j) {
 
 					L(j, i) = A(j, i);
@@ -1457,6 +1464,12 @@ namespace theoretica {
 
 			for(unsigned int j = 0; j < A.cols(); ++j) {
 
+				// A null pivot cannot be used to eliminate the following rows
+				if (j + 1 < A.rows() && A(j, j) == matrix_element_t<Matrix>(0.0)) {
+					TH_MATH_ERROR("algebra::decompose_lu_inplace", j, DIV_BY_ZERO);
+					return mat_error(A);
+				}
+
 				for(unsigned int i = j + 1; i < A.rows(); ++i) {
 
 					A(i, j) /= A(j, j);
-- 
2.43.0


From 8b4a694745278e3cabd35e57f1a54ec9667aab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:22 +0000
Subject: [PATCH 174/180] fix: the Rayleigh iteration gave NaN on convergence,
 when the shifted matrix becomes singular, and solve rejected small regular
 matrices

---
 src/algebra/algebra.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 784217f..b5cb7ba 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1780,7 +1780,7 @@ namespace theoretica {
 					if (abs(A(pivot, j)) < abs(A(i, j)))
 						pivot = i;
 
-				if (abs(A(pivot, j)) < MACH_EPSILON) {
+				if (A(pivot, j) == matrix_element_t<Matrix>(0.0)) {
 					TH_MATH_ERROR("algebra::solve_lu", j, DIV_BY_ZERO);
 					return vec_error(b);
 				}
@@ -2542,6 +2542,11 @@ namespace theoretica {
 				// subsequent eigenvalues steps, to avoid copying matrix A
 				mat_shift_diagonal(A_shift, lambda_prev - lambda_curr);
 
+				// Stop when the current vector is an eigenvector,
+				// as the shifted matrix becomes singular
+				if (abs(norm(transform(A_shift, x_curr))) <= tolerance)
+					break;
+
 				// Solve the linear system each time, as the shifted
 				// matrix is continuously updated
 				x_prev = x_curr;
@@ -2619,6 +2624,11 @@ namespace theoretica {
 				// subsequent eigenvalues steps, to avoid copying matrix A
 				mat_shift_diagonal(A_shift, lambda_prev - lambda_curr);
 
+				// Stop when the current vector is an eigenvector,
+				// as the shifted matrix becomes singular
+				if (abs(norm(transform(A_shift, x_curr))) <= tolerance)
+					break;
+
 				// Solve the linear system each time, as the shifted
 				// matrix is continuously updated
 				x_prev = x_curr;
-- 
2.43.0


From c04f87a38a88cb3895d02cec2009c498cbf76c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:48 +0000
Subject: [PATCH 175/180] fix: operations between a dynamic multidual and a
 constant multidual report a size mismatch and give NaN

---
 src/autodiff/multidual.h | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 7bf17ea..ca670ee 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -111,9 +111,26 @@ namespace theoretica {
 			}
 
 
+			/// Linear combination (x * u + y * w) of two dual parts.
+			/// An empty dynamic vector is the dual part of
+			/// a constant and is considered null.
+			inline static vec<real, N> combine(
+				const vec<real, N>& u, real x,
+				const vec<real, N>& w, real y) {
+
+				if(u.size() == 0)
+					return w * y;
+
+				if(w.size() == 0)
+					return u * x;
+
+				return u * x + w * y;
+			}
+
+
 			/// Sum two multidual numbers
 			inline multidual operator+(const multidual& other) const {
-				return multidual(a + other.a, v + other.v);
+				return multidual(a + other.a, combine(v, 1, other.v, 1));
 			}
 
 
@@ -131,7 +148,7 @@ namespace theoretica {
 
 			/// Subtract two multidual numbers
 			inline multidual operator-(const multidual& other) const {
-				return multidual(a - other.a, v - other.v);
+				return multidual(a - other.a, combine(v, 1, other.v, -1));
 			}
 
 
@@ -143,7 +160,7 @@ namespace theoretica {
 
 			/// Multiply two multidual numbers
 			inline multidual operator*(const multidual& other) const {
-				return multidual(a * other.a, other.v * a + v * other.a);
+				return multidual(a * other.a, combine(other.v, a, v, other.a));
 			}
 
 
@@ -162,7 +179,7 @@ namespace theoretica {
 				}
 
 				return multidual(a / other.a,
-					(v * other.a - other.v * a) / (other.a * other.a));
+					combine(v, other.a, other.v, -a) / (other.a * other.a));
 			}
 
 			/// Divide a multidual number by a real number
@@ -180,8 +197,7 @@ namespace theoretica {
 			/// Sum a real number to this one
 			inline multidual& operator+=(const multidual& other) {
 
-				a += other.a;
-				v += other.v;
+				*this = operator+(other);
 				return *this;
 			}
 
@@ -196,8 +212,7 @@ namespace theoretica {
 			/// Subtract a real number from this one
 			inline multidual& operator-=(const multidual& other) {
 
-				a -= other.a;
-				v -= other.v;
+				*this = operator-(other);
 				return *this;
 			}
 
-- 
2.43.0


From 004b8c5db420ed5206a2ceb80ee1c9b7b8c1270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:13 +0000
Subject: [PATCH 176/180] fix: gradients, Jacobians and propagated errors of
 functions which are constant in dynamic multiduals have the wrong size or
 read out of bounds

---
 src/autodiff/autodiff.h    | 7 ++++++-
 src/autodiff/multidual.h   | 4 ++--
 src/statistics/errorprop.h | 6 ++++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index b0338b4..7ea9ad0 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -150,7 +150,12 @@ namespace theoretica {
 			// Extract the return type of the function
 			using R = return_type_t<Function>;
 
-			return f(make_autodiff_arg<R>(x)).Dual();
+			R df = f(make_autodiff_arg<R>(x));
+
+			// The dual part of a constant may be empty
+			df.resize(x.size());
+
+			return df.Dual();
 		}
 
 
diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index ca670ee..acfd6b2 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -313,7 +313,7 @@ namespace theoretica {
 
 				for (unsigned int i = 0; i < v.size(); ++i)
 					for (unsigned int j = 0; j < v.size(); ++j)
-						J.at(j, i) = v.get(j).Dual().get(i);
+						J.at(j, i) = (i < v.get(j).size()) ? v.get(j).Dual().get(i) : 0;
 				
 				return J;
 			}
@@ -333,7 +333,7 @@ namespace theoretica {
 				for (unsigned int i = 0; i < v.size(); ++i) {
 					
 					for (unsigned int j = 0; j < v.size(); ++j)
-						J.at(j, i) = v.get(j).Dual().get(i);
+						J.at(j, i) = (i < v.get(j).size()) ? v.get(j).Dual().get(i) : 0;
 					
 					x[i] = v.get(i).Re();
 				}
diff --git a/src/statistics/errorprop.h b/src/statistics/errorprop.h
index 91a3113..f635f4e 100644
--- a/src/statistics/errorprop.h
+++ b/src/statistics/errorprop.h
@@ -67,7 +67,8 @@ namespace theoretica {
 			}
 
 			real err_sqr = 0;
-			const multidual<N> df = f(multidual<N>::make_argument(x_best));
+			multidual<N> df = f(multidual<N>::make_argument(x_best));
+			df.resize(x_best.size());
 
 			for (unsigned int i = 0; i < x_best.size(); ++i)
 				err_sqr += square(df.Dual().get(i) * delta_x.get(i));
@@ -109,7 +110,8 @@ namespace theoretica {
 			}
 
 			real err_sqr = 0;
-			const multidual<N> df = f(multidual<N>::make_argument(x_best));
+			multidual<N> df = f(multidual<N>::make_argument(x_best));
+			df.resize(x_best.size());
 
 			for (unsigned int i = 0; i < cm.rows(); ++i)
 				for (unsigned int j = 0; j < cm.cols(); ++j)
-- 
2.43.0


From b35f185f37a78bcf2a6b2e37c905ea108e1dd902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:42 +0000
Subject: [PATCH 177/180] fix: root finders return NaN or infinity without an
 error when the derivative is null, and NaN at an exact multiple root

---
 src/optimization/roots.h | 59 +++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 1f2bc5c..e497cb0 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -225,11 +225,16 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// Stop at an exact root
+			if(f_x == 0)
+				return x;
+
 			x = x - (f_x / Df(x));
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(x) < inf())) {
 			TH_MATH_ERROR("root_newton", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -265,11 +270,15 @@ namespace theoretica {
 			// Compute the function and its derivative at the same time
 			s = f(dual(x, 1.0));
 
+			// Stop at an exact root
+			if(s.Re() == 0)
+				return x;
+
 			x = x - (s.Re() / s.Dual());
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(x) < inf())) {
 			TH_MATH_ERROR("root_newton", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -305,11 +314,16 @@ namespace theoretica {
 		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
+
+			// Stop at an exact root
+			if(f_z.sqr_norm() == 0)
+				return z;
+
 			z = z - (f_z / Df(z));
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(z.Re()) || is_nan(z.Im())) {
 			TH_MATH_ERROR("root_newton", z.Re(), NO_ALGO_CONVERGENCE);
 			return complex<Type>(nan(), nan());
 		}
@@ -344,13 +358,18 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// Stop at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 
 			x = x - (2 * f_x * df_x) / (2 * square(df_x) - f_x * D2f(x));
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(x) < inf())) {
 			TH_MATH_ERROR("root_halley", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -388,6 +407,11 @@ namespace theoretica {
 			s = f(dual2(x, 1, 0));
 
 			const real f_x = s.Re();
+
+			// Stop at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real df_x = s.Dual1();
 			const real d2f_x = s.Dual2();
 
@@ -395,7 +419,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(x) < inf())) {
 			TH_MATH_ERROR("root_halley", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -438,7 +462,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(x) < inf())) {
 			TH_MATH_ERROR("root_steffensen", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -478,6 +502,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// Stop at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 
@@ -486,7 +515,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(x) < inf())) {
 			TH_MATH_ERROR("root_chebyshev", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -527,6 +556,11 @@ namespace theoretica {
 			s = f(dual2(x, 1.0, 0.0));
 
 			const real f_x = s.Re();
+
+			// Stop at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real df_x = s.Dual1();
 			const real u = f_x / df_x;
 
@@ -534,7 +568,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(x) < inf())) {
 			TH_MATH_ERROR("root_chebyshev", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -586,7 +620,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(x) < inf())) {
 			TH_MATH_ERROR("root_ostrowski", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -625,6 +659,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// Stop at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = Df(x - 2.0 * u / 3.0);
@@ -633,7 +672,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(x) < inf())) {
 			TH_MATH_ERROR("root_jarrat", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
-- 
2.43.0


From 73e04a499b5a6b0ec515baf8c418d463bf542071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:00 +0000
Subject: [PATCH 178/180] fix: gradient searches which diverge to NaN do not
 report an error

---
 src/optimization/multi_extrema.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 754325c..de323e2 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -53,7 +53,7 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x.norm())) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(guess.size(), nan());
 		}
@@ -99,7 +99,7 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x.norm())) {
 			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(guess.size(), nan());
 		}
@@ -150,7 +150,7 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x.norm())) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(guess.size(), nan());
 		}
@@ -201,7 +201,7 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x.norm())) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(guess.size(), nan());
 		}
-- 
2.43.0


From ea80e6558c141bba3f73b53a6022ff2b1bf8dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:30 +0000
Subject: [PATCH 179/180] fix: make_hermitian did not conjugate the elements of
 the diagonal

---
 src/algebra/algebra.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index b5cb7ba..78f261a 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -521,6 +521,9 @@ namespace theoretica {
 					m(i, j) = conjugate(m(j, i));
 					m(j, i) = conjugate(buff);
 				}
+
+				// The elements of the diagonal stay in place
+				m(i, i) = conjugate(m(i, i));
 			}
 
 			return m;
-- 
2.43.0


From c78302633efee95b16ad7f0a18d5278bd5798acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:31 +0000
Subject: [PATCH 180/180] fix: the list constructor of dynamic matrices
 accepted rows without elements

---
 src/algebra/mat.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 0c380ef..898547d 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -754,16 +754,17 @@ namespace theoretica {
 
 			for (const auto& row : rows) {
 
+				// Rows without elements are also checked
+				if (i && row.size() != col_sz) {
+					TH_MATH_ERROR("mat::mat", row.size(), INVALID_ARGUMENT);
+					algebra::mat_error(*this);
+					return;
+				}
+
 				for (const auto& x : row) {
 				
-					if (!i && !j) {
+					if (!i && !j)
 						this->resize(rows.size(), row.size());
-					}
-					else if (row.size() != col_sz) {
-						TH_MATH_ERROR("mat::mat", row.size(), INVALID_ARGUMENT);
-						algebra::mat_error(*this);
-						return;
-					}
 
 					at(i, j) = x;
 					j = (j + 1) % col_sz;
-- 
2.43.0

