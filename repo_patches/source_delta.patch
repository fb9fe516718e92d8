From b22cf4e13b7a15205a7027b7fdf6aa3d63fc30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 01/53] fix: expectReal rejected matching reals and accepted
 all others

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cdf5cc2..1ea9309 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2651,7 +2651,7 @@ public:
 
 	void expectReal(Real expected) {
 		Real seen = real();
-		if (details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
+		if (!details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
 			*out << "Expected " << expected << " but got " << seen << "!";
 			if (std::isfinite(seen) and std::isfinite(expected)) {
 				Real absDiff = std::abs(seen-expected);
-- 
2.43.0


From 82bc9c682e03d29fdef18f66c73f9b41dbe72d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 02/53] fix: allAdjacent on containers tested noneAdjacent

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 1ea9309..7d52db4 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -630,7 +630,7 @@ constexpr boolean<Integer> allAdjacent(RandomIt first, RandomIt last, BinaryPred
 }
 template<typename C, typename BinaryPredicate>
 constexpr boolean<Integer> allAdjacent(const C& c, BinaryPredicate p) {
-	return noneAdjacent(std::begin(c), std::end(c), p);
+	return allAdjacent(std::begin(c), std::end(c), p);
 }
 
 template<typename RandomIt>
-- 
2.43.0


From 56fe3ffc8087bf25a6cbda2ee1b8023220891bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 03/53] fix: pass float tolerances to the streams of all
 validators and interactors

---
 src/validate.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 7d52db4..75f1787 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2904,8 +2904,8 @@ namespace AnswerValidator {
 		ValidateBase::details::init(argc, argv);
 		juryOut = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2927,9 +2927,9 @@ namespace OutputValidator {
 		juryOut = OutputStream(std::filesystem::path(arguments[3]) / JUDGE_MESSAGE, MESSAGE_MODE);
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2951,8 +2951,8 @@ namespace Interactor {
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 		toTeam = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 	}
 
 } // namespace Interactor
-- 
2.43.0


From 19b89fedd089f2e5d0e44f02537cfa5678291158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 04/53] fix: Random::prime returned 2 for ranges which end at 2

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 75f1787..19402bd 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1592,7 +1592,7 @@ namespace Random {
 		if (sampleL < sampleU) {
 			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
-				if (isPrime(res)) return res;
+				if (res < upper and isPrime(res)) return res;
 			}
 		}
 		judgeAssert<std::domain_error>(false, "Random::prime(): range contains no primes?");
-- 
2.43.0


From 100ac35c6114cb644ad5df91a97f1b73227a21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 05/53] fix: powMod returned 1 for mod 1 and exponent 0

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 19402bd..6903e4a 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1018,7 +1018,7 @@ namespace details {
 	}
 
 	constexpr UInteger powMod(UInteger base, UInteger exp, UInteger mod) {
-		UInteger res = 1;
+		UInteger res = 1 % mod;
 		if (mod <= 0x1'0000'0000) {
 			while (exp > 0) {
 				if (exp & 1) res = (base * res) % mod;
-- 
2.43.0


From bbb3bf27236464c0d50acf6a6e8e01a804e4de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 06/53] fix: multInv did not find the inverse of negative
 numbers

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 6903e4a..9e766be 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1078,7 +1078,7 @@ constexpr Integer multInv(Integer n, Integer mod) {
 	judgeAssert<std::domain_error>(mod > 0, "multInv(): mod must be positive!");
 	Integer x = 0;
 	Integer y = 0;
-	Integer g = details::extendedEuclid(n, mod, x, y);
+	Integer g = details::extendedEuclid(applyMod(n, mod), mod, x, y);
 	if (g != 1) return -1;
 	else return applyMod(x, mod);
 }
-- 
2.43.0


From 6efa50e45fab4b0097010ce645bdf7139edef54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 07/53] fix: Random::real could return 1 after rounding to
 double

---
 src/validate.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 9e766be..d36dcd0 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1391,15 +1391,18 @@ namespace Random {
 	}
 
 	Real real() {// in [0, 1)
-		UInteger mantissa = details::randomNumberGenerator() | (1ull << 63);
-		int exponent = -64;
-		UInteger x;
-		do {
-			x = details::randomNumberGenerator();
-			//count trailing (or leading) zeroes in x
-			exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
-		} while (x == 0);
-		return std::ldexp(mantissa, exponent);
+		while (true) {
+			UInteger mantissa = details::randomNumberGenerator() | (1ull << 63);
+			int exponent = -64;
+			UInteger x;
+			do {
+				x = details::randomNumberGenerator();
+				//count trailing (or leading) zeroes in x
+				exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
+			} while (x == 0);
+			Real res = std::ldexp(mantissa, exponent);
+			if (res < 1.0_real) return res;
+		}
 	}
 	Real real(Real upper) {// in [0, upper)
 		judgeAssert<std::domain_error>(std::isfinite(upper), "Random::real(): Upper must be finite!");
-- 
2.43.0


From 28b68dd04c8df0395c6c097e545174447e7f99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 08/53] fix: sign after a leading plus was accepted in
 arguments

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index d36dcd0..dcabfbe 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -953,7 +953,7 @@ namespace details {
 	bool parse(std::string_view s, T& res) {
 		const char* begin = s.data();
 		const char* end = s.data() + s.size();
-		if (!s.empty() && s[0] == '+') begin++;
+		if (s.size() > 1 and s[0] == '+' and s[1] != '-') begin++;
 		auto [ptr, ec] = std::from_chars(begin, end, res);
 		return ptr == end and ec == std::errc();
 	}
-- 
2.43.0


From 85f24b6d34618308b8d67db7a56c64840f00b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 09/53] fix: Random::perm did not keep fix points which were
 given twice

---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index dcabfbe..2de1293 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1734,7 +1734,8 @@ namespace Random {
 		std::vector<Integer> res(count, -1);
 		for (Integer x : fix) {
 			judgeAssert<std::invalid_argument>(offset <= x and x < offset + count, "Random::perm(): fix point outside of permutation!");
-			std::swap(tmp[x - offset], res[x - offset]);
+			tmp[x - offset] = -1;
+			res[x - offset] = x - offset;
 		}
 		shuffle(tmp);
 		std::size_t i = 0;
-- 
2.43.0


From 203e35c91059214a905777d3ea172d03085f07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 10/53] fix: isLower for strings did not return a witness

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 2de1293..211f006 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -745,9 +745,9 @@ void toDefaultCase(std::string& s) {
 	return toUpper(s);
 }
 
-constexpr bool isLower(std::string_view s) {
-	for (char c : s) if (!isLower(c)) return false;
-	return true;
+constexpr boolean<char> isLower(std::string_view s) {
+	for (char c : s) if (!isLower(c)) return boolean<char>(false, c);
+	return boolean<char>(true);
 }
 
 constexpr boolean<char> isUpper(std::string_view s) {
-- 
2.43.0


From 513640afe53626ca71829769d739a4bb4967de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 11/53] fix: isSimple missed consecutive edges which fold back
 onto each other

---
 src/validate.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/validate.h b/src/validate.h
index 211f006..21edf39 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1269,6 +1269,10 @@ bool isSimple(RandomIt first, RandomIt last) {
 		bool swap = false;
 		Point a = first[i];
 		Point b = first[(i+1) % n];
+		Point c = first[(i+2) % n];
+		// consecutive edges must only share their common corner
+		if (cross(b, a, c) == 0 and
+		    (getX(a) - getX(b)) * (getX(c) - getX(b)) + (getY(a) - getY(b)) * (getY(c) - getY(b)) >= 0) return false;
 		if (getX(a) > getX(b)) swap = true;
 		if (getX(a) == getX(b) and getY(a) > getY(b)) swap = true;
 		if (swap) std::swap(a, b);
-- 
2.43.0


From 9675ec95acec207a911024c3681e9deb005ee861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 12/53] fix: primes overflowed for upper limits close to 2^63

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 21edf39..03cb819 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1126,9 +1126,9 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
 				notPrime[j / 2] = true;
 			}
-			Integer lowest = lower - (lower % (2*i)) + i;
-			if (lowest < lower) lowest += 2*i;
-			for (Integer j = std::max(i * i, lowest); j < upper; j += 2 * i) {
+			UInteger lowest = static_cast<UInteger>(lower - (lower % (2*i))) + i;
+			if (lowest < static_cast<UInteger>(lower)) lowest += 2*i;
+			for (UInteger j = std::max<UInteger>(i * i, lowest); j < static_cast<UInteger>(upper); j += 2 * i) {
 				notPrimeSegment[(j - lower) / 2] = true;
 			}
 		}
-- 
2.43.0


From 83ba997dfd8d7f416b51a7b8116cf172e2929cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 13/53] fix: nonCollinearPoints failed or returned collinear
 points for some primes and rotations

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 03cb819..6252454 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1889,10 +1889,10 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(dim <= 0x1FFF'FFFF, "Random::nonCollinearPoints(): dim too large!");
 		judgeAssert<std::invalid_argument>(n >= 0, "Random::nonCollinearPoints(): dim must be non negative!");
 		judgeAssert<std::invalid_argument>(dim > n, "Random::nonCollinearPoints(): dim too small!");
-		Integer p = prime(dim - 1, 2*dim + 2);
+		Integer p = prime(dim - 1, 2*dim - 1);
 		Integer rotA = 0;
 		Integer rotB = 0;
-		while (rotA == 0 and rotB == 0) {
+		while ((rotA * rotA + rotB * rotB) % p == 0) {
 			rotA = integer(0, p);
 			rotB = integer(0, p);
 		}
-- 
2.43.0


From 8160ab4119d19f6e716888042db32e73254992c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 14/53] fix: Random::normal scaled by the square root of the
 standard deviation

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 6252454..ebea0f2 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1439,7 +1439,7 @@ namespace Random {
 		Real u1 = real();
 		Real u2 = real();
 		Real res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-		return std::sqrt(stddev) * res + mean;
+		return stddev * res + mean;
 	}
 	Real normal(Real lower, Real upper, Real mean, Real stddev) {// in [lower, upper)
 		judgeAssert<std::domain_error>(!std::isnan(lower), "Random::normal(): Lower must not be NaN!");
@@ -1453,10 +1453,10 @@ namespace Random {
 			// Box-Muller-Methode
 			// https://en.wikipedia.org/wiki/Box%E2%80%93Muller_transform
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::sin(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 		}
 	}
-- 
2.43.0


From 440815664981441841dd1b191c3332f91b6a9b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 15/53] fix: Graph::range mixed raw and normalized ids and did
 not compile without edge data

---
 src/graph_gen.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e9d0259..f34deac 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -226,11 +226,9 @@ namespace GraphDetail {
 		Graph range(Integer from, Integer to) const {
 			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
 			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
 			for (const auto& e : getEdges()) {
 				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
+					res.addEdge(e.from, e.to, *e);
 				}
 			}
 			return res;
-- 
2.43.0


From 62e95d742557edf8c5e9aabd4a138e23bbf352e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 16/53] fix: Graph::power inserted every undirected edge twice

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index f34deac..41a92f5 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -513,7 +513,7 @@ namespace GraphDetail {
 				}
 				for (auto [c, d] : queue) {
 					seen[c] = false;
-					if (i != c) {
+					if (DIR ? i != c : i < c) {
 						res.emplaceEdge(i + minId, c + minId);
 					}
 				}
-- 
2.43.0


From e242700624fa66c57f6e9c76d8c7f93f563a4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 17/53] fix: Graph::transitiveClosure returned a reference to a
 temporary

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 41a92f5..f1903db 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -522,7 +522,7 @@ namespace GraphDetail {
 			return res;
 		}
 
-		Graph& transitiveClosure() const {
+		Graph transitiveClosure() const {
 			return power(nodeCount());
 		}
 
-- 
2.43.0


From 205450b619bcd2d7c89b550780a77c19b699339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 18/53] fix: Graph::lineGraph did not compile for graphs
 without edge data

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index f1903db..770a48d 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -571,7 +571,7 @@ namespace GraphDetail {
 		}
 
 		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
+			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
 			Integer nextEdge = 0;
 			for (const auto& e : getEdges()) {
 				tmp.emplaceEdge(e.from, e.to, nextEdge);
-- 
2.43.0


From dc163dde1e0af4a838315b794a11394ef8faabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 19/53] fix: Graph::directed rejected lvalue predicates

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 770a48d..525233d 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -453,7 +453,7 @@ namespace GraphDetail {
 		}
 
 		template<typename PRED>
-		GraphType<E, true> directed(const PRED&& p) const {
+		GraphType<E, true> directed(const PRED& p) const {
 			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
 			GraphType<E, true> res(minId, minId + nodeCount());
 			for (const auto& e : getEdges()) {
-- 
2.43.0


From cbba747bf58891a71c73de759cf641115f6498fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 20/53] fix: cycle did not compile for directed graphs

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 525233d..1171b01 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -705,7 +705,7 @@ GraphDetail::GraphType<E, DIR> path(Integer edges) {
 // path 0-1-2-...-n-1-0 with vertices [0, n)
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
+	auto p = path<E, DIR>(n-1);
 	p.addEdge(n - 1, 0);
 	return p;
 }
-- 
2.43.0


From 828c557c8da5c8d58199ed42cf6cfc25f5f80f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 21/53] fix: wheel had a path with an additional vertex as
 outer cycle

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 1171b01..8af77b9 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -713,7 +713,7 @@ GraphDetail::GraphType<E, DIR> cycle(Integer n) {
 // wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
 template<typename E = NoData>
 Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(path<E>(outer).setMinId(1));
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
 }
 
 // lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-- 
2.43.0


From 87d25c6186e122579682bb91e198c28aa57ae8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 22/53] fix: rado missed the edges to powers of two and
 reversed directed edges

---
 src/graph_gen.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 8af77b9..6df2aba 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -792,9 +792,9 @@ template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> rado(Integer n) {
 	GraphDetail::GraphType<E, DIR> res(n);
 	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
-			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
+		for (Integer j = 0; (1_int << j) <= i; j++) {
+			if ((i | (1_int << j)) == i) {
+				res.addEdge(j, i);
 			}
 		}
 	}
-- 
2.43.0


From d0bf48b744f437f513323f89d914a84825a45652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 23/53] fix: directed random graphs with edge probability p had
 too few edges

---
 src/graph_gen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 6df2aba..534dde7 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -682,7 +682,7 @@ GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k)
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
+	return randomBipartite<E, DIR>(n, m, Random::binomial(DIR ? 2 * n * m : n * m, p));
 }
 
 // star with root = 0 and chilrden [1, leaves]
@@ -881,7 +881,7 @@ GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
+	return randomGraph<E, DIR>(n, Random::binomial(DIR ? n * (n - 1) : n * (n - 1) / 2, p));
 }
 
 // generate a random graph with linear growing degrees
-- 
2.43.0


From 64ea47fbfd5c31ca21f01752666a0fa4cfc07e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 24/53] fix: randomGraph failed for degree sequences without
 edges

---
 src/graph_gen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 534dde7..8d39dee 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -925,6 +925,7 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 		}
 		for (const auto& e : todo) pq.push(e);
 	}
+	if (res.edgeCount() == 0) return res;
 	// randomly flip edges O(m*log(n))
 	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
 		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-- 
2.43.0


From 9fe76e49f547f08023bc5352f82b97ee9c44967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 25/53] fix: DiGraph::isDAG only accepted graphs without edges

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 23ce11e..0186219 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -191,7 +191,7 @@ public:
 		std::vector<std::size_t> deg(adj.size());
 		std::vector<Integer> order, todo;
 		for (std::size_t i = 0; i < adj.size(); i++) {
-			deg[i] = adj[i].size();
+			deg[i] = rev[i].size();
 			if (deg[i] == 0) todo.push_back(i);
 		}
 		while (!todo.empty()) {
-- 
2.43.0


From 7673764775bd6c03b927b686aaa8f30a1ab5220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 26/53] fix: DiGraph::isTree returned a nonexisting root for
 graphs with a cycle

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 0186219..c197024 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -209,7 +209,7 @@ public:
 	}
 
 	std::optional<Integer> isTree() const {
-		if (rootCount == 1 and edgeCount() + 1 == nodeCount()) return root + offset;
+		if (rootCount == 1 and edgeCount() + 1 == nodeCount() and root < nodeCount()) return root + offset;
 		return std::nullopt;
 	}
 
-- 
2.43.0


From a88b30a94196cb8019d9546db397651ef29af7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 27/53] fix: fillRectangle assigned to its loop variable and
 never terminated

---
 src/visualizer_png.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index edc8d5b..875d86a 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -342,7 +342,7 @@ public:
 	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
-				if (y = a.y or y == b.y or x == a.x or x == b.x) {
+				if (y == a.y or y == b.y or x == a.x or x == b.x) {
 					colors[y][x] = details::combine<M>(colors[y][x], border);
 				} else {
 					colors[y][x] = details::combine<M>(colors[y][x], fill);
-- 
2.43.0


From 05d388c00680f92cf64da459856e58f18360ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 28/53] fix: visualizer headers did not compile without other
 includes

---
 src/visualizer_png.h | 3 +++
 src/visualizer_svg.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index 875d86a..a42d896 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -15,6 +15,9 @@
 #include <iomanip>
 #include <fstream>
 #include <cassert>
+#include <cstdint>
+#include <string>
+#include <string_view>
 #include <vector>
 #include <cmath>
 #include <optional>
diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index ecd0768..241e495 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -15,6 +15,9 @@
 #include <iomanip>
 #include <fstream>
 #include <cassert>
+#include <cstdint>
+#include <sstream>
+#include <string>
 #include <vector>
 #include <cmath>
 #include <optional>
-- 
2.43.0


From 41ae727fa724051ff842cd353df39f54707c5bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 29/53] fix: Random::binomial overflowed for tiny p

---
 src/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index ebea0f2..d643741 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1504,8 +1504,9 @@ namespace Random {
 			Real lg = std::log1p(-p);
 			if (lg >= 0) return swap ? n : 0;
 			do {
-				y += std::llround(std::floor(std::log(real()) / lg)) + 1;
-				if (y > n) return swap ? n - res : res;
+				Real skip = std::floor(std::log(real()) / lg);
+				if (skip >= n - y) return swap ? n - res : res;
+				y += std::llround(skip) + 1;
 				res++;
 			} while (true);
 		} else {
-- 
2.43.0


From c3f8a368e2e13c4e3927c865f2155851c86d32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 30/53] fix: Random::geometric overflowed and left its range
 for tiny p

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index d643741..9355996 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1486,8 +1486,8 @@ namespace Random {
 		while (true) {
 			// https://en.wikipedia.org/wiki/Geometric_distribution
 			// "The exponential distribution is the continuous analogue of the geometric distribution[...]"
-			Integer res = lower + std::llround(std::floor(std::log(real()) / std::log1p(-p)));
-			if (res < upper) return res;
+			Real res = std::floor(std::log(real()) / std::log1p(-p));
+			if (lower + res < upper) return static_cast<Integer>(static_cast<UInteger>(lower) + static_cast<UInteger>(res));
 		}
 	}
 
-- 
2.43.0


From fcb435a13f2af5d801483f7deb2b409635ff576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 31/53] fix: realStrict accepted leading zeros

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 9355996..0fc3c9e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -140,7 +140,7 @@ constexpr std::string_view TEXT_ELLIPSIS                = "[...]";
 constexpr auto REGEX_OPTIONS                            = std::regex::nosubs | std::regex::optimize;
 inline const std::regex INTEGER_REGEX("0|-?[1-9][0-9]*", REGEX_OPTIONS);
 inline const std::regex REAL_REGEX("[+-]?(([0-9]*\\.[0-9]+)|([0-9]+\\.)|([0-9]+))([eE][+-]?[0-9]+)?", REGEX_OPTIONS);
-inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))\\.?[0-9]*", REGEX_OPTIONS);
+inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))(\\.[0-9]*)?", REGEX_OPTIONS);
 
 static_assert(2'000'000'000'000'000'000_int < LARGE / 2, "LARGE too small");
 static_assert(LARGE <= std::numeric_limits<Integer>::max() / 2, "LARGE too big");
-- 
2.43.0


From a62d8de95ba041e4ed79c36dfa70594dd820c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 32/53] fix: Random::perm accessed out of bounds for negative
 cycle lengths

---
 src/validate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 0fc3c9e..4991ba8 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1720,11 +1720,13 @@ namespace Random {
 	}
 
 	std::vector<Integer> perm(const std::vector<Integer>& cycles, Integer offset = 0) {
+		for (Integer c : cycles) {
+			judgeAssert<std::invalid_argument>(c > 0, "Random::perm(): Cycle lengths must be positive!");
+		}
 		auto p = perm(std::accumulate(cycles.begin(), cycles.end(), 0_int));
 		std::vector<Integer> res(p.size());
 		Integer tmp = 0;
 		for (std::size_t i = 0; i < cycles.size(); tmp += cycles[i], i++) {
-			judgeAssert<std::invalid_argument>(cycles[i] > 0, "Random::perm(): Cycle lengths must be positive!");
 			for (Integer j = tmp; j + 1 < tmp + cycles[i]; j++) {
 				res[p[j]] = p[j + 1] + offset;
 			}
-- 
2.43.0


From 84092f5a13e96b3a6f9b2edae609b6cba002403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 33/53] fix: primes() wrote out of bounds for intervals of more
 than 2^30 numbers

---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 4991ba8..c32405f 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1119,8 +1119,9 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 	upper = std::max<Integer>(2, upper);
 	Integer count = std::min<Integer>(0x3FFF'FFFF, upper - lower);
 	Integer cache = (count + 1) / 2;
+	Integer cacheSegment = (upper - lower + 1) / 2;
 
-	std::vector<bool> notPrime(cache), notPrimeSegment(cache);
+	std::vector<bool> notPrime(cache), notPrimeSegment(cacheSegment);
 	for (Integer i = 3; i < count; i += 2) {
 		if (!notPrime[i / 2]) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
-- 
2.43.0


From 9d0173e4e082a3e23c368c0c645dfa222303981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 34/53] fix: Random::prime() refused large intervals since the
 trial count overflowed

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index c32405f..4ecca86 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1599,7 +1599,7 @@ namespace Random {
 		Integer sampleL = lower <= 2 ? 0 : (lower / 2);
 		Integer sampleU = upper / 2;
 		if (sampleL < sampleU) {
-			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
+			for (Integer i = 0; i < details::PRIME_TRIALS and i / 4 < upper - std::max<Integer>(0, lower); i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
 				if (res < upper and isPrime(res)) return res;
 			}
-- 
2.43.0


From cee45200aceb892f02c05a7f1e836a6cf8562716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 35/53] fix: isConvex accepted polygons going around several
 times or folding back along an edge

---
 src/validate.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 4ecca86..c6229a5 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1208,14 +1208,22 @@ template<typename RandomIt>
 constexpr bool isConvex(RandomIt first, RandomIt last) {
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 3) return false;
+	auto left = [&](std::size_t i) {
+		auto dir = first[(i+1) % n];
+		getX(dir) -= getX(first[i % n]);
+		getY(dir) -= getY(first[i % n]);
+		return details::left(dir);
+	};
 	bool hasArea = false;
+	std::size_t changes = 0; // going around once (without going back) changes left and right twice
 	for (std::size_t i = 0; i < n; i++) {
 		if (first[i] == first[(i+1) % n]) return false;
 		if (cross(first[0], first[i], first[(i+1) % n]) < 0) return false;
 		if (cross(first[i], first[(i+1) % n], first[(i+2) % n]) < 0) return false;
 		hasArea |= cross(first[i], first[(i+1) % n], first[(i+2) % n]) != 0;
+		if (left(i) != left(i+1)) changes++;
 	}
-	return hasArea;
+	return hasArea and changes == 2;
 }
 template<typename C>
 constexpr bool isConvex(const C& c) {
-- 
2.43.0


From 01b0fb6febebf50b6e3b620aaf8ec8a8eca95b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 36/53] fix: isCCW overflowed for large polygons going around
 several times

---
 src/validate.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index c6229a5..2149bd0 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1320,9 +1320,16 @@ template<typename RandomIt>
 constexpr bool isCCW(RandomIt first, RandomIt last) {
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 2) return false;
-	Integer area = cross(first[n-1], first[0]); // can't overflow
-	for (std::size_t i = 1; i < n; i++) area += cross(first[i-1], first[i]);
-	return area > 0;
+	Integer high = 0; // the sum of all parts could overflow
+	Integer low = 0;
+	for (std::size_t i = 0; i < n; i++) {
+		Integer area = cross(first[i], first[(i+1) % n]);
+		high += area / 0x4000'0000;
+		low += area % 0x4000'0000;
+	}
+	high += low / 0x4000'0000;
+	low %= 0x4000'0000;
+	return high > 0 or (high == 0 and low > 0);
 }
 template<typename C>
 constexpr bool isCCW(const C& c) {
-- 
2.43.0


From ae4dcc32fda3763808e28f660bb9899cce64ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 37/53] fix: polygon predicates did not refuse the smallest
 integer as coordinate

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 2149bd0..9afa537 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1197,8 +1197,8 @@ namespace details {
 	constexpr std::size_t assertBounds(RandomIt first, RandomIt last) {
 		std::size_t n = 0;
 		for (auto it = first; it != last; it++, n++) {
-			judgeAssert(std::abs(getX(*it)) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
-			judgeAssert(std::abs(getY(*it)) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
+			judgeAssert(-0x3FFF'FFFF <= getX(*it) and getX(*it) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
+			judgeAssert(-0x3FFF'FFFF <= getY(*it) and getY(*it) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
 		}
 		return n;
 	}
-- 
2.43.0


From 0861a7d889ba4fab494c39e2a4f76fcb5549a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 38/53] fix: Random::convex returned degenerate polygons with
 all points on a line

---
 src/validate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validate.h b/src/validate.h
index 9afa537..1c76770 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1899,6 +1899,7 @@ namespace Random {
 				getX(point) += dim - 1 - maxX;
 				getY(point) += dim - 1 - maxY;
 			}
+			if (!isConvex(res)) continue; // all points are collinear
 			return res;
 		}
 	}
-- 
2.43.0


From 922a85cf891c6ee6ff232d62face728923032a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 39/53] fix: isPerm overflowed and accessed out of bounds for
 large values with a negative offset

---
 src/validate.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 1c76770..c7c1689 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -560,14 +560,13 @@ template<typename RandomIt,
          typename = std::enable_if_t<std::is_integral_v<typename std::iterator_traits<RandomIt>::value_type>>>
 auto isPerm(RandomIt first, RandomIt last, typename std::iterator_traits<RandomIt>::value_type offset = {}) {
 	using T = typename std::iterator_traits<RandomIt>::value_type;
-	auto count = std::distance(first, last);
-	std::vector<bool> seen(count, false);
+	std::vector<bool> seen(std::distance(first, last), false);
 	for (; first != last; first++) {
 		const T& x = *first;
-		if (x < offset or x - offset >= count or seen[x - offset]) {
-			return boolean<T>(false, x);
-		}
-		seen[x - offset] = true;
+		if (x < offset) return boolean<T>(false, x);
+		UInteger i = static_cast<UInteger>(x) - static_cast<UInteger>(offset); // x - offset could overflow
+		if (i >= seen.size() or seen[i]) return boolean<T>(false, x);
+		seen[i] = true;
 	}
 	return boolean<T>(true);
 }
-- 
2.43.0


From ca85bf36a0e58b9614e18f3de5d1175296e2e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 40/53] fix: Random::seed only worked for engines with a seed()
 method

The documented replacement of Settings::RandomEngine by AES_RNG (or
Xoshiro256ss) did not compile.
---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index c7c1689..64a3a35 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1362,7 +1362,7 @@ namespace Random {
 	}
 
 	void seed(UInteger seed) {
-		details::randomNumberGenerator.seed(seed);
+		details::randomNumberGenerator = RandomEngine(seed);
 	}
 
 	//========================================================================//
-- 
2.43.0


From 48f822f10a57757dcb35347d965ebb53791bc0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 41/53] fix: lerp() rounded twice

lerp(c, c, f) did not give c: both parts were rounded (up) on their own.
---
 src/visualizer_png.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index a42d896..a61b871 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -142,7 +142,10 @@ constexpr Color& operator-=(Color& a, const Color& b) {
 
 constexpr Color lerp(const Color& a, const Color& b, Real f) {
 	assert(0 <= f and f <= 1);
-	return a*f+b*(1-f);
+	return Color(clamp_color(a.r*f+b.r*(1-f)),
+	             clamp_color(a.g*f+b.g*(1-f)),
+	             clamp_color(a.b*f+b.b*(1-f)),
+	             clamp_color(a.a*f+b.a*(1-f)));
 }
 
 constexpr Color blend(const Color& lower, const Color& upper) {
-- 
2.43.0


From b4f0202cec8c9e6f294a9ac552d26e146eab1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 42/53] fix: PNG drawing with a pixel of the image as color

The colors were references; a pixel of the image used as color changed
while it was drawn with (ADD, SUBTRACT, BLEND).
---
 src/visualizer_png.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index a61b871..10a1163 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -345,7 +345,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
+	void fillRectangle(const Point& a, const Point& b, const Color border, const Color fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
 				if (y == a.y or y == b.y or x == a.x or x == b.x) {
@@ -363,7 +363,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void floodFill(const Point& a, const Color& fill) {
+	void floodFill(const Point& a, const Color fill) {
 		std::vector<Point> todo = {a};
 		Color old = colors[a.y][a.x];
 		colors[a.y][a.x] = details::combine<M>(colors[a.y][a.x], fill);
@@ -382,7 +382,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void drawLine(const Point& a, const Point& b, const Color& fill) {
+	void drawLine(const Point& a, const Point& b, const Color fill) {
 		// Bresenham Algorithm
 		Integer dx = std::abs(b.x - a.x);
 		Integer sx = (a.x - b.x < 0) - (a.x - b.x > 0);
-- 
2.43.0


From 48c38945fabb38495dda0ddba0afa613942d8028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 43/53] fix: lerp() rounded twice (svg)

lerp(c, c, f) did not give c: both parts were rounded (up) on their own.
---
 src/visualizer_svg.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 241e495..4bb588b 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -149,7 +149,9 @@ constexpr Color& operator-=(Color& a, const Color& b) {
 
 constexpr Color lerp(const Color& a, const Color& b, Real f) {
 	assert(0 <= f and f <= 1);
-	return a*f+b*(1-f);
+	return Color(clamp_color(a.r*f+b.r*(1-f)),
+	             clamp_color(a.g*f+b.g*(1-f)),
+	             clamp_color(a.b*f+b.b*(1-f)));
 }
 
 // some default colors
-- 
2.43.0


From 50d9b5881d759e9cbd115faa1a5c5b8336c42f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 44/53] fix: Line() is documented but did not exist

---
 src/visualizer_svg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 4bb588b..0d832be 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -484,6 +484,7 @@ struct Polygon final : public Shape {
 
 struct Line final : public Shape {
 	Point p1, p2;
+	constexpr explicit Line() : Line(0, 0, 0, 0) {}
 	constexpr explicit Line(Point p1_, Point p2_) :
 		p1(p1_), p2(p2_) {}
 	constexpr explicit Line(Real x1_, Real y1_, Real x2_, Real y2_) :
-- 
2.43.0


From c522777d9834a846cc05e91cfd69340437a4a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 45/53] fix: the name of the encoding in the XML declaration is
 UTF-8

UTF8 is no registered name, XML processors may refuse it.
---
 src/visualizer_svg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 0d832be..88e2fb2 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -320,7 +320,7 @@ public:
 	void write() const {
 		if (!fileName or out.str().empty()) return;
 		std::ofstream os(*fileName);
-		os << "<?xml " << attribute("version", "1.0") << attribute("encoding", "UTF8")<< "?>" << std::endl;
+		os << "<?xml " << attribute("version", "1.0") << attribute("encoding", "UTF-8")<< "?>" << std::endl;
 		os << "<svg " << attribute("xmlns", "http://www.w3.org/2000/svg")
 					  << attribute("version", "1.0")
 					  << attribute("baseProfile", "full")
-- 
2.43.0


From d5c71b7ace0f8883612b1a7dcf0a09b2369d2356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 46/53] fix: writing a Color left the fill character of the
 stream changed

---
 src/visualizer_svg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 88e2fb2..c05c317 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -76,11 +76,13 @@ struct Color {
 
 	friend std::ostream& operator<<(std::ostream& os, const Color& c) {
 		std::ios_base::fmtflags flags(os.flags());
+		char fill = os.fill();
 		os << "#" << std::hex;
 		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.r);
 		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.g);
 		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.b);
 		os.flags(flags);
+		os.fill(fill);
 		return os;
 	}
 };
-- 
2.43.0


From 2e431be18588bc24bddb12a6305d134b2a1b1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 47/53] fix: shapes after std::endl or a Comment were not
 included in the bounding box

image << a << std::endl << b wrote b to a std::ostream, the bounding box
of the image did not contain it.
---
 src/visualizer_svg.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index c05c317..fe0b2b4 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -355,6 +355,12 @@ public:
 		write();
 	}
 
+	// std::endl and the like, the result is still an SVG
+	friend SVG& operator<<(SVG& os, std::ostream& (*manipulator)(std::ostream&)) {
+		manipulator(os);
+		return os;
+	}
+
 };
 
 struct Shape {
@@ -542,6 +548,11 @@ struct Comment final {
 	friend std::ostream& operator<<(std::ostream& os, const Comment& comment) {
 		return os << "<!-- " << comment.comment << " -->";
 	}
+
+	friend SVG& operator<<(SVG& os, const Comment& comment) {
+		static_cast<std::ostream&>(os) << comment;
+		return os;
+	}
 };
 
 namespace Visualizer {
-- 
2.43.0


From 9a47be8e75951e66da054b6f95117ddd35f56249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 48/53] fix: Color depended on adjustment and base flags of the
 stream

---
 src/visualizer_svg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index fe0b2b4..58f3a22 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -77,7 +77,7 @@ struct Color {
 	friend std::ostream& operator<<(std::ostream& os, const Color& c) {
 		std::ios_base::fmtflags flags(os.flags());
 		char fill = os.fill();
-		os << "#" << std::hex;
+		os << "#" << std::hex << std::right << std::noshowbase;
 		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.r);
 		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.g);
 		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.b);
-- 
2.43.0


From 614842335120485d9a4188a356120509a35d7791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 49/53] fix: report the line of the failing token, not of the
 token after it

InputStream::fail() counted every newline it walked over, including the one
behind the position it reports, so the line was one too high when the stream
had already consumed the line break.
---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 64a3a35..1d6de4a 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2706,9 +2706,9 @@ private:
 					*in >> tmp;
 					buffer += tmp;
 				} else if (in->peek() == std::char_traits<char>::to_int_type(NEWLINE)) {
-					line++;
 					in->get();
 					if (in->tellg() < originalPos) {
+						line++;
 						buffer.clear();
 					} else {
 						buffer += ' ';
-- 
2.43.0


From 1541ce941bbfff4136d549457dd009a47027f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 50/53] fix: report a position when the input ends inside the
 last token

Reading the last token sets eofbit, after which tellg() returns -1 and the walk
in InputStream::fail() never reached the position it looks for.
---
 src/validate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validate.h b/src/validate.h
index 1d6de4a..d80aecb 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2704,6 +2704,7 @@ private:
 				if (std::isgraph(in->peek())) {
 					std::string tmp;
 					*in >> tmp;
+					in->clear();
 					buffer += tmp;
 				} else if (in->peek() == std::char_traits<char>::to_int_type(NEWLINE)) {
 					in->get();
-- 
2.43.0


From 071253da2c66edecfeac6bd7dba3fe90784b5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 51/53] fix: let convert() turn a pair of different types into
 a point

The braced return narrowed the coordinates to their common type, which clang
rejects.
---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index d80aecb..1d4255d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -887,7 +887,8 @@ constexpr std::pair<T,T> convert(const std::complex<T>& t) {
 template<typename L, typename R>
 constexpr std::complex<typename std::common_type<L, R>::type>
 convert(const std::pair<L,R>& t) {
-	return {getX(t), getY(t)};
+	using T = typename std::common_type<L, R>::type;
+	return {static_cast<T>(getX(t)), static_cast<T>(getY(t))};
 }
 
 
-- 
2.43.0


From a7d244a46df93c6a7a535e1b4ee6406bb24a9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 52/53] fix: let Random::minimum work on ranges of more than
 2^63 values

---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 1d4255d..df4584a 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1591,7 +1591,8 @@ namespace Random {
 	}
 
 	Integer minimum(Integer lower, Integer upper, Integer n) {// in [lower, upper)
-		return upper - 1 - maximum(0, upper - lower, n);
+		UInteger res = static_cast<UInteger>(maximum(lower, upper, n)); // upper - lower could overflow
+		return static_cast<Integer>(static_cast<UInteger>(lower) + static_cast<UInteger>(upper) - 1 - res);
 	}
 	Integer minimum(Integer upper, Integer n) {
 		return minimum(0, upper, n);
-- 
2.43.0


From 71e05d343e265a4bcb42fd1b418f56c422d04dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 53/53] fix: refuse probability zero in Random::geometric
 instead of never returning

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index df4584a..39baecb 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1493,12 +1493,12 @@ namespace Random {
 	}
 
 	Integer geometric(Real p) {// theoretically in [0, inf)
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
+		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
 		return std::llround(std::floor(std::log(real()) / std::log1p(-p)));
 	}
 	Integer geometric(Integer lower, Integer upper, Real p) {// in [lower, upper)
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::geometric(): Lower must be less than upper!");
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
+		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
 		while (true) {
 			// https://en.wikipedia.org/wiki/Geometric_distribution
 			// "The exponential distribution is the continuous analogue of the geometric distribution[...]"
-- 
2.43.0

