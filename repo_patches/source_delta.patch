From f1a9e10d0c8dd29a5efe00cacc73b94999c3bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 01/28] fix: hash all eight bytes of each word instead of
 repeating the second byte

---
 secure-computation-library/include/scl/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/hash.h b/secure-computation-library/include/scl/hash.h
index e0b66a0..45ff57a 100644
--- a/secure-computation-library/include/scl/hash.h
+++ b/secure-computation-library/include/scl/hash.h
@@ -146,9 +146,9 @@ Hash<B> &Hash<B>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From 0b711f213418457ff7e1bf65ef2046b644a98b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 02/28] fix: read ring elements from unaligned buffers without
 overreading

---
 secure-computation-library/include/scl/math/z2k/details.h     | 3 ++-
 secure-computation-library/src/scl/math/fields/mersenne127.cc | 2 +-
 secure-computation-library/src/scl/math/fields/mersenne61.cc  | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index 039b729..75e6517 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -110,7 +110,8 @@ bool EqualZ2k(const T& a, const T& b) {
  */
 template <typename T, std::size_t K, std::enable_if_t<(K <= 128), bool> = true>
 void ReadZ2k(T& v, const unsigned char* src) {
-  v = *(const T*)src;
+  v = 0;
+  std::memcpy(&v, src, (K - 1) / 8 + 1);
   v &= _SCL_MASK(T, K);
 }
 
diff --git a/secure-computation-library/src/scl/math/fields/mersenne127.cc b/secure-computation-library/src/scl/math/fields/mersenne127.cc
index ba81252..e658621 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne127.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne127.cc
@@ -67,7 +67,7 @@ void _::Multiply(u128 &t, const u128 &v) {
 std::string _::ToString(const u128 &v) { return scl::details::ToString(v); }
 
 void _::FromBytes(u128 &dest, const unsigned char *src) {
-  dest = *(const u128 *)src;
+  std::memcpy(&dest, src, sizeof(dest));
   dest = dest % p;
 }
 
diff --git a/secure-computation-library/src/scl/math/fields/mersenne61.cc b/secure-computation-library/src/scl/math/fields/mersenne61.cc
index e5a3c95..a393e37 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne61.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne61.cc
@@ -46,7 +46,7 @@ void _::Multiply(u64& t, const u64& v) {
 std::string _::ToString(const u64& v) { return scl::details::ToString(v); }
 
 void _::FromBytes(u64& dest, const unsigned char* src) {
-  dest = *(const u64*)src;
+  std::memcpy(&dest, src, sizeof(dest));
   dest = dest % p;
 }
 
-- 
2.43.0


From 8bc9129e9e287748963a5ba1b545a54e76aea278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 03/28] fix: do not shift by the full type width when masking
 Z2k values

---
 secure-computation-library/include/scl/math/z2k/details.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index 75e6517..2b4acb3 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -95,7 +95,7 @@ void InvertZ2k(T& v) {
   v = z;
 }
 
-#define _SCL_MASK(T, K) ((static_cast<T>(1) << K) - 1)
+#define _SCL_MASK(T, K) (static_cast<T>(-1) >> (sizeof(T) * 8 - (K)))
 
 /**
  * @brief Compute equality modulo a power of 2.
-- 
2.43.0


From 2cdba6cf599031ae5c157e858443a95f08a111e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 04/28] fix: reduce field elements parsed from strings modulo p

---
 secure-computation-library/src/scl/math/fields/mersenne127.cc | 1 +
 secure-computation-library/src/scl/math/fields/mersenne61.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/secure-computation-library/src/scl/math/fields/mersenne127.cc b/secure-computation-library/src/scl/math/fields/mersenne127.cc
index e658621..8430598 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne127.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne127.cc
@@ -28,6 +28,7 @@ void _::Invert(u128 &t) {
 void _::FromString(u128 &dest, const std::string &str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 struct u256 {
diff --git a/secure-computation-library/src/scl/math/fields/mersenne61.cc b/secure-computation-library/src/scl/math/fields/mersenne61.cc
index a393e37..6732f2f 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne61.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne61.cc
@@ -29,6 +29,7 @@ void _::Invert(u64& t) {
 void _::FromString(u64& dest, const std::string& str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 void _::Multiply(u64& t, const u64& v) {
-- 
2.43.0


From bb037dc5e0b8632cfbf2bbfe4abd2576662f5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 05/28] fix: do not index before the start of an empty base64
 string

---
 secure-computation-library/include/scl/math/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/str.h b/secure-computation-library/include/scl/math/str.h
index 032ebb2..a014aee 100644
--- a/secure-computation-library/include/scl/math/str.h
+++ b/secure-computation-library/include/scl/math/str.h
@@ -156,7 +156,7 @@ void FromStringBase64(T& t, const std::string& s) {
 
   t = 0;
   std::size_t i = 0;
-  bool has_padding = s[n - 1] == '=';
+  bool has_padding = n > 0 && s[n - 1] == '=';
   auto m = n - (has_padding ? 4 : 0);
 
   while (i < m) {
-- 
2.43.0


From 2a9bf70cafcb24de6cf4462e133f8bed90f59d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 06/28] fix: do not reuse the zero-shares of multiplication
 batches for input/output batches

---
 src/tp/fi_prep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp/fi_prep.cc b/src/tp/fi_prep.cc
index da5a30d..b25c95f 100644
--- a/src/tp/fi_prep.cc
+++ b/src/tp/fi_prep.cc
@@ -155,8 +155,8 @@ namespace tp {
 	  shr += mVandermonde[j][shr_idx] * recv_shares[j];
 	}
 	if (ctr < mNMultBatches) mMultBatchFIPrep[ctr].mShrO1 = shr; 
-	if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
-	if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
+	else if (ctr < 2*mNMultBatches) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
+	else if (ctr < 3*mNMultBatches) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
 	else {
 	  IOBatchFIPrep tmp;
 	  tmp.mShrO = shr;
-- 
2.43.0


From c5632d990ae0a66a9cfdf005fdb465bf9717c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 07/28] fix: return the share of lambda, not lambda, from
 OutputGate::GetIndvShrLambda

---
 src/tp/output_gate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index d8bfb48..b6be1a8 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -52,7 +52,7 @@ namespace tp {
 	mIndvShrLambdaC = mLeft->GetIndvShrLambda();
 	mIndvShrLambdaCSet = true;
       }
-      return mLambda;
+      return mIndvShrLambdaC;
     }    
 
     FF GetDn07Share() {
-- 
2.43.0


From 3ab39bdf27831b134b6ef5fad85c2f275fae519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 08/28] fix: reject synthetic circuits without inputs, width or
 depth instead of dividing by zero

---
 src/tp/circuits/generic.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp/circuits/generic.cc b/src/tp/circuits/generic.cc
index c688757..9d24d10 100644
--- a/src/tp/circuits/generic.cc
+++ b/src/tp/circuits/generic.cc
@@ -9,6 +9,8 @@ namespace tp {
       throw std::invalid_argument("The number of parties does not coincide with the length of the input vector");
     if ( config.n_parties != config.out_gates.size() )
       throw std::invalid_argument("The number of parties does not coincide with the length of the output vector");
+    if ( n_inputs == 0 || config.width == 0 || config.depth == 0 )
+      throw std::invalid_argument("Number of inputs, width and depth must be positive");
     if ( config.width % n_inputs != 0 )
       throw std::invalid_argument("Total number of inputs does not divide width");
     if ( n_inputs % 2 != 0 )
-- 
2.43.0


From e1b1ef9ae1f8272cd0dc0fbece95f238f601917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 09/28] fix: check every provided share when reconstructing
 with error detection

---
 secure-computation-library/include/scl/ss/shamir.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/ss/shamir.h b/secure-computation-library/include/scl/ss/shamir.h
index 27ca41e..4d6c75a 100644
--- a/secure-computation-library/include/scl/ss/shamir.h
+++ b/secure-computation-library/include/scl/ss/shamir.h
@@ -188,11 +188,11 @@ T ReconstructShamir(const Vec<T>& shares, const Vec<T>& alphas, const T& pos,
   if (2 * t + 1 > shares.Size())
     throw std::invalid_argument(
         "not enough shares to reconstruct with error detection");
-  if (2 * t + 1 > alphas.Size())
+  if (2 * t + 1 > alphas.Size() || shares.Size() > alphas.Size())
     throw std::invalid_argument(
         "not enough alphas to reconstruct with error detection");
 
-  for (std::size_t k = t + 1; k < 2 * t + 1; ++k) {
+  for (std::size_t k = t + 1; k < shares.Size(); ++k) {
     auto s = InterpolateAt(shares, alphas, t + 1, alphas[k], 0);
     if (s != shares[k])
       throw std::logic_error("error detected during reconstruction");
-- 
2.43.0


From 9ca9a0da958bd05ad607b3aa21c8af97d15fbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 10/28] fix: reject polynomials of degree above t in robust
 reconstruction

---
 secure-computation-library/include/scl/ss/shamir.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/ss/shamir.h b/secure-computation-library/include/scl/ss/shamir.h
index 4d6c75a..c27d2a2 100644
--- a/secure-computation-library/include/scl/ss/shamir.h
+++ b/secure-computation-library/include/scl/ss/shamir.h
@@ -253,7 +253,7 @@ std::array<details::Polynomial<T>, 2> ReconstructShamirRobust(
   auto E = details::Polynomial<T>::Create(cE);
   auto Q = details::Polynomial<T>::Create(Vec<T>{x.begin() + e, x.end()});
   auto qr = Q.Divide(E);
-  if (qr[1].IsZero()) return {qr[0], E};
+  if (qr[1].IsZero() && qr[0].Degree() <= t) return {qr[0], E};
 
   throw std::logic_error("could not correct shares");
 }
-- 
2.43.0


From c320bf577242aa7fa2a0b5d6390c2def42f83e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 11/28] fix: reject packing more secrets than a polynomial of
 the given degree can hold

---
 secure-computation-library/include/scl/ss/packed.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/secure-computation-library/include/scl/ss/packed.h b/secure-computation-library/include/scl/ss/packed.h
index aca19bb..71899dc 100644
--- a/secure-computation-library/include/scl/ss/packed.h
+++ b/secure-computation-library/include/scl/ss/packed.h
@@ -71,6 +71,8 @@ namespace scl {
      */
     template <typename T>
     EvPolynomial<T> EvPolyFromSecretsAndDegree(const Vec<T>& secrets, std::size_t degree, PRG& prg) {
+      if (secrets.Size() > degree + 1)
+	throw std::invalid_argument("number of secrets is larger than degree + 1");
       Vec<T> x_points;
       x_points.Reserve(degree+1);
       for (std::size_t i = 0; i < secrets.Size(); i++) { x_points.Emplace(T(-i)); }
-- 
2.43.0


From 7ceee0d44a097fc007ad2873ea07f3769dfed5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 12/28] fix: solve non-square linear systems correctly

---
 .../include/scl/math/la.h                       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/secure-computation-library/include/scl/math/la.h b/secure-computation-library/include/scl/math/la.h
index fceb288..f105185 100644
--- a/secure-computation-library/include/scl/math/la.h
+++ b/secure-computation-library/include/scl/math/la.h
@@ -202,6 +202,7 @@ bool HasSolution(const Mat<T>& A, bool unique_only) {
   auto n = A.Rows();
   auto m = A.Cols();
   T zero;
+  std::size_t rank = 0;
   for (std::size_t i = 0; i < n; ++i) {
     bool all_zero = true;
     for (std::size_t j = 0; j < m - 1; ++j) {
@@ -210,13 +211,11 @@ bool HasSolution(const Mat<T>& A, bool unique_only) {
     // No solution is the case when Rank(A) != Rank(A') where A' is A without
     // the last column (the augmentation). I.e., when row(A', i) == 0, but
     // row(A, i) != 0.
-    if (unique_only) {
-      if (all_zero) return false;
-    } else {
-      if (all_zero && A(i, m - 1) != zero) return false;
-    }
+    if (all_zero && A(i, m - 1) != zero) return false;
+    if (!all_zero) rank++;
   }
-  return true;
+  // The solution is unique when there are no free variables.
+  return !unique_only || rank == m - 1;
 }
 
 /**
@@ -275,7 +274,11 @@ bool SolveLinearSystem(Vec<T>& x, const Mat<T>& A, const Vec<T>& b) {
     return false;
   }
 
-  x = ExtractSolution(aug);
+  // the solution is unique, so the first rows of aug are the identity matrix
+  // followed by the solution.
+  const auto m = A.Cols();
+  x = Vec<T>(m);
+  for (std::size_t i = 0; i < m; ++i) x[i] = aug(i, m);
   return true;
 }
 
-- 
2.43.0


From e8041648496dea278c12338312f146ccf978cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 13/28] fix: compute correct DN07 results when there are more
 than 2t+1 parties

---
 src/tp/dn07.cc | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/tp/dn07.cc b/src/tp/dn07.cc
index a767271..8c79db3 100644
--- a/src/tp/dn07.cc
+++ b/src/tp/dn07.cc
@@ -142,7 +142,7 @@ namespace tp {
   }
 
   void DN07::FDMultPartiesSendP1() {
-    if (mCircuit.mID >= mThreshold+1) {
+    if (mCircuit.mID >= mParties-mThreshold) {
     // The last t parties set their shares of the input gates
       for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
 	for (auto input_gate : mCircuit.mFlatInputGates[owner_id]) {
@@ -172,7 +172,7 @@ namespace tp {
 	if (mCircuit.mID == 0) {
 	  Vec shares_from_last;
 	  shares_from_last.Reserve(mThreshold);
-	  for (std::size_t i = mThreshold+1; i < mParties; ++i) {
+	  for (std::size_t i = mParties-mThreshold; i < mParties; ++i) {
 	    FF shr;
 	    mCircuit.mNetwork->Party(i)->Recv(shr);
 	    shares_from_last.Emplace(shr);
@@ -188,7 +188,7 @@ namespace tp {
   void DN07::InputPartiesSendOwners() {
     for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
       for (auto input_gate : mCircuit.mFlatInputGates[owner_id]) {
-	if ( mCircuit.mID < mThreshold + 1 ) { // Only P1 .. Pt+1 are needed
+	if ( mCircuit.mID < mParties-mThreshold ) { // Only P1 .. Pn-t are needed
 	  mCircuit.mNetwork->Party(owner_id)->Send(mRShrs[ mMapInputs[input_gate] ].shr);
 	}
       }
@@ -201,7 +201,7 @@ namespace tp {
       if (mCircuit.mID == input_gate->GetOwner()) {	
 	Vec recv_shares;
 	recv_shares.Reserve(mThreshold+1);
-	for ( std::size_t i = 0; i < mThreshold+1; i++ ) {
+	for ( std::size_t i = 0; i < mParties-mThreshold; i++ ) {
 	  FF share;
 	  mCircuit.mNetwork->Party(i)->Recv(share);
 	  recv_shares.Emplace(share);
@@ -228,10 +228,10 @@ namespace tp {
 	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) x_points.Emplace(FF(i+1));
 	// Interpolate polynomial
 	auto poly = scl::details::EvPolynomial<FF>(x_points, y_points);
-	// Compute remaining shares (only t+1 are needed)
-	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mThreshold+1);
+	// Compute remaining shares (only n-t are needed)
+	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mParties-mThreshold);
 	
-	for ( std::size_t i = 0; i < mThreshold+1; i++ ) {
+	for ( std::size_t i = 0; i < mParties-mThreshold; i++ ) {
 	  mCircuit.mNetwork->Party(i)->Send(shares_to_send[i]);
 	}
       }
@@ -239,8 +239,8 @@ namespace tp {
   }
 
   void DN07::InputPartiesReceive() {
-    // Only first t+1 need to receive and set this
-    if (mCircuit.mID < mThreshold+1) {
+    // Only first n-t need to receive and set this
+    if (mCircuit.mID < mParties-mThreshold) {
       for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
 	for (auto input_gate : mCircuit.mFlatInputGates[owner_id]) {
 	  FF share_of_masked;
@@ -258,7 +258,7 @@ namespace tp {
   }
 
   void DN07::MultPartiesSendP1(std::size_t layer) {
-    if (mCircuit.mID < mThreshold+1) {
+    if (mCircuit.mID < mParties-mThreshold) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 	// Send masked shares to P1
 	FF shr = mult_gate->GetLeft()->GetDn07Share() * mult_gate->GetRight()->GetDn07Share() \
@@ -274,7 +274,7 @@ namespace tp {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 	Vec shares;
 	shares.Reserve(mParties);
-	for (std::size_t i = 0; i < mThreshold+1; ++i) {
+	for (std::size_t i = 0; i < mParties-mThreshold; ++i) {
 	  FF shr;
 	  mCircuit.mNetwork->Party(i)->Recv(shr);
 	  shares.Emplace(shr);
@@ -284,8 +284,8 @@ namespace tp {
 	Vec shares_from_last = mMapP1SharesFromLast.front();
 	mMapP1SharesFromLast.pop();
 
-	for (std::size_t i = mThreshold+1; i < mParties; ++i) {
-	  shares.Emplace(shares_from_last[i-(mThreshold+1)]);
+	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) {
+	  shares.Emplace(shares_from_last[i-(mParties-mThreshold)]);
 	}
 
 	FF secret = scl::details::SecretFromShares(shares);
@@ -306,8 +306,8 @@ namespace tp {
 	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) x_points.Emplace(FF(i+1));
 	// Interpolate polynomial
 	auto poly = scl::details::EvPolynomial<FF>(x_points, y_points);
-	// Compute remaining shares (only t+1 are needed)
-	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mThreshold+1);
+	// Compute remaining shares (only n-t are needed)
+	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mParties-mThreshold);
 	mP1SharesToSend.push(shares_to_send);
       }
     }
@@ -315,7 +315,7 @@ namespace tp {
   void DN07::MultP1SendsParties(std::size_t layer) {
     if (mCircuit.mID == 0) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
-	for ( std::size_t i = 0; i < mThreshold+1; i++ ) {
+	for ( std::size_t i = 0; i < mParties-mThreshold; i++ ) {
 	  mCircuit.mNetwork->Party(i)->Send(mP1SharesToSend.front()[i]);
 	}
 	mP1SharesToSend.pop();
@@ -324,7 +324,7 @@ namespace tp {
   }
 
   void DN07::MultPartiesReceive(std::size_t layer) {
-    if (mCircuit.mID < mThreshold+1) {
+    if (mCircuit.mID < mParties-mThreshold) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 
 	FF masked;
@@ -340,7 +340,7 @@ namespace tp {
   }
 
   void DN07::OutputPartiesSendOwners() {
-    if ( mCircuit.mID < mThreshold + 1 ) { // Only P1 .. Pt+1 are needed
+    if ( mCircuit.mID < mParties-mThreshold ) { // Only P1 .. Pn-t are needed
       for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
 	for (auto output_gate : mCircuit.mFlatOutputGates[owner_id]) {
 	  FF share = output_gate->GetDn07Share();
@@ -356,7 +356,7 @@ namespace tp {
       if (mCircuit.mID == output_gate->GetOwner()) {
 	Vec recv_shares;
 	recv_shares.Reserve(mThreshold+1);
-	for ( std::size_t i = 0; i < mThreshold+1; i++ ) {
+	for ( std::size_t i = 0; i < mParties-mThreshold; i++ ) {
 	  FF share;
 	  mCircuit.mNetwork->Party(i)->Recv(share);
 	  recv_shares.Emplace(share);
-- 
2.43.0


From 52133ed518e0cf519c18a10c04f66dd8f2abc3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 14/28] fix: do not overflow when checking the size of a
 received matrix

---
 secure-computation-library/include/scl/net/channel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/net/channel.h b/secure-computation-library/include/scl/net/channel.h
index c454fae..9974116 100644
--- a/secure-computation-library/include/scl/net/channel.h
+++ b/secure-computation-library/include/scl/net/channel.h
@@ -208,8 +208,8 @@ class Channel {
    */
   template <typename T>
   void Recv(Mat<T>& mat) {
-    auto rows = RecvSize();
-    auto cols = RecvSize();
+    std::size_t rows = RecvSize();
+    std::size_t cols = RecvSize();
     if (rows * cols > MAX_MAT_READ_SIZE)
       throw std::logic_error("received matrix exceeds size limit");
     auto n = rows * cols * T::ByteSize();
-- 
2.43.0


From 1f92904166671e72e8f6cb4925d4f4395131964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 15/28] fix: throw instead of returning unread data when a TCP
 connection is closed

---
 secure-computation-library/src/scl/net/tcp_channel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/tcp_channel.cc b/secure-computation-library/src/scl/net/tcp_channel.cc
index 47a32d9..a25401f 100644
--- a/secure-computation-library/src/scl/net/tcp_channel.cc
+++ b/secure-computation-library/src/scl/net/tcp_channel.cc
@@ -1,5 +1,7 @@
 #include "scl/net/tcp_channel.h"
 
+#include <stdexcept>
+
 #include "scl/net/tcp_utils.h"
 
 void scl::TcpChannel::Close() {
@@ -28,7 +30,7 @@ void scl::TcpChannel::Recv(unsigned char* dst, std::size_t n) {
 
   while (rem > 0) {
     auto recv = scl::details::ReadFromSocket(mSocket, dst + offset, rem);
-    if (!recv) break;
+    if (!recv) throw std::runtime_error("connection closed by remote");
     if (recv < 0) scl::details::ThrowError("read failed");
 
     rem -= recv;
-- 
2.43.0


From 1fd1addafab5b3b5a264a0fa2d95433a0eeeee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 16/28] fix: report writes to a closed connection as errors
 instead of raising SIGPIPE

---
 secure-computation-library/src/scl/net/tcp_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/tcp_utils.cc b/secure-computation-library/src/scl/net/tcp_utils.cc
index e138fa2..8a7fa80 100644
--- a/secure-computation-library/src/scl/net/tcp_utils.cc
+++ b/secure-computation-library/src/scl/net/tcp_utils.cc
@@ -86,5 +86,5 @@ int scl::details::ReadFromSocket(int socket, unsigned char* dst,
 
 int scl::details::WriteToSocket(int socket, const unsigned char* src,
                                 std::size_t n) {
-  return ::write(socket, src, n);
+  return ::send(socket, src, n, MSG_NOSIGNAL);
 }
-- 
2.43.0


From d508dbb8f22bfd62fe04228c1cf5dcc01b72595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 17/28] fix: do not pass null pointers to memcpy when receiving
 empty messages

---
 secure-computation-library/src/scl/net/mem_channel.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/secure-computation-library/src/scl/net/mem_channel.cc b/secure-computation-library/src/scl/net/mem_channel.cc
index 955b3de..e8a5213 100644
--- a/secure-computation-library/src/scl/net/mem_channel.cc
+++ b/secure-computation-library/src/scl/net/mem_channel.cc
@@ -7,6 +7,8 @@ void scl::InMemoryChannel::Send(const unsigned char* src, std::size_t n) {
 }
 
 void scl::InMemoryChannel::Recv(unsigned char* dst, std::size_t n) {
+  if (!n) return;
+
   std::size_t rem = n;
 
   // if there's any leftovers from previous calls to recv, then we retrieve
@@ -23,6 +25,7 @@ void scl::InMemoryChannel::Recv(unsigned char* dst, std::size_t n) {
 
   while (rem > 0) {
     auto data = mIn->Pop();
+    if (data.empty()) continue;
     const auto to_copy = data.size() > rem ? rem : data.size();
     std::memcpy(dst + (n - rem), data.data(), to_copy);
     rem -= to_copy;
-- 
2.43.0


From 82e5a05b29cfdc90d6d920ddf267134bc684f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 18/28] fix: look parties up by their id in network configs

---
 secure-computation-library/include/scl/net/config.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/net/config.h b/secure-computation-library/include/scl/net/config.h
index 5c588b1..24fa856 100644
--- a/secure-computation-library/include/scl/net/config.h
+++ b/secure-computation-library/include/scl/net/config.h
@@ -24,6 +24,7 @@
 
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -128,7 +129,12 @@ class NetworkConfig {
   /**
    * @brief Get information about a party.
    */
-  Party GetParty(unsigned id) const { return mParties[id]; };
+  Party GetParty(unsigned id) const {
+    for (const auto& party : mParties) {
+      if (party.id == id) return party;
+    }
+    throw std::invalid_argument("no party with that id");
+  };
 
   /**
    * @brief Return a string representation of this network config.
-- 
2.43.0


From f8483b4178bcd4760c932e4e904d639b5eaf5c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 19/28] fix: send queued data before closing a threaded sender,
 and close it on destruction

---
 .../include/scl/net/threaded_sender.h             | 10 +++++++++-
 .../src/scl/net/threaded_sender.cc                | 15 +++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/secure-computation-library/include/scl/net/threaded_sender.h b/secure-computation-library/include/scl/net/threaded_sender.h
index 49b0437..cd6c4eb 100644
--- a/secure-computation-library/include/scl/net/threaded_sender.h
+++ b/secure-computation-library/include/scl/net/threaded_sender.h
@@ -47,10 +47,18 @@ class ThreadedSenderChannel final : public Channel {
    */
   ThreadedSenderChannel(int socket);
 
+  /**
+   * @brief Destroying the channel closes it.
+   */
+  ~ThreadedSenderChannel() { Close(); };
+
+  /**
+   * @brief Close the channel after everything passed to Send has been sent.
+   */
   void Close() override;
 
   void Send(const unsigned char* src, std::size_t n) override {
-    mSendBuffer.PushBack({src, src + n});
+    if (n) mSendBuffer.PushBack({src, src + n});
   };
 
   void Recv(unsigned char* dst, std::size_t n) override {
diff --git a/secure-computation-library/src/scl/net/threaded_sender.cc b/secure-computation-library/src/scl/net/threaded_sender.cc
index 4945fe4..53ae76d 100644
--- a/secure-computation-library/src/scl/net/threaded_sender.cc
+++ b/secure-computation-library/src/scl/net/threaded_sender.cc
@@ -6,19 +6,22 @@ scl::ThreadedSenderChannel::ThreadedSenderChannel(int socket)
     : mChannel(scl::TcpChannel(socket)) {
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
-      auto data = mSendBuffer.Peek();
-      if (!mChannel.Alive()) {
+      // an empty message signals that the channel is being closed.
+      auto data = mSendBuffer.Pop();
+      if (data.empty()) {
         break;
       }
       mChannel.Send(data.data(), data.size());
-      mSendBuffer.PopFront();
     }
   });
 }
 
 void scl::ThreadedSenderChannel::Close() {
+  // let the sender finish with what was already queued before closing.
+  if (mSender.valid()) {
+    mSendBuffer.PushBack(std::vector<unsigned char>());
+    mSender.wait();
+    mSender = std::future<void>();
+  }
   mChannel.Close();
-  unsigned char stop_signal = 1;
-  Send(&stop_signal, 1);
-  mSender.wait();
 }
-- 
2.43.0


From ac6591787718521624dd3ff618185b7ec93018e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 20/28] fix: use threaded senders for accepted connections as
 well

---
 secure-computation-library/src/scl/net/network.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index b6f2fb3..1c3f4d9 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -9,6 +9,7 @@ static inline std::shared_ptr<scl::Channel> Self() {
   return scl::InMemoryChannel::CreateSelfConnecting();
 }
 
+template <typename C>
 static inline void AcceptConnections(
     std::vector<std::shared_ptr<scl::Channel>>& channels,
     const scl::NetworkConfig config) {
@@ -21,7 +22,7 @@ static inline void AcceptConnections(
     for (std::size_t i = config.Id() + 1; i < config.NetworkSize(); ++i) {
       auto ac = scl::details::AcceptConnection(ssock);
       std::shared_ptr<scl::Channel> channel =
-          std::make_shared<scl::TcpChannel>(ac.socket);
+          std::make_shared<C>(ac.socket);
       unsigned id;
       channel->Recv(id);
       channels[id] = channel;
@@ -35,7 +36,8 @@ scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::thread server(AcceptConnections<scl::TcpChannel>, std::ref(channels),
+                     config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
@@ -59,7 +61,8 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::thread server(AcceptConnections<scl::ThreadedSenderChannel>,
+                     std::ref(channels), config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
-- 
2.43.0


From 805dfa3ed4f8ab08846a4672f86e70e085c708a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 21/28] fix: reject invalid party ids from connecting parties

---
 .../src/scl/net/network.cc                    | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index 1c3f4d9..4bc06fd 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -1,6 +1,7 @@
 #include "scl/net/network.h"
 
-#include <thread>
+#include <future>
+#include <stdexcept>
 
 #include "scl/net/tcp_utils.h"
 #include "scl/net/threaded_sender.h"
@@ -25,6 +26,10 @@ static inline void AcceptConnections(
           std::make_shared<C>(ac.socket);
       unsigned id;
       channel->Recv(id);
+      if (id <= my_id || id >= config.NetworkSize() || channels[id]) {
+        scl::details::CloseSocket(ssock);
+        throw std::logic_error("received invalid party ID");
+      }
       channels[id] = channel;
     }
     scl::details::CloseSocket(ssock);
@@ -36,8 +41,9 @@ scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections<scl::TcpChannel>, std::ref(channels),
-                     config);
+  auto server =
+      std::async(std::launch::async, AcceptConnections<scl::TcpChannel>,
+                 std::ref(channels), config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
@@ -48,7 +54,7 @@ scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
     channels[i] = channel;
   }
 
-  server.join();
+  server.get();
 
   return Network{channels};
 }
@@ -61,8 +67,9 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections<scl::ThreadedSenderChannel>,
-                     std::ref(channels), config);
+  auto server = std::async(std::launch::async,
+                           AcceptConnections<scl::ThreadedSenderChannel>,
+                           std::ref(channels), config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
@@ -73,7 +80,7 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
     channels[i] = channel;
   }
 
-  server.join();
+  server.get();
 
   return Network{channels};
 }
-- 
2.43.0


From d3867ef3b04229b9c85c75dbc37904056ed1e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 22/28] fix: reject duplicate party ids in the discovery server

---
 secure-computation-library/src/scl/net/discovery/server.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 0f8ff65..673470c 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -35,14 +35,17 @@ Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
   auto my_id = ctx.me.id;
   std::vector<scl::Party> parties(mHostnames.size());
   parties[my_id] = ctx.me;
+  std::vector<bool> seen(mHostnames.size(), false);
+  seen[my_id] = true;
 
   for (std::size_t i = 0; i < mHostnames.size(); ++i) {
     if (my_id != i) {
       unsigned id;
       ctx.network.Party(i)->Recv(id);
-      if (id >= parties.size()) {
+      if (id >= parties.size() || seen[id]) {
         throw std::logic_error("received invalid party ID");
       }
+      seen[id] = true;
       int port;
       ctx.network.Party(i)->Recv(port);
       parties[id] = scl::Party{id, mHostnames[id], port};
-- 
2.43.0


From d78dd024ce00f4f9c137361482969aac233f9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 23/28] fix: validate the network config received from the
 discovery server

---
 .../src/scl/net/discovery/client.cc             | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/secure-computation-library/src/scl/net/discovery/client.cc b/secure-computation-library/src/scl/net/discovery/client.cc
index d33f039..7aa8442 100644
--- a/secure-computation-library/src/scl/net/discovery/client.cc
+++ b/secure-computation-library/src/scl/net/discovery/client.cc
@@ -1,9 +1,15 @@
 #include "scl/net/discovery/client.h"
 
 #include <memory>
+#include <stdexcept>
+#include <vector>
 
 #include "scl/net/tcp_utils.h"
 
+#ifndef MAX_HOSTNAME_SIZE
+#define MAX_HOSTNAME_SIZE 255
+#endif
+
 using Client = scl::DiscoveryClient;
 
 scl::NetworkConfig Client::Run(unsigned id, int port) {
@@ -25,6 +31,9 @@ Client::ReceiveNetworkConfig Client::SendIdAndPort::Run(
 static inline std::string ReceiveHostname(std::shared_ptr<scl::Channel> ctx) {
   std::size_t len;
   ctx->Recv(len);
+  if (len > MAX_HOSTNAME_SIZE) {
+    throw std::logic_error("received hostname exceeds size limit");
+  }
   auto buf = std::make_unique<char[]>(len);
   ctx->Recv(reinterpret_cast<unsigned char*>(buf.get()), len);
   return std::string(buf.get(), buf.get() + len);
@@ -34,11 +43,19 @@ scl::NetworkConfig Client::ReceiveNetworkConfig::Finalize(
     std::shared_ptr<scl::Channel> ctx) {
   std::size_t number_of_parties;
   ctx->Recv(number_of_parties);
+  if (number_of_parties > MAX_DISCOVER_PARTIES) {
+    throw std::logic_error("received too many parties");
+  }
 
   std::vector<scl::Party> parties(number_of_parties);
+  std::vector<bool> seen(number_of_parties, false);
   for (std::size_t i = 0; i < number_of_parties; ++i) {
     scl::Party party;
     ctx->Recv(party.id);
+    if (party.id >= number_of_parties || seen[party.id]) {
+      throw std::logic_error("received invalid party ID");
+    }
+    seen[party.id] = true;
     ctx->Recv(party.port);
     auto hostname = ReceiveHostname(ctx);
     party.hostname = hostname;
-- 
2.43.0


From 630ae75c5cb950a7d4f2692709b6eee4cb4cbd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 24/28] fix: continue socket reads and writes that were
 interrupted by a signal

---
 secure-computation-library/src/scl/net/tcp_utils.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/src/scl/net/tcp_utils.cc b/secure-computation-library/src/scl/net/tcp_utils.cc
index 8a7fa80..73738c5 100644
--- a/secure-computation-library/src/scl/net/tcp_utils.cc
+++ b/secure-computation-library/src/scl/net/tcp_utils.cc
@@ -81,10 +81,18 @@ int scl::details::CloseSocket(int socket) { return ::close(socket); }
 
 int scl::details::ReadFromSocket(int socket, unsigned char* dst,
                                  std::size_t n) {
-  return ::read(socket, dst, n);
+  int err;
+  do {
+    err = ::read(socket, dst, n);
+  } while (err < 0 && errno == EINTR);
+  return err;
 }
 
 int scl::details::WriteToSocket(int socket, const unsigned char* src,
                                 std::size_t n) {
-  return ::send(socket, src, n, MSG_NOSIGNAL);
+  int err;
+  do {
+    err = ::send(socket, src, n, MSG_NOSIGNAL);
+  } while (err < 0 && errno == EINTR);
+  return err;
 }
-- 
2.43.0


From 5c78eb70e4f7252a2a6219bff464708a8835fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 25/28] fix: reject config file lines with a single comma

---
 secure-computation-library/src/scl/net/config.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/config.cc b/secure-computation-library/src/scl/net/config.cc
index f795ceb..bc0708a 100644
--- a/secure-computation-library/src/scl/net/config.cc
+++ b/secure-computation-library/src/scl/net/config.cc
@@ -22,7 +22,7 @@ scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
     auto a = line.find(',');
     auto b = line.rfind(',');
 
-    if (a == std::string::npos || b == std::string::npos)
+    if (a == std::string::npos || a == b)
       throw std::invalid_argument("invalid entry in config file");
 
     auto id = (unsigned)std::stoul(std::string(line.begin(), line.begin() + a));
-- 
2.43.0


From a21c00250b6513b31590f6a10d6614a4db8816bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 26/28] fix: reject party ids in config files that do not fit
 an unsigned

---
 secure-computation-library/src/scl/net/config.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/config.cc b/secure-computation-library/src/scl/net/config.cc
index bc0708a..7ae58f7 100644
--- a/secure-computation-library/src/scl/net/config.cc
+++ b/secure-computation-library/src/scl/net/config.cc
@@ -25,7 +25,9 @@ scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
     if (a == std::string::npos || a == b)
       throw std::invalid_argument("invalid entry in config file");
 
-    auto id = (unsigned)std::stoul(std::string(line.begin(), line.begin() + a));
+    auto parsed = std::stoul(std::string(line.begin(), line.begin() + a));
+    auto id = (unsigned)parsed;
+    if (id != parsed) throw std::invalid_argument("invalid ID in config");
     auto hostname = std::string(line.begin() + a + 1, line.begin() + b);
     auto port = std::stoi(std::string(line.begin() + b + 1, line.end()));
     info.emplace_back(Party{id, hostname, port});
-- 
2.43.0


From a8d12f04a39a639db1a81484f3c0093357c710b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 27/28] fix: evaluate in the clear again after new inputs are
 set

---
 src/tp/circuits.h            |  3 +++
 src/tp/circuits/cleartext.cc | 10 ++++++++++
 src/tp/gate.h                |  4 ++++
 3 files changed, 17 insertions(+)

diff --git a/src/tp/circuits.h b/src/tp/circuits.h
index c7cdc35..11bf003 100644
--- a/src/tp/circuits.h
+++ b/src/tp/circuits.h
@@ -285,6 +285,9 @@ namespace tp {
 
 
   private:
+    // Drops the values computed by earlier evaluations in the clear
+    void ResetClear();
+
     std::size_t mBatchSize;
 
     // List of layers. Each layer is itself a list of batches, which
diff --git a/src/tp/circuits/cleartext.cc b/src/tp/circuits/cleartext.cc
index e0b48a5..269a2b1 100644
--- a/src/tp/circuits/cleartext.cc
+++ b/src/tp/circuits/cleartext.cc
@@ -11,6 +11,7 @@ namespace tp {
 
       for (std::size_t j = 0; j < inputs_per_client[i].size(); j++) mFlatInputGates[i][j]->ClearInput(inputs_per_client[i][j]);
     }
+    ResetClear();
   }
   
   void Circuit::SetClearInputsFlat(std::vector<FF> inputs) {
@@ -21,6 +22,15 @@ namespace tp {
 	idx++;
       }
     }
+    ResetClear();
+  }
+
+  void Circuit::ResetClear() {
+    for (auto& layer : mFlatMultLayers) {
+      for (auto& mult_gate : layer) mult_gate->ResetClear();
+    }
+    for (auto& add_gate : mAddGates) add_gate->ResetClear();
+    for (auto& output_gate : mOutputGates) output_gate->ResetClear();
   }
   
   std::vector<std::vector<FF>> Circuit::GetClearOutputs() {
diff --git a/src/tp/gate.h b/src/tp/gate.h
index 7dc3d41..12b9ccc 100644
--- a/src/tp/gate.h
+++ b/src/tp/gate.h
@@ -24,6 +24,10 @@ namespace tp {
     // For cleartext evaluation
     bool IsEvaluated() { return mEvaluated; }
 
+    // For cleartext evaluation: forgets the computed value, so that it
+    // is computed again from the current inputs
+    void ResetClear() { mEvaluated = false; }
+
     // For testing purposes. Sets mu to the given value
     void _SetDummyMu(FF mu) {
       mMu = mu;
-- 
2.43.0


From 69d01f6b18bd39f0b4e275626118f9675628bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 28/28] fix: packed shares of simulated masks at the parties'
 own points

---
 src/tp/mult_gate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index 4aecdbf..a36dd22 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -127,13 +127,13 @@ namespace tp {
       
       // Using deg = BatchSize-1 ensures there's no randomness involved
       auto poly_A = scl::details::EvPolyFromSecretsAndDegree(lambda_A, mBatchSize-1, mPRG);
-      mPackedShrLambdaA = poly_A.Evaluate(FF(mID));
+      mPackedShrLambdaA = poly_A.Evaluate(FF(mID+1));
 	
       auto poly_B = scl::details::EvPolyFromSecretsAndDegree(lambda_B, mBatchSize-1, mPRG);
-      mPackedShrLambdaB = poly_B.Evaluate(FF(mID));
+      mPackedShrLambdaB = poly_B.Evaluate(FF(mID+1));
 
       auto poly_C = scl::details::EvPolyFromSecretsAndDegree(delta_C, mBatchSize-1, mPRG);
-      mPackedShrDeltaC = poly_C.Evaluate(FF(mID));
+      mPackedShrDeltaC = poly_C.Evaluate(FF(mID+1));
     }
 
     // For cleartext evaluation: calls GetClear on all its gates to
-- 
2.43.0

