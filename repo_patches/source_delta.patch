From 42552bdbe36491bf9a187bc7c9832ae256e07afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 01/61] fix: WidthMask(64) is all ones

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index f208c75..04ccaed 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -32,7 +32,7 @@ inline constexpr mask_type width_mask<64> = kMaskFill;
 
 inline constexpr mask_type WidthMask(size_t width) {
     assert(width <= kMaxWidthOfMask);
-    return (1ull << width) - 1;
+    return width < kMaxWidthOfMask ? (1ull << width) - 1 : kMaskFill;
 }
 
 template <size_t Offset>
-- 
2.43.0


From 51c0b449c20f464303d63cc9b3f79961d07f078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 02/61] fix: clz of a 32-bit word counts from bit 31 in the
 portable version

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 04ccaed..c98614a 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -293,7 +293,7 @@ inline int clz(uint32_t x) {
     if (x & 0xAAAAAAAA) {
         c |= 1;
     }
-    return c ^ 63;
+    return c ^ 31;
 #endif
 }
     
-- 
2.43.0


From af598c7fe7a0fa73301ddc027ba52c45a96755bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 03/61] fix: portable popcnt32 overflows on words with many
 ones

---
 include/sim_ds/bit_util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index c98614a..70d30d3 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -79,7 +79,8 @@ inline uint32_t popcnt32(uint32_t x) {
 #else
     x = x-((x>>1) & 0x55555555ull);
     x = (x & 0x33333333ull) + ((x>>2) & 0x33333333ull);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x >> 4)) & 0x0F0F0F0Full;
+    return 0x01010101*x >> 24;
 #endif
 }
 
-- 
2.43.0


From 2b012fbc0d64394107b431f44ea16bc65f304ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 04/61] fix: ambiguous ctz call in sel when compiled for BMI2

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 70d30d3..aded71c 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -511,7 +511,7 @@ constexpr uint8_t kLtSel[9][256] = {
 /* Select operation for 1 index at byte */
 inline int sel(uint64_t x, size_t i) {
 #ifdef __BMI2__
-    return ctz(_pdep_u64(1ull << (i-1), x)) + 1; // for 1 index
+    return ctz(uint64_t(_pdep_u64(1ull << (i-1), x))) + 1; // for 1 index
 #else
     size_t ret = 0;
     auto bit_cnt = bit_util::popcnt32(x);
-- 
2.43.0


From 635d8b909646eae68d62f08b57283b585633782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 05/61] fix: xor_map_intrinsics does not compile where AVX-512
 is available

---
 include/sim_ds/bit_util256.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index a32e93b..86ad526 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -146,7 +146,7 @@ __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
         x = _mm256_or_si256(_mm256_slli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0x0F0F0F0F0F0F0F0F)), 4),
                             _mm256_srli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0xF0F0F0F0F0F0F0F0)), 4));
     }
-#if defined(__AVX512VL__) && defined(__AVX512F__)
+#if defined(__AVX512VL__) && defined(__AVX512F__) && defined(__AVX512BW__) && defined(__AVX512VBMI__)
     if (mask & 8)
         x = _mm256_permutexvar_epi8(_mm256_set_epi8(30, 31, 28, 29, 26, 27, 24, 25, 22, 23, 20, 21, 18, 19, 16, 17, 14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1), x);
     if (mask & 16)
@@ -154,9 +154,9 @@ __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
     if (mask & 32)
         x = _mm256_permutexvar_epi32(_mm256_set_epi32(6, 7, 4, 5, 2, 3, 0, 1), x);
     if (mask & 64)
-        x = _mm256_permutexvar_epi64(_mm256_set_epi64(2, 3, 0, 1), x);
+        x = _mm256_permutexvar_epi64(_mm256_set_epi64x(2, 3, 0, 1), x);
     if (mask & 128)
-        x = _mm256_permutexvar_epi128(_mm256_set_epi128(0, 1), x);
+        x = _mm256_permute2x128_si256(x, x, 0x21);
 #else
     if (mask & 8)
         x = _mm256_or_si256(_mm256_srli_epi16(x, 8), _mm256_slli_epi16(x, 8));
-- 
2.43.0


From 24324a76a2563a82e08c984cb903b8398461fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 06/61] fix: clz256 counts whole zero words from the top

---
 include/sim_ds/bit_util256.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index 86ad526..6a13de7 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -76,7 +76,7 @@ inline int ctz256(const uint64_t* x_addr) {
 
 inline int clz256(const uint64_t* x_addr) {
     for (int i = 3; i >= 0; i--) if (*(x_addr+i))
-        return 64 * i + clz(*(x_addr+i));
+        return 64 * (3 - i) + clz(*(x_addr+i));
     return 256;
 }
 
-- 
2.43.0


From 4be0c13df168edd1dfef33e62b8ac12af8910001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 07/61] fix: bit iterators: postfix steps, const conversion and
 address-of do not compile

---
 include/sim_ds/BitReference.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/BitReference.hpp b/include/sim_ds/BitReference.hpp
index 82f78bb..a03a1ad 100644
--- a/include/sim_ds/BitReference.hpp
+++ b/include/sim_ds/BitReference.hpp
@@ -76,7 +76,7 @@ public:
     }
     
     BitIterator<_Bv, true> operator&() const {
-        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(__ctz(mask_)));
+        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(bit_util::ctz(mask_)));
     }
     
 private:
@@ -129,7 +129,7 @@ public:
     
     BitIterator operator++(int) {
         BitIterator itr = *this;
-        ++this;
+        ++*this;
         return itr;
     }
     
@@ -145,7 +145,7 @@ public:
     
     BitIterator operator--(int) {
         BitIterator itr = *this;
-        --this;
+        --*this;
         return itr;
     }
     
@@ -200,6 +200,10 @@ private:
     
     friend typename _Bv::_self;
     
+    friend class BitReference<_Bv>;
+    friend class BitConstReference<_Bv>;
+    friend class BitIterator<_Bv, true>;
+    
 };
 
 
-- 
2.43.0


From 338bf2fe8391e3b68f0b83678f9cbef1e63f6e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 08/61] fix: rank on a default-constructed SuccinctBitVector
 reads an empty block table

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 7e3ea33..a1a694f 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -25,7 +25,7 @@ private:
     std::vector<uint32_t> select_tips_;
     
 public:
-    SuccinctBitVector() = default;
+    SuccinctBitVector() : SuccinctBitVector(BitVector()) {}
     
     explicit SuccinctBitVector(BitVector&& bits);
     
-- 
2.43.0


From a24e18c51080988736ed515ce00c18761ef70e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 09/61] fix: rank(size()) reads the word behind the last one

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index a1a694f..eae1c1e 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -133,7 +133,7 @@ SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
     size_t block_index = index / 512 * 2;
     return (basic_block_[block_index] +
             ((basic_block_[block_index+1] >> (63-9*((index/64)%8))) & bit_util::width_mask<9>) +
-            bit_util::cnt(bits_.data()[index/64], index%64));
+            (index%64 ? bit_util::cnt(bits_.data()[index/64], index%64) : 0));
 }
 
 
-- 
2.43.0


From 1a2baa017d3673e5b9db61b4e5f988fac632d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 10/61] fix: select reads behind the tip table when ones in the
 last block pass a multiple of 512

---
 include/sim_ds/SuccinctBitVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index eae1c1e..01b930f 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -152,7 +152,8 @@ SuccinctBitVector<true>::select(size_t index) const {
     if (select_tips_.size() != 0) {
         auto select_tip_index = i / 512;
         left = select_tips_[select_tip_index];
-        right = select_tips_[select_tip_index + 1] + 1;
+        if (select_tip_index + 1 < select_tips_.size())
+            right = select_tips_[select_tip_index + 1] + 1;
     }
     while (left + 1 < right) {
         const auto center = (left + right) / 2;
-- 
2.43.0


From 8d0e97648a6687157e77e00e607531394b53b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 11/61] fix: FitVector iterators step by bits instead of
 elements and do not compile in most uses

---
 include/sim_ds/BitsReference.hpp | 52 +++++++++++++++-----------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/include/sim_ds/BitsReference.hpp b/include/sim_ds/BitsReference.hpp
index 0ce649c..edd0c89 100644
--- a/include/sim_ds/BitsReference.hpp
+++ b/include/sim_ds/BitsReference.hpp
@@ -31,6 +31,7 @@ class BitsReference {
     
     friend typename Sequence::Self;
     friend class BitsConstReference<Sequence>;
+    friend class BitsIterator<Sequence, false>;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -84,6 +85,7 @@ class BitsConstReference {
     const word_type mask_;
     
     friend typename Sequence::Self;
+    friend class BitsIterator<Sequence, true>;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -118,6 +120,8 @@ public:
     using value_type = typename Sequence::value_type;
     using difference_type = typename Sequence::difference_type;
     using reference = std::conditional_t<IsConst, BitsConstReference<Sequence>, BitsReference<Sequence>>;
+    using pointer = BitsIterator;
+    using iterator_category = std::random_access_iterator_tag;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -128,24 +132,19 @@ private:
     word_pointer seg_;
     size_t start_;
     
-    const size_t bits_per_entity_;
+    size_t bits_per_entity_;
     
 public:
     BitsIterator() : seg_(nullptr), start_(0), bits_per_entity_(64) {}
     
-    BitsIterator(const BitsIterator<Sequence, false>& x) : seg_(x.seg_), start_(x.offset_), bits_per_entity_(x.bits_per_entity_) {}
+    BitsIterator(const BitsIterator<Sequence, false>& x) : seg_(x.seg_), start_(x.start_), bits_per_entity_(x.bits_per_entity_) {}
     
     value_type operator*() const {
         return reference(seg_, start_, bits_per_entity_, bit_util::WidthMask(bits_per_entity_));
     }
     
     BitsIterator& operator++() {
-        if (start_ == kBitsPerWord - 1) {
-            ++seg_;
-            start_ = 0;
-        } else {
-            ++start_;
-        }
+        return *this += 1;
     }
     
     BitsIterator operator++(int) {
@@ -155,12 +154,7 @@ public:
     }
     
     BitsIterator& operator--() {
-        if (start_ == 0) {
-            --seg_;
-            start_ = kBitsPerWord - 1;
-        } else {
-            --start_;
-        }
+        return *this -= 1;
     }
     
     BitsIterator operator--(int) {
@@ -170,13 +164,11 @@ public:
     }
     
     BitsIterator& operator+=(difference_type difference) {
-        if (difference >= 0) {
-            seg_ += (start_ + difference) / kBitsPerWord;
-        } else {
-            seg_ += static_cast<difference_type>(-difference - kBitsPerWord + start_ + 1) / static_cast<difference_type>(kBitsPerWord);
-        }
-        difference &= kBitsPerWord - 1;
-        start_ = static_cast<size_t>((difference + start_) % kBitsPerWord);
+        const auto word_bits = static_cast<difference_type>(kBitsPerWord);
+        auto bits = static_cast<difference_type>(start_) + difference * static_cast<difference_type>(bits_per_entity_);
+        auto rel = (bits % word_bits + word_bits) % word_bits;
+        seg_ += (bits - rel) / word_bits;
+        start_ = static_cast<size_t>(rel);
         return *this;
     }
     
@@ -184,29 +176,32 @@ public:
         return *this += -difference;
     }
     
-    BitsIterator& operator+(difference_type difference) {
+    BitsIterator operator+(difference_type difference) const {
         BitsIterator itr = *this;
         itr += difference;
         return itr;
     }
     
-    BitsIterator& operator-(difference_type difference) {
+    BitsIterator operator-(difference_type difference) const {
         BitsIterator itr = *this;
         itr -= difference;
         return itr;
     }
     
-    friend BitsIterator& operator+(difference_type difference, const BitsIterator& x) {return x + difference;}
+    friend BitsIterator operator+(difference_type difference, const BitsIterator& x) {return x + difference;}
     
-    friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {return static_cast<difference_type>(x.seg_ - y.seg_) * kBitsPerWord + static_cast<difference_type>(x.offset_ - y.offset_);}
+    friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {
+        return (static_cast<difference_type>(x.seg_ - y.seg_) * static_cast<difference_type>(kBitsPerWord)
+                + static_cast<difference_type>(x.start_) - static_cast<difference_type>(y.start_)) / static_cast<difference_type>(x.bits_per_entity_);
+    }
     
     value_type operator[](difference_type pos) const {return *(*this + pos);}
     
-    friend bool operator==(const BitsIterator& x, const BitsIterator& y) {return x.seg_ == y.seg_ and x.offset_ == y.offset_;}
+    friend bool operator==(const BitsIterator& x, const BitsIterator& y) {return x.seg_ == y.seg_ and x.start_ == y.start_;}
     
     friend bool operator!=(const BitsIterator& x, const BitsIterator& y) {return !(x == y);}
     
-    friend bool operator<(const BitsIterator& x, const BitsIterator& y) {return x.seg_ < y.seg_ or (x.seg_ == y.seg_ and x.offset_ < y.offset_);}
+    friend bool operator<(const BitsIterator& x, const BitsIterator& y) {return x.seg_ < y.seg_ or (x.seg_ == y.seg_ and x.start_ < y.start_);}
     
     friend bool operator>(const BitsIterator& x, const BitsIterator& y) {return y < x;}
     
@@ -218,6 +213,9 @@ private:
     BitsIterator(word_pointer seg, size_t start, size_t bits_per_entity) : seg_(seg), start_(start), bits_per_entity_(bits_per_entity) {}
     
     friend typename Sequence::Self;
+    friend class BitsReference<Sequence>;
+    friend class BitsConstReference<Sequence>;
+    friend class BitsIterator<Sequence, true>;
     
 };
 
-- 
2.43.0


From b698f0cea0bc1e8575b826a5ccffbd1e7d6e5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 12/61] fix: FitVector::resize brings back elements hidden by
 an earlier shrink

---
 include/sim_ds/FitVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/FitVector.hpp b/include/sim_ds/FitVector.hpp
index 50d271a..83408c5 100644
--- a/include/sim_ds/FitVector.hpp
+++ b/include/sim_ds/FitVector.hpp
@@ -126,6 +126,8 @@ public:
     
     void resize(size_t size) {
         storage_.resize(size == 0 or bits_per_element_ == 0 ? 0 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1);
+        if (size < size_ and rel_(size) > 0) // Bits behind the last element are kept 0
+            storage_.back() &= bit_util::WidthMask(rel_(size));
         size_ = size;
     }
     
-- 
2.43.0


From d91a23976b81f408c46800ad57f9203d8353a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 13/61] fix: SizeFitsInUnits shifts by 64 or more and does not
 terminate for values with the top bit set

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 3920af7..ca29418 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -15,7 +15,7 @@ namespace sim_ds::calc {
 /* Calculate minimal number of units of argument required for value expression. */
 inline constexpr size_t SizeFitsInUnits(unsigned long long value, const size_t unit) {
     size_t size = 0;
-    while (static_cast<bool>(value >> (++size * unit))) continue;
+    while (++size * unit < 64 and static_cast<bool>(value >> (size * unit))) continue;
     return size;
 }
 
-- 
2.43.0


From e8a9ed4c24a9bd407188433a4020304221a40915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 14/61] fix: layer planning writes one element past its result

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index ca29418..923093c 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -120,7 +120,7 @@ inline void split_positions_optimized_for_dac(const Container& list, std::vector
     std::vector<size_t> bk;
     bk.reserve(8);
     bk.resize(L);
-    for (size_t k = 0; k <= L; k++) {
+    for (size_t k = 0; k < L; k++) {
         bk[k] = b[t];
         t = t + b[t];
     }
-- 
2.43.0


From 1eb4e14c21257ed864c37acffb30a45b73709eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 15/61] fix: DacVector reads behind the frequency list when the
 given widths exceed the largest value

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index d58f76e..d952ac7 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -268,7 +268,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
     { // Memory reservation
         std::vector<size_t> cf;
         calc::cummulative_frequency_list(vector, &cf);
-        for (size_t i = 0, t = 0; i < num_layers; t += layers_unit_bits_[i], i++) {
+        for (size_t i = 0, t = 0; i < num_layers and t < cf.size(); t += layers_unit_bits_[i], i++) {
             layers_[i].reserve(cf[t]);
             if (i < num_layers - 1)
                 paths_src_[i].reserve(cf[t]);
-- 
2.43.0


From dde58bd464161840eadeca10c42b782709bbf2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 16/61] fix: DacVector shifts by the width of a 64-bit layer

---
 include/sim_ds/DacVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index d952ac7..a9c8b05 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -278,7 +278,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
     for (auto v : vector) {
         value_type x = v;
         layers_[0].push_back(x & bit_util::WidthMask(layers_unit_bits_[0]));
-        x >>= layers_unit_bits_[0];
+        x = layers_unit_bits_[0] < 64 ? x >> layers_unit_bits_[0] : 0;
         for (size_t depth = 1; depth < num_layers; depth++) {
             bool exist = x > 0;
             paths_src_[depth - 1].push_back(exist);
@@ -286,7 +286,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
                 break;
             auto unit_bits = layers_unit_bits_[depth];
             layers_[depth].push_back(x & bit_util::WidthMask(unit_bits));
-            x >>= unit_bits;
+            x = unit_bits < 64 ? x >> unit_bits : 0;
         }
     }
     
-- 
2.43.0


From 1315355fa20605c3a61c15a13feb456215795d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 17/61] fix: an empty DacVector has indeterminate layers and
 cannot be queried, and a default one is written inconsistently

---
 include/sim_ds/DacVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index a9c8b05..9a85d4b 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -121,13 +121,13 @@ public:
     }
     
 private:
-    size_t num_layers_;
+    size_t num_layers_ = 0;
     std::vector<size_t> layers_unit_bits_;
     std::vector<layer_type> layers_;
     std::vector<rank_support_bv_type> paths_;
     
 public:
-    DacVector() : num_layers_(0), layers_unit_bits_(8, 8), layers_(8, layer_type(8)), paths_(7) {}
+    DacVector() = default;
     
     template <typename T>
     DacVector(const std::vector<T>& vector) : DacVector(vector, std::vector<size_t>{}) {}
@@ -141,7 +141,7 @@ public:
     
     // MARK: getter
     
-    size_t size() const {return layers_[0].size();}
+    size_t size() const {return layers_.empty() ? 0 : layers_[0].size();}
     
     bool empty() const {return size() == 0;}
     
-- 
2.43.0


From 68b8c76798db8bb98810bd07b9a76fcc403b1c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 18/61] fix: WaveletTree::rank of a symbol that does not occur

---
 include/sim_ds/WaveletTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 9a73697..8f78109 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -81,11 +81,12 @@ public:
     }
     
     size_t rank(uint8_t c, size_t index) const {
+        if (c >= leafs_)
+            return 0;
         size_t idx = index;
         for (size_t depth = 0, id = 1; depth < height_; depth++) {
             auto& cbv = bv_list_[id - 1];
             auto bit = (c >> (height_ - 1 - depth)) & 1;
-            assert(bit == cbv[idx]);
             idx = !bit ? cbv.rank_0(idx) : cbv.rank_1(idx);
             id = (id << 1) | bit;
         }
-- 
2.43.0


From 1a85e5216c721ca01a8fd9915e0a50a7889e0b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 19/61] fix: assigning a list to a block reference returns
 nothing

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 87746f7..8e73c4e 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -65,6 +65,7 @@ public:
         size_t i = 0;
         for (auto v : x)
             set_at(i++, v);
+        return *this;
     }
     
 private:
-- 
2.43.0


From f178374d3aa0b9746732b6406d6e2bbd7edbf958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 20/61] fix: set_at shifts a narrow value by more than its
 width

---
 include/sim_ds/MultipleVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 8e73c4e..919bc3c 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -113,7 +113,7 @@ private:
         auto relative_pointer = pointer_ + element_table_[id].pos;
         auto width = element_table_[id].size;
         for (size_t i = 0; i < width; i++)
-            *(relative_pointer + i) = static_cast<storage_type>(value >> (i * kBitsPerWord));
+            *(relative_pointer + i) = static_cast<storage_type>(static_cast<id_type>(value) >> (i * kBitsPerWord));
         
         return value;
     }
-- 
2.43.0


From e54af826151a09ef3bc9889e96721ed7f3ebcf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 21/61] fix: set_element_sizes appends to the layout instead of
 replacing it

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 919bc3c..74ed94b 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -239,6 +239,7 @@ public:
     template <typename T>
     void set_element_sizes(std::vector<T> sizes) {
         size_t pos = 0;
+        element_table_.clear();
         element_table_.reserve(sizes.size());
         for (auto size : sizes) {
             element_table_.emplace_back(pos, size);
-- 
2.43.0


From 02a2ab14647807f856c9dc0018d9b069b7dc7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 22/61] fix: a MultipleVector without fields has no size

---
 include/sim_ds/MultipleVector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 74ed94b..9b0f07a 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -248,6 +248,8 @@ public:
     }
     
     size_t block_size() const {
+        if (element_table_.empty())
+            return 0;
         auto& elem_back = element_table_.back();
         return elem_back.pos + elem_back.size;
     }
@@ -257,7 +259,7 @@ public:
     }
     
     size_t size() const {
-        return bytes_.size() / block_size();
+        return bytes_.empty() ? 0 : bytes_.size() / block_size();
     }
     
     reference block(size_t index) {
-- 
2.43.0


From 8de5cda0b87d5ba3d7f0e581ef764e37dd3e39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 23/61] fix: HeapSort of an empty range steps before its begin

---
 include/sim_ds/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/sort.hpp b/include/sim_ds/sort.hpp
index 9f7f8d3..eea3eb3 100644
--- a/include/sim_ds/sort.hpp
+++ b/include/sim_ds/sort.hpp
@@ -23,7 +23,7 @@ public:
     HeapSorter(Iterator begin, Iterator end, Compare compare) : begin_(begin), end_(end), compare_(compare) {
         for (auto id = size() / 2; id > 0; --id)
             Heapify(id);
-        while (begin_ < end_ - 1) {
+        while (end_ - begin_ > 1) {
             std::swap(*begin_, *(end_ - 1));
             --end_;
             Heapify(1);
-- 
2.43.0


From 10a63a1a824345ec39be6f81ca737441d5cbeebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 24/61] fix: Heap::push breaks the heap order

---
 include/sim_ds/Heap.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/Heap.hpp b/include/sim_ds/Heap.hpp
index 3c7f22d..d578e18 100644
--- a/include/sim_ds/Heap.hpp
+++ b/include/sim_ds/Heap.hpp
@@ -63,8 +63,12 @@ public:
     }
     
     void push(id_type value) {
-        base_.insert(base_.begin(), value);
-        Heapify(root());
+        base_.push_back(value);
+        for (auto id = size(); id > root(); id = parent(id)) {
+            if (!Compare(base_[id - 1], base_[parent(id) - 1]))
+                break;
+            std::swap(base_[id - 1], base_[parent(id) - 1]);
+        }
     }
     
     void pop() {
-- 
2.43.0


From f176d2f792f97587cf2c93d59ca6161b9e0d3c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 25/61] fix: InitializableArray of 64-bit unsigned elements
 does not compile

---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 94b48ae..971587f 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -71,7 +71,7 @@ class _InitializableArray;
 
 template <typename T, size_t Size>
 using InitializableArray = _InitializableArray<T, Size,
-    (1ull<<(std::numeric_limits<T>::digits)) >= (Size+(Size%2))>;
+    std::numeric_limits<T>::digits >= 64 or (1ull<<(std::numeric_limits<T>::digits%64)) >= (Size+(Size%2))>;
 
 
 // In-Place Initializable Arrays for a Special Case
-- 
2.43.0


From b7ca9633c9fd7d0ab92a7f6735c948b0eeb03dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 26/61] fix: CHT::erase looks for the wrong quotient

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 49b7fe2..aff3222 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -175,7 +175,7 @@ public:
         }
 
         auto initial_h = hasher_.hash(key);
-        auto quo = initial_h / bucket_bits_;
+        auto quo = initial_h >> bucket_bits_;
         auto initial_i = initial_h & bucket_mask_;
         if (!IsOccupied(initial_i))
             return;
-- 
2.43.0


From c554678e4c69fd78b4440d4032c1776d845fb4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 27/61] fix: CHT::get finds erased keys

---
 include/sim_ds/CHT.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index aff3222..3aca0de 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -96,6 +96,8 @@ public:
         i = ToClusterHead(i);
         do {
             if (Quotient(i) == quo) {
+                if (IsDeleted(i))
+                    return {false, 0};
                 return {true, values_[i]};
             }
             i = succ(i);
-- 
2.43.0


From d94f6cd6017a6426deedcf17a1e7301398270207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 28/61] fix: CHT loses the erased mark of an element that is
 shifted

---
 include/sim_ds/CHT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 3aca0de..9b85688 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -142,8 +142,8 @@ public:
             do {
                 auto pj = pred(j);
                 arr_[j] = (
-                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
+                    (arr_[j] & kOccupiedMask) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
                     kShiftedMask
                 );
                 values_[j] = values_[pj];
-- 
2.43.0


From d63e49bf7682ff30e81d69b32439b695a8c468a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 29/61] fix: CHT does not grow when all used slots hold erased
 keys or no slot is allowed

---
 include/sim_ds/CHT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 9b85688..e60fb8f 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -106,7 +106,7 @@ public:
     }
 
     bool IsFilled() const {
-        return used_ == max_size_;
+        return used_ >= max_size_;
     }
 
     void set(size_t key, uint64_t value) {
@@ -114,7 +114,7 @@ public:
         assert(64-bit_util::clz(value) <= values_.unit_width());
 
         if (IsFilled()) {
-            reserve(size()*2);
+            reserve(std::max(size()*2, size()+1));
         }
 
         uint64_t initial_h = hasher_.hash(key);
-- 
2.43.0


From f1b85b469ee496d4f8a8d9d75894026b17db06ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 30/61] fix: CHT with long keys and few buckets has slots wider
 than 64 bits

---
 include/sim_ds/CHT.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index e60fb8f..ad9e691 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -49,11 +49,12 @@ public:
     CHT() = default;
     explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
         key_bits_(key_bits),
-        bucket_size_(bucket_size),
-        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
+        // quotient and flags have to fit into 64 bits
+        bucket_size_(key_bits <= 64-kFlagBits ? bucket_size : std::max(bucket_size, size_t(1) << (key_bits-(64-kFlagBits)))),
+        bucket_bits_(bit_util::ctz((uint64_t)bucket_size_)),
         bucket_mask_((1ull<<bucket_bits_)-1),
-        max_size_(bucket_size*MaxLoadFactorPercent/100),
-        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
+        max_size_(bucket_size_*MaxLoadFactorPercent/100),
+        min_size_(bucket_size_*(MaxLoadFactorPercent-1)/400+1),
         values_(ValueBits, bucket_size_),
         hasher_(key_bits_) {
         assert(bit_util::popcnt(bucket_size) == 1);
-- 
2.43.0


From 59d00f75396c16932b70490dd26bb4f5e64f7054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 31/61] fix: the prime table has no row for the default hash
 width 64

---
 include/sim_ds/BijectiveHash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/BijectiveHash.hpp b/include/sim_ds/BijectiveHash.hpp
index 7f1f46f..a3dd402 100644
--- a/include/sim_ds/BijectiveHash.hpp
+++ b/include/sim_ds/BijectiveHash.hpp
@@ -88,7 +88,8 @@ constexpr uint64_t PRIME_TABLE[][2][3] = {
     {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
     {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
     {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
-    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}}  // 63
+    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
+    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
 };
 
 class MultiplyHash {
-- 
2.43.0


From 9fde8b5183812b91c5472106ed98607ceaa42271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 32/61] fix: CDRWArray erases from the table of the next bit
 length

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index b72ecfc..8d6d885 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -46,7 +46,7 @@ public:
         auto value_bits = 64-bit_util::clz((uint64_t)value);
         auto pw = widthes_[i];
         if (pw != 0 and pw != value_bits)
-            sat_table_[pw].erase(i);
+            sat_table_[pw-1].erase(i);
         widthes_[i] = value_bits;
         if (value_bits > 0)
             sat_table_[value_bits-1].set(i, value);
-- 
2.43.0


From 7107efd52488c0a4941877b064a56fbff9058f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 33/61] fix: CDRWVector::push_back on a vector without capacity

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 8d6d885..5eddb81 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -99,7 +99,7 @@ public:
 
     void push_back(uint64_t value) {
         if (size() == cap_)
-            _allocate(size()*2);
+            _allocate(std::max(size()*2, size_t(1)));
         size_++;
         set(size()-1, value);
     }
-- 
2.43.0


From 3a6f2c67e73eda9a817547ef4b701e1bed725172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 34/61] fix: CDRWVector demands power-of-two capacities it does
 not keep itself

---
 include/sim_ds/CDRWArray.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 5eddb81..ab08389 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -121,7 +121,6 @@ public:
 private:
     void _allocate(size_t new_cap) {
         assert(new_cap >= size());
-        assert(bit_util::popcnt(new_cap) == 1);
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-- 
2.43.0


From 2db497b87591b5a14e03a54a8da0b89bd2fb473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 35/61] fix: CDRWVector::resize brings back elements removed
 earlier

---
 include/sim_ds/CDRWArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index ab08389..30b5c18 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -82,6 +82,8 @@ public:
         if (new_size > cap_) {
             _allocate(std::max(new_size, cap_*2));
         }
+        for (size_t i = size_; i < new_size; i++) // may hold values from before a shrink
+            set(i, 0);
         size_ = new_size;
     }
 
-- 
2.43.0


From 7774ca2c3d1b2dfab01e3e64d0a5323381e998ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 36/61] fix: Trie finds keys never inserted and calls every
 node terminal for index types other than size_t

---
 include/sim_ds/string_util/graph_util.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index e17f0f6..c75207f 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -49,7 +49,7 @@ public:
         item_index_ = item_index;
     }
     
-    bool terminal() const {return item_index() != -1;}
+    bool terminal() const {return item_index() != kItemEmpty;}
     
     template <class ACTION>
     void for_each_edge(ACTION action) const {
@@ -122,7 +122,7 @@ public:
     
     item_type* traverse(std::string_view key) {
         auto item_index = _traverse(key);
-        return item_index != -1 ? &storage_[item_index] : nullptr;
+        return item_index != kItemEmpty ? &storage_[item_index] : nullptr;
     }
     
     template <class NODE_ACTION>
@@ -166,19 +166,19 @@ public:
     }
     
 private:
-    size_t _traverse(std::string_view key) const {
+    size_type _traverse(std::string_view key) const {
         size_t node = kRootIndex;
         for (uint8_t c : key) {
             auto& n = container_[node];
             auto target = n.target(c);
             if (target == kRootIndex)
-                return -1;
+                return kItemEmpty;
             node = target;
         }
         auto& n = container_[node];
         auto target = n.target('\0');
         if (target == kRootIndex)
-            return -1;
+            return kItemEmpty;
         node = target;
         
         auto& terminal = container_[node];
-- 
2.43.0


From 61317ae22102fc59419c068db94f6cec73991f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 37/61] fix: FactorOracle of the empty text writes to an empty
 array

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 4a07330..b9cc8e7 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -39,7 +39,7 @@ private:
         
 //        std::cerr << " expand block" << std::endl;
         int cnt = 0;
-        while (next_.size() < kNumStates - 1) {
+        while (next_.size() < kNumStates) {
 //            std::cerr << ++cnt << std::endl;
             _expand_block();
         }
-- 
2.43.0


From 2d3bd4735d31ce43a1ef498b99d4639b07e0907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 38/61] fix: FactorOracle::image reads behind the text at the
 last state

---
 include/sim_ds/string_util/FactorOracle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index b9cc8e7..e898e05 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -238,6 +238,8 @@ public:
     
     explicit FactorOracleBaseCTAFO(std::string_view text) : FactorOracleBaseCTAFO(text.begin(), text.end()) {}
     
+    size_t size() const {return check_.size();}
+    
     uint8_t check(size_t index) const {return index == 0 ? '\0' : check_[index - 1];}
     
     id_type base(size_t index) const {return base_[index];}
@@ -281,7 +283,7 @@ public:
     FactorOracle(InputIter begin, InputIter end) : Base(begin, end) {}
     
     bool image(size_t& state, uint8_t c) const {
-        if (Base::check(state + 1) == c) {
+        if (state < Base::size() and Base::check(state + 1) == c) {
             state++;
         } else {
             auto b = Base::base(state);
-- 
2.43.0


From a1ed5e888494ad94f5dd5ddfcfbd8b82278e2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 39/61] fix: FactorOracle loses transitions by NUL when the
 transitions of a state move

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index e898e05..9299f9c 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -167,7 +167,7 @@ public:
         if (b == kEmptyValue)
             return {};
         std::vector<id_type> transes;
-        for (size_t c = 1; c <= 0xff; c++) {
+        for (size_t c = 0; c <= 0xff; c++) {
             auto n = next(b ^ c);
             if (used_trans_[b ^ c] and n > 0 and check(n) == c) {
                 transes.push_back(n);
-- 
2.43.0


From 8c418c7235cdf8a8aec38b8d9fb3383e1afec900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 40/61] fix: FactorOracle never terminates once every element
 of its blocks is used

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 9299f9c..152ab8e 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -97,6 +97,8 @@ private:
     }
     
     size_t _find_base(const std::vector<id_type>& transes) {
+        if (used_trans_[empty_trans_front_]) // No empty element is left.
+            _expand_block();
         for (auto index = empty_trans_front_; ; index = next(index)) {
             assert(not used_trans_[index]);
             auto b = index ^ check(transes.front());
-- 
2.43.0


From 9a871bad337b1db0ac0f7cea31f5713daeded128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 41/61] fix: SundayQS and SundayMS search behind texts shorter
 than the key

---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 249df70..bb8c91f 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -299,6 +299,8 @@ SundayQS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
     std::vector<size_t> matchies;
+    if (text.size() < kKeySize)
+        return matchies;
     size_t i = 0;
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
@@ -371,6 +373,8 @@ SundayMS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
     std::vector<size_t> matchies;
+    if (text.size() < kKeySize)
+        return matchies;
     size_t i = 0;
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
-- 
2.43.0


From 40534d46f77ec9c315e1d65fbd55b66f45f5800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 42/61] fix: SundayQS and SundayMS never find bytes above 0x7F
 and read outside the shift table

---
 include/sim_ds/string_util/PatternMatching.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index bb8c91f..d1ee787 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -283,9 +283,9 @@ public:
     // Deltas like improved bm skip function
     SundayQS(std::string_view key) : Sunday(key) {
         const size_t kKeySize = key_.size();
-        td1_.assign(0xFF, kKeySize + 1);
+        td1_.assign(0x100, kKeySize + 1);
         for (size_t i = 0; i < key_.size(); i++)
-            td1_[key_[i]] = kKeySize - i;
+            td1_[uint8_t(key_[i])] = kKeySize - i;
     }
     
     size_t delta1(uint8_t type) const {return td1_[type];}
@@ -305,7 +305,7 @@ SundayQS::find_all(std::string_view text) const {
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
-        while (pos < kKeySize and pat->second == text[i + pat->first]) {
+        while (pos < kKeySize and pat->second == uint8_t(text[i + pat->first])) {
             pos++; ++pat;
         }
         if (pos == kKeySize)
@@ -334,7 +334,7 @@ public:
                     long long j = pat.first - lshift;
                     if (j < 0)
                         continue;
-                    if (pat.second != key_[j])
+                    if (pat.second != uint8_t(key_[j]))
                         break;
                 }
                 if (ppos == -1)
@@ -353,7 +353,7 @@ public:
             while (lshift < key_.size()) {
                 auto& pat = pattern_[pos];
                 long long i = pat.first - lshift;
-                if (i < 0 or pat.second != key_[i])
+                if (i < 0 or pat.second != uint8_t(key_[i]))
                     break;
                 lshift++;
                 lshift = match_shift(pos, lshift);
@@ -379,7 +379,7 @@ SundayMS::find_all(std::string_view text) const {
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
-        while (pos < kKeySize and pat->second == text[i + pat->first]) {
+        while (pos < kKeySize and pat->second == uint8_t(text[i + pat->first])) {
             pos++; ++pat;
         }
         if (pos == kKeySize)
-- 
2.43.0


From 43a9a5dd9e2b1518561d784fd7d6382a20460792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 43/61] fix: Bm reads outside its skip table for bytes above
 0x7F and for 0xFF

---
 include/sim_ds/string_util/PatternMatching.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index d1ee787..a56afbe 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -114,9 +114,9 @@ private:
     std::vector<size_t> skip_;
     
 public:
-    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0xFF, key.size()) {
+    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0x100, key.size()) {
         for (size_t i = 0; i < key.size() - 1; i++) {
-            skip_[key[i]] = key.size() - i - 1;
+            skip_[uint8_t(key[i])] = key.size() - i - 1;
         }
     }
     
@@ -140,7 +140,7 @@ Bm::find_all(std::string_view text) const {
         }
         if (k == -1) // match
             matchies.push_back(pos + 1);
-        i += skip_[text[i]];
+        i += skip_[uint8_t(text[i])];
         
     }
     return matchies;
-- 
2.43.0


From 0836d295c0cb5c3f756901751fb22399649e2f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:23 +0000
Subject: [PATCH 44/61] fix: Kmp compares the character behind the key after a
 match

---
 include/sim_ds/string_util/PatternMatching.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index a56afbe..0c88b48 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -101,6 +101,7 @@ Kmp::find_all(std::string_view text) const {
         pos++;
         if (pos == difference_type(key_.size())) {
             matchies.push_back(i + 1 - key_.size());
+            pos = next_[pos];
         }
     }
     return matchies;
-- 
2.43.0


From 56a993744cd46b731ea0a7cd5e1859f178a764cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 45/61] fix: TurboBom misses matches completed within its KMP
 search and reads behind the key

---
 include/sim_ds/string_util/PatternMatching.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 0c88b48..6b83b9d 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -199,11 +199,16 @@ public:
     std::vector<size_t> find_all(std::string_view text) const override;
     
 private:
-    long long kmp_search(std::string_view text, difference_type pos = 0) const {
-        for (size_t i = 0; i < text.size(); i++) {
+    // Search text[begin, begin + size) from the state pos and append the matches completed there.
+    long long kmp_search(std::string_view text, size_t begin, size_t size, difference_type pos, std::vector<size_t>& matchies) const {
+        for (size_t i = begin; i < text.size() and i < begin + size; i++) {
             while (pos > -1 and key_[pos] != text[i])
                 pos = kmp_.next(pos);
-                pos++;
+            pos++;
+            if (pos == difference_type(key_.size())) {
+                matchies.push_back(i + 1 - key_.size());
+                pos = kmp_.next(pos);
+            }
         }
         return pos;
     }
@@ -232,7 +237,7 @@ TurboBom::find_all(std::string_view text) const {
         } else {
             const auto prefix_size = pos > critpos ? 0 : critpos - begin;
             const auto kmp_begin = std::max(pos, critpos);
-            const auto next = kmp_search(text.substr(kmp_begin, kKmpWindowSize), prefix_size);
+            const auto next = kmp_search(text, kmp_begin, kKmpWindowSize, prefix_size, matchies);
             critpos = kmp_begin + kKmpWindowSize;
             back = kmp_begin + kKmpWindowSize - next + kWindowSize - 1;
         }
-- 
2.43.0


From f0e3abfa8b427ef97a6d5a9db77774909e1580b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 46/61] fix: SuffixArray leaves suffixes unsorted when all LMS
 substrings differ

---
 include/sim_ds/string_util/SuffixArray.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index c406f87..0e2143d 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -212,10 +212,14 @@ inline vector<size_t> SuffixArray::Sais_(const vector<size_t> &str, size_t maxVa
     const vector<size_t> lmsIds = FindLMSs_(slTypes);
     const InducedRV inducedSorted = InducedSort_(maxValue, str, slTypes, lmsIds);
     using std::get;
-    const vector<size_t> sArr = std::move(get<0>(inducedSorted));
     size_t countShared = get<2>(inducedSorted);
     if (countShared == 0) {
-        return sArr;
+        // The LMS substrings are sorted; the suffixes have to be induced from them.
+        const vector<size_t> &subStr = get<1>(inducedSorted);
+        vector<size_t> subSais(subStr.size());
+        for (size_t i = 0; i < subStr.size(); i++)
+            subSais[subStr[i]] = i;
+        return Induce_(maxValue, str, slTypes, lmsIds, &subSais);
     } else {
         const vector<size_t> subStr = std::move(get<1>(inducedSorted));
         const vector<size_t> subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
-- 
2.43.0


From 5fdf0d6d67f00183f01260e1a7887955d052edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 47/61] fix: SuffixArray of the empty string crashes

---
 include/sim_ds/string_util/SuffixArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 0e2143d..8873628 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -33,6 +33,8 @@ public:
     SuffixArray() = default;
     
     SuffixArray(const string &str) {
+        if (str.empty())
+            return;
         BuildSA_(str);
         BuildLCP_();
     }
-- 
2.43.0


From 3c6a79d1550073145f048c7d791aa8509cc1ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 48/61] fix: SuffixArray mistakes NUL for the sentinel and
 crashes on bytes above 0x7F

---
 include/sim_ds/string_util/SuffixArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 8873628..5c47c8f 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -132,7 +132,7 @@ void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
     vector<size_t> strVec;
     SaisStr_(strVec, str);
-    vector<size_t> sArr = Sais_(strVec, 0xff);
+    vector<size_t> sArr = Sais_(strVec, 0x100);
     // Erase first element. suffix[0]: '\0'
     sArr.erase(sArr.begin());
     s_arr_ = FitVector(sArr);
@@ -142,7 +142,7 @@ void SuffixArray::BuildSA_(const string &str) {
 void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
-        saisS[i] = size_t(str[i]);
+        saisS[i] = size_t(uint8_t(str[i])) + 1; // 0 is the sentinel.
     saisS.push_back(0);
 }
 
-- 
2.43.0


From 54ad49b816a9f49074d3c95177521c139b592924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 49/61] fix: write_vec forms a reference to the first element
 of an empty vector

---
 include/sim_ds/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index c6f7f0d..3892803 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -109,7 +109,7 @@ inline void write_val(const T& val, std::ostream& os) {
 template<typename T, class A>
 inline void write_vec(const std::vector<T, A> &vec, std::ostream &os) {
     write_val(vec.size(), os);
-    os.write(reinterpret_cast<const char*>(&vec[0]), sizeof(T) * vec.size());
+    os.write(reinterpret_cast<const char*>(vec.data()), sizeof(T) * vec.size());
 }
 
 inline void write_string(const std::string &str, std::ostream &os) {
-- 
2.43.0


From 2d4e520ae9e2fb3c1ad5f09962a1b7cd90e9caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 50/61] fix: recursive() keeps a reference to its dead
 parameter and drops the result

---
 include/sim_ds/basic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index 3892803..86657b5 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -125,8 +125,8 @@ inline size_t size_vec(const std::vector<T, A>& vec) {
 
 template <class Function>
 auto recursive(Function rec) {
-    return [&rec](auto&&... args) {
-        rec(rec, std::forward<decltype(args)>(args)...);
+    return [rec = std::move(rec)](auto&&... args) mutable -> decltype(auto) {
+        return rec(rec, std::forward<decltype(args)>(args)...);
     };
 }
 
-- 
2.43.0


From 8af7877ba65774fbfb1f49b413b5fdacef895278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 51/61] fix: Samc built from no keys dereferences the end of
 the list

---
 include/sim_ds/string_util/Samc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 8d13ebe..f6ff552 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -37,6 +37,8 @@ public:
     void for_each_edge(Action action) const {
       if (depth_ == kInvalidDepth)
         throw std::logic_error("class is not initialized");
+      if (begin_ == end_)
+        return;
       auto it = begin_;
       if (begin_->size() == depth_) {
         action('\0', string_array_explorer(end_, end_, depth_));
-- 
2.43.0


From a07eac25c5bb501d89045e02b672aeb2a5e8e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 52/61] fix: Samc and SamcDict read behind their code table for
 long queries and when default constructed

---
 include/sim_ds/string_util/Samc.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index f6ff552..821bfe1 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -90,6 +90,9 @@ public:
 
     size_t head(size_t depth) const {return head_[depth];}
 
+    // Number of levels, the length of the longest key plus 1.
+    size_t height() const {return code_table_.size();}
+
     size_t size_in_bytes() const {
       size_t size = size_vec(storage_);
       size += size_vec(code_table_);
@@ -319,6 +322,8 @@ private:
 template <typename CodeType, bool LegacyBuild>
 bool
 Samc<CodeType, LegacyBuild>::accept(std::string_view key) const {
+  if (key.size() >= _base::height())
+    return false;
   size_t node = 0;
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
@@ -441,6 +446,8 @@ private:
 template <typename CodeType>
 size_t
 SamcDict<CodeType>::lookup(std::string_view key) const {
+  if (key.size() >= _base::height())
+    return kSearchError;
   size_t node = 0;
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
-- 
2.43.0


From 8319b503003e8248fd5cb0666f00c6b66fdde81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 53/61] fix: DacVector::ShowStatus reads the first path of a
 single-layer vector

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 9a85d4b..c35b3b1 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -230,7 +230,7 @@ public:
         os << "size:   " << size_bytes << endl;
         os << "sizeBits/element:   " << (float(size_bytes * 8) / size()) << endl;
         auto bitsSize = 0;
-        for (size_t i = 0; i == 0 || i + 1 < num_layers(); i++)
+        for (size_t i = 0; i + 1 < num_layers(); i++)
             bitsSize += paths_[i].size_in_bytes();
         os << "size bits:   " << bitsSize << endl;
         auto flowSize = 0;
-- 
2.43.0


From 328bbc036653d598a03dc1c4b33d7c41910da5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 54/61] fix: WaveletTree::Read reads as many nodes as the
 target had, not as many as were written

---
 include/sim_ds/WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 8f78109..487eb75 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -129,6 +129,7 @@ public:
         height_ = read_val<size_t>(is);
         leafs_ = read_val<size_t>(is);
         size_ = read_val<size_t>(is);
+        bv_list_.resize((1U << height_) - 1);
         for (auto &l : bv_list_)
             l.Read(is);
     }
-- 
2.43.0


From 7c9f3033445563d6fb49ca64a6f7608b09052c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 55/61] fix: Trie::dfs overflows the call stack on long keys

---
 include/sim_ds/string_util/graph_util.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index c75207f..efee4ba 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -132,11 +132,21 @@ public:
     
     template <class NODE_ACTION>
     void dfs(size_t node, size_t depth, NODE_ACTION node_action) const {
-        auto& n = container_[node];
-        node_action(n, depth);
-        n.for_each_edge([&](auto c, auto target) {
-            dfs(target, depth+1, node_action);
-        });
+        // Own stack: the length of a path is not limited by the call stack.
+        std::vector<std::pair<size_t, size_t>> nodes;
+        nodes.emplace_back(node, depth);
+        while (not nodes.empty()) {
+            auto p = nodes.back();
+            nodes.pop_back();
+            auto& n = container_[p.first];
+            
+            node_action(n, p.second);
+            auto siblings = nodes.size();
+            n.for_each_edge([&](auto c, auto target) {
+                nodes.emplace_back(target, p.second+1);
+            });
+            std::reverse(nodes.begin()+siblings, nodes.end());
+        }
     }
     
     template <class NODE_ACTION>
-- 
2.43.0


From 0a7d0a6ec1e8eef7e3148b4e4078c7fe0d801f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:57 +0000
Subject: [PATCH 56/61] fix: a hash table that cannot grow for lack of memory
 keeps its entries

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index ad9e691..73e88e9 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -265,7 +265,7 @@ private:
                 i = succ(i);
             } while (IsShifted(i));
         }
-        *this = next;
+        *this = std::move(next);
     }
 
 };
-- 
2.43.0


From 2e8ac9e9608565dad3d653f51ec8a58cf51e7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:15 +0000
Subject: [PATCH 57/61] fix: CDRW structures keep their values when a change
 runs out of memory

---
 include/sim_ds/CDRWArray.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 30b5c18..acd67fa 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -45,11 +45,11 @@ public:
     void set(size_t i, uint64_t value) {
         auto value_bits = 64-bit_util::clz((uint64_t)value);
         auto pw = widthes_[i];
+        if (value_bits > 0)
+            sat_table_[value_bits-1].set(i, value); // may throw, the old value is still in place
+        widthes_[i] = value_bits;
         if (pw != 0 and pw != value_bits)
             sat_table_[pw-1].erase(i);
-        widthes_[i] = value_bits;
-        if (value_bits > 0)
-            sat_table_[value_bits-1].set(i, value);
     }
 
     size_t size() const { return size_; }
@@ -102,8 +102,8 @@ public:
     void push_back(uint64_t value) {
         if (size() == cap_)
             _allocate(std::max(size()*2, size_t(1)));
+        set(size(), value);
         size_++;
-        set(size()-1, value);
     }
 
     void pop_back() {
@@ -126,7 +126,7 @@ private:
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-        arr_ = next;
+        arr_ = std::move(next);
         cap_ = new_cap;
     }
 
-- 
2.43.0


From 7e5d2189c3fc837b228c059b7eb7fae8b6fc1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:32 +0000
Subject: [PATCH 58/61] fix: a trie whose insert runs out of memory has no
 dangling edge

---
 include/sim_ds/string_util/graph_util.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index efee4ba..f1f2906 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -92,9 +92,7 @@ public:
             if (target != kRootIndex) {
                 node = target;
             } else {
-                n.add(c, container_.size());
-                node = container_.size();
-                container_.emplace_back();
+                node = _append(node, c);
             }
         }
         // Add leaf label as '\0'.
@@ -103,9 +101,7 @@ public:
         if (target != kRootIndex) {
             node = target;
         } else {
-            n.add(kLeafChar, container_.size());
-            node = container_.size();
-            container_.emplace_back();
+            node = _append(node, kLeafChar);
         }
         
         auto& terminal = container_[node];
@@ -176,6 +172,18 @@ public:
     }
     
 private:
+    size_t _append(size_t parent, uint8_t c) {
+        auto node = container_.size();
+        container_.emplace_back();
+        try {
+            container_[parent].add(c, node);
+        } catch (...) { // no edge may lead to a node that is not there
+            container_.pop_back();
+            throw;
+        }
+        return node;
+    }
+
     size_type _traverse(std::string_view key) const {
         size_t node = kRootIndex;
         for (uint8_t c : key) {
-- 
2.43.0


From 0515d070fe794bc913c17ff1594fd22f00627715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:52 +0000
Subject: [PATCH 59/61] fix: read_val of a stream that ends too early returns a
 determined value

The value was left uninitialised, so reading a cut image took indeterminate
sizes for vectors and strings and tried to allocate them.
---
 include/sim_ds/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index 86657b5..fb8488e 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -80,7 +80,7 @@ double microsec_time_in_process(Process process) {
 
 template<typename T>
 inline T read_val(std::istream& is) {
-    T val;
+    T val{};
     is.read(reinterpret_cast<char*>(&val), sizeof(val));
     return val;
 }
-- 
2.43.0


From c4c6b56d51df7eb1b597a4267fcab063da3f8e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:13 +0000
Subject: [PATCH 60/61] fix: an element of InitializableArrayFolklore whose
 assignment throws is not left chained to a stale value

---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 971587f..6818806 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -34,11 +34,11 @@ public:
     }
     
     void set(size_t index, T val) {
+        fv_[index].second = val; // may throw, the element is not chained before it has its value
         if (not _is_chained(index)) {
             fv_[index].first = t_.size();
             t_.push_back(index);
         }
-        fv_[index].second = val;
     }
     
     // Initialize all values in O(1) time operation
-- 
2.43.0


From 1205f4bd11d74f81e3e5980baabc7d4168fa6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:25 +0000
Subject: [PATCH 61/61] fix: CDRWArray keeps the entry of a value whose width
 changes

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index acd67fa..c5b4660 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -44,7 +44,7 @@ public:
 
     void set(size_t i, uint64_t value) {
         auto value_bits = 64-bit_util::clz((uint64_t)value);
-        auto pw = widthes_[i];
+        const size_t pw = widthes_[i]; // the width before, not a reference to it
         if (value_bits > 0)
             sat_table_[value_bits-1].set(i, value); // may throw, the old value is still in place
         widthes_[i] = value_bits;
-- 
2.43.0

