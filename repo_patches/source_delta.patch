From 79a9b9f87918ed4bfc4dcc15f144ff1cf74b7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 01/30] fix: give bit vectors a zero word after their last bit

Concatenating levels, rank and readBit at position numBits() read and wrote
one word past the array whenever the bits fill their last word exactly.
---
 include/bitvector.hpp | 12 ++++++++++--
 include/rank.hpp      |  2 +-
 include/select.hpp    |  2 +-
 include/suffix.hpp    |  2 +-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index 7616ac9..f6a0dfc 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -20,8 +20,7 @@ public:
 	if (end_level == 0)
 	    end_level = bitvector_per_level.size();
 	num_bits_ = totalNumBits(num_bits_per_level, start_level, end_level);
-	bits_ = new word_t[numWords()];
-	memset(bits_, 0, bitsSize());
+	allocBits();
 	concatenateBitvectors(bitvector_per_level, num_bits_per_level, start_level, end_level);
     }
 
@@ -62,6 +61,15 @@ private:
 			       const std::vector<position_t>& num_bits_per_level, 
 			       const level_t start_level, 
 			       const level_t end_level/* non-inclusive */);
+protected:
+    // Allocates a zeroed bit array with one word beyond the last bit:
+    // position num_bits_ may be read, and belongs to no word in use
+    // if num_bits_ is a multiple of the word size.
+    void allocBits() {
+	bits_ = new word_t[numWords() + 1];
+	memset(bits_, 0, bitsSize() + sizeof(word_t));
+    }
+
 protected:
     position_t num_bits_;
     word_t* bits_;
diff --git a/include/rank.hpp b/include/rank.hpp
index dd4e4c8..dddc3bb 100644
--- a/include/rank.hpp
+++ b/include/rank.hpp
@@ -78,7 +78,7 @@ public:
 	memcpy(&(bv_rank->basic_block_size_), src, sizeof(bv_rank->basic_block_size_));
 	src += sizeof(bv_rank->basic_block_size_);
 
-	bv_rank->bits_ = new word_t[bv_rank->numWords()];
+	bv_rank->allocBits();
 	memcpy(bv_rank->bits_, src, bv_rank->bitsSize());
 	src += bv_rank->bitsSize();
 	bv_rank->rank_lut_ = new position_t[bv_rank->rankLutSize() / sizeof(position_t)];
diff --git a/include/select.hpp b/include/select.hpp
index bc457c8..b84b3dc 100644
--- a/include/select.hpp
+++ b/include/select.hpp
@@ -107,7 +107,7 @@ public:
 	memcpy(&(bv_select->num_ones_), src, sizeof(bv_select->num_ones_));
 	src += sizeof(bv_select->num_ones_);
 
-	bv_select->bits_ = new word_t[bv_select->numWords()];
+	bv_select->allocBits();
 	memcpy(bv_select->bits_, src, bv_select->bitsSize());
 	src += bv_select->bitsSize();
 	bv_select->select_lut_ = new position_t[bv_select->selectLutSize() / sizeof(position_t)];
diff --git a/include/suffix.hpp b/include/suffix.hpp
index 01cfee4..6f368f7 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -162,7 +162,7 @@ public:
         memcpy(&(sv->real_suffix_len_), src, sizeof(sv->real_suffix_len_));
 	src += sizeof(sv->real_suffix_len_);
 	if (sv->type_ != kNone) {
-	    sv->bits_ = new word_t[sv->numWords()];
+	    sv->allocBits();
 	    memcpy(sv->bits_, src, sv->bitsSize());
 	    src += sv->bitsSize();
 	    
-- 
2.43.0


From d91e03e1370cd6d4931af79fc948da07a579b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 02/30] fix: distanceToNextSetBit without a next set bit ends
 at numBits()

It returned the distance to the end of the last word when the search crossed
a word, so the last node of a sparse trie looked larger than it is.
---
 include/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index f6a0dfc..c8d8336 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -94,7 +94,7 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
     if (test_bits > 0) {
 	return (distance + __builtin_clzll(test_bits));
     } else {
-	if (word_id == numWords() - 1)
+	if (word_id >= numWords() - 1)
 	    return (num_bits_ - pos);
 	distance += (kWordSize - offset);
     }
@@ -106,7 +106,7 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
 	    return (distance + __builtin_clzll(test_bits));
 	distance += kWordSize;
     }
-    return distance;
+    return (num_bits_ - pos);
 }
 
 position_t Bitvector::distanceToPrevSetBit (const position_t pos) const {
-- 
2.43.0


From 757d0035432ad90b2c927805d771c4599870b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 03/30] fix: select past the last 1 bit scanned memory after
 the bit vector

approxCount asks for the node after the last one; the scan ran on until it
met a set bit somewhere behind the array.
---
 include/select.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/select.hpp b/include/select.hpp
index b84b3dc..3c5a84a 100644
--- a/include/select.hpp
+++ b/include/select.hpp
@@ -31,9 +31,12 @@ public:
     // Returns the postion of the rank-th 1 bit.
     // posistion is zero-based; rank is one-based.
     // E.g., for bitvector: 100101000, select(3) = 5
+    // Returns num_bits_ if there is no rank-th 1 bit.
     position_t select(position_t rank) const {
 	assert(rank > 0);
 	assert(rank <= num_ones_ + 1);
+	if (rank > num_ones_)
+	    return num_bits_;
 	position_t lut_idx = rank / sample_interval_;
 	position_t rank_left = rank % sample_interval_;
 	// The first slot in select_lut_ stores the position of the first 1 bit.
-- 
2.43.0


From 13db2b2277ff9df56d2e6f786765905e8c047f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 04/30] fix: reading a suffix that spans two words shifted by a
 negative amount

Undefined behaviour; optimised builds returned wrong suffix bits.
---
 include/suffix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 6f368f7..1a0e72f 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -197,7 +197,7 @@ word_t BitvectorSuffix::read(const position_t idx) const {
     position_t offset = bit_pos & (kWordSize - 1);
     word_t ret_word = (bits_[word_id] << offset) >> (kWordSize - suffix_len);
     if (offset + suffix_len > kWordSize)
-	ret_word += (bits_[word_id+1] >> (kWordSize - offset - suffix_len));
+	ret_word += (bits_[word_id+1] >> (2 * kWordSize - offset - suffix_len));
     return ret_word;
 }
 
-- 
2.43.0


From 9bc7efd00bdb153d9ef9065abc296287b3d00f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 05/30] fix: suffix lengths 0 and above 57 bits shifted out of
 range

Hash suffixes of 58..64 bits, the real part of a 64-bit real suffix and
suffixes of 0 bits were built or read with undefined shifts.
---
 include/suffix.hpp       | 7 +++++--
 include/surf_builder.hpp | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 1a0e72f..e706f70 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -35,8 +35,9 @@ public:
 
     static word_t constructHashSuffix(const std::string& key, const level_t len) {
 	word_t suffix = suffixHash(key);
-	suffix <<= (kWordSize - len - kHashShift);
-	suffix >>= (kWordSize - len);
+	suffix >>= kHashShift;
+	if (len < kWordSize)
+	    suffix &= (((word_t)1 << len) - 1);
 	return suffix;
     }
 
@@ -94,6 +95,8 @@ public:
     }
 
     static word_t extractRealSuffix(const word_t suffix, const level_t real_suffix_len) {
+	if (real_suffix_len >= kWordSize)
+	    return suffix;
         word_t real_suffix_mask = 1;
         real_suffix_mask <<= real_suffix_len;
         real_suffix_mask--;
diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 280fb81..6d796b2 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -295,6 +295,10 @@ void SuRFBuilder::insertKeyByte(const char c, const level_t level, const bool is
 
 inline void SuRFBuilder::storeSuffix(const level_t level, const word_t suffix) {
     level_t suffix_len = getSuffixLen();
+    if (suffix_len == 0) {
+	suffix_counts_[level-1]++;
+	return;
+    }
     position_t pos = suffix_counts_[level-1] * suffix_len;
     assert(pos <= (suffixes_[level-1].size() * kWordSize));
     if (pos == (suffixes_[level-1].size() * kWordSize))
-- 
2.43.0


From 90fa724089b2c8992b3ba18c1ac62764f4002db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 06/30] fix: tries with every level in louds-dense read past
 the level arrays

With sparse_dense_ratio 0 the sparse part has no level: its constructor read
a node count, and approxCount a level cut, that does not exist.
---
 include/louds_sparse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index adff889..6678a71 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -186,6 +186,8 @@ LoudsSparse::LoudsSparse(const SuRFBuilder* builder) {
 
     if (start_level_ == 0)
 	child_count_dense_ = 0;
+    else if (start_level_ == height_)
+	child_count_dense_ = node_count_dense_ - 1;
     else
 	child_count_dense_ = node_count_dense_ + builder->getNodeCounts()[start_level_] - 1;
 
@@ -357,6 +359,7 @@ uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
 				  const position_t in_node_num_left,
 				  const position_t in_node_num_right) const {
     if (in_node_num_left == kMaxPos) return 0;
+    if (start_level_ == height_) return 0;
     std::vector<position_t> left_pos_list, right_pos_list;
     for (level_t i = 0; i < iter_left->key_len_; i++)
 	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
-- 
2.43.0


From 77c1df3ca06d1a98077604abef2c85739fe7c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 07/30] fix: a root whose only label is 0xff was taken for a
 terminator

The only key of the filter was then not found (dense), or the empty key
was found (sparse).
---
 include/louds_sparse.hpp | 4 +++-
 include/surf_builder.hpp | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 6678a71..a7d8863 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -245,7 +245,9 @@ bool LoudsSparse::lookupKey(const std::string& key, const position_t in_node_num
 	node_num = getChildNodeNum(pos);
 	pos = getFirstLabelPos(node_num);
     }
-    if ((labels_->read(pos) == kTerminator) && (!child_indicator_bits_->readBit(pos)))
+    if ((labels_->read(pos) == kTerminator)
+	&& (!child_indicator_bits_->readBit(pos))
+	&& !isEndofNode(pos))
 	return suffixes_->checkEquality(getSuffixPos(pos), key, level + 1);
     return false;
 }
diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 6d796b2..67ab1f8 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -424,7 +424,10 @@ bool SuRFBuilder::isStartOfNode(const level_t level, const position_t pos) const
 
 bool SuRFBuilder::isTerminator(const level_t level, const position_t pos) const {
     label_t label = labels_[level][pos];
-    return ((label == kTerminator) && !readBit(child_indicator_bits_[level], pos));
+    if ((label != kTerminator) || readBit(child_indicator_bits_[level], pos))
+	return false;
+    // a terminator has at least one sibling; a lone label is a key byte
+    return (pos + 1 < getNumItems(level)) && !isStartOfNode(level, pos + 1);
 }
 
 } // namespace surf
-- 
2.43.0


From c3ce5f75f2eb5884b757346c85e335f184cfaf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 08/30] fix: decrementing a dense iterator never reached label
 0 of the root

The position 0 was reported as out of bound although it is a set bit.
---
 include/louds_dense.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 19c2b52..3b18e6c 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -403,7 +403,7 @@ position_t LoudsDense::getNextPos(const position_t pos) const {
 
 position_t LoudsDense::getPrevPos(const position_t pos, bool* is_out_of_bound) const {
     position_t distance = label_bitmaps_->distanceToPrevSetBit(pos);
-    if (pos <= distance) {
+    if ((distance == 0) || (pos < distance)) {
 	*is_out_of_bound = true;
 	return 0;
     }
-- 
2.43.0


From d74bf8fb96abdf5be3ab25aee4d154a1fe4ec497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 09/30] fix: label vectors allocated quadratic memory, or too
 little

The size num_bytes * (num_bytes / 64 + 1) wraps around in 32 bits for large
tries, overflowing the heap; small and deserialised vectors had no room for
the 16-byte loads of simdSearch.
---
 include/label_vector.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/label_vector.hpp b/include/label_vector.hpp
index 9582a46..4c716d1 100644
--- a/include/label_vector.hpp
+++ b/include/label_vector.hpp
@@ -23,11 +23,7 @@ public:
 	for (level_t level = start_level; level < end_level; level++)
 	    num_bytes_ += labels_per_level[level].size();
 
-	//labels_ = new label_t[num_bytes_];
-	position_t alloc_bytes = num_bytes_ * (num_bytes_ / kWordSize + 1);
-	labels_ = new label_t[alloc_bytes];
-	for (position_t i = 0; i < alloc_bytes; i++)
-	  labels_[i] = 0;
+	allocLabels();
 
 	position_t pos = 0;
 	for (level_t level = start_level; level < end_level; level++) {
@@ -85,7 +81,7 @@ public:
 	memcpy(&(lv->num_bytes_), src, sizeof(lv->num_bytes_));
 	src += sizeof(lv->num_bytes_);
 	
-	lv->labels_ = new label_t[lv->num_bytes_];
+	lv->allocLabels();
 	memcpy(lv->labels_, src, lv->num_bytes_);
 	src += lv->num_bytes_;
 	
@@ -99,6 +95,14 @@ public:
 	delete[] labels_;	
     }
 
+private:
+    // simdSearch loads 16 bytes at a time, starting at any label
+    void allocLabels() {
+	size_t alloc_bytes = (size_t)num_bytes_ + 16;
+	labels_ = new label_t[alloc_bytes];
+	memset(labels_, 0, alloc_bytes);
+    }
+
 private:
     position_t num_bytes_;
     label_t* labels_;
-- 
2.43.0


From 0757ced5e131bdf6cd8521720eae42e5e112ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 10/30] fix: filters built with include_dense = false

They answered every point query with true, had no first and last key, and
read past empty arrays in the constructor, when a seek or an increment left
the last key, and in approxCount.
---
 include/louds_dense.hpp | 22 +++++++++++++++++++---
 include/surf.hpp        |  4 +++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 3b18e6c..ea0cb5d 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -43,6 +43,9 @@ public:
 	std::string getKeyWithSuffix(unsigned* bitlen) const;
 	position_t getSendOutNodeNum() const { return send_out_node_num_; };
 
+	// For a trie without louds-dense levels: iteration takes place
+	// in louds-sparse, starting at the root.
+	void setToEmptyPrefix();
 	void setToFirstLabelInRoot();
 	void setToLastLabelInRoot();
 	void moveToLeftMostKey();
@@ -185,7 +188,7 @@ LoudsDense::LoudsDense(const SuRFBuilder* builder) {
 						  builder->getPrefixkeyIndicatorBits(),
 						  builder->getNodeCounts(), 0, height_);
 
-    if (builder->getSuffixType() == kNone) {
+    if (builder->getSuffixType() == kNone || height_ == 0) {
 	suffixes_ = new BitvectorSuffix();
     } else {
 	level_t hash_suffix_len = builder->getHashSuffixLen();
@@ -299,6 +302,7 @@ uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
 				 const LoudsDense::Iter* iter_right,
 				 position_t& out_node_num_left,
 				 position_t& out_node_num_right) const {
+    if (height_ == 0) return 0; // louds-sparse starts at the root
     std::vector<position_t> left_pos_list, right_pos_list;
     for (level_t i = 0; i < iter_left->key_len_; i++)
 	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
@@ -513,6 +517,12 @@ void LoudsDense::Iter::setFlags(const bool is_valid,
     is_move_right_complete_ = is_move_right_complete;
 }
 
+void LoudsDense::Iter::setToEmptyPrefix() {
+    assert(trie_->getHeight() == 0);
+    // valid, search complete, moveLeft INCOMPLETE, moveRight INCOMPLETE
+    setFlags(true, true, false, false);
+}
+
 void LoudsDense::Iter::setToFirstLabelInRoot() {
     if (trie_->label_bitmaps_->readBit(0)) {
 	pos_in_trie_[0] = 0;
@@ -595,7 +605,10 @@ void LoudsDense::Iter::moveToRightMostKey() {
 }
 
 void LoudsDense::Iter::operator ++(int) {
-    assert(key_len_ > 0);
+    if (key_len_ == 0) { // no louds-dense levels
+	is_valid_ = false;
+	return;
+    }
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
 	return moveToLeftMostKey();
@@ -617,7 +630,10 @@ void LoudsDense::Iter::operator ++(int) {
 }
 
 void LoudsDense::Iter::operator --(int) {
-    assert(key_len_ > 0);
+    if (key_len_ == 0) { // no louds-dense levels
+	is_valid_ = false;
+	return;
+    }
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
 	key_len_--;
diff --git a/include/surf.hpp b/include/surf.hpp
index 0281cbe..0d672ec 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -144,7 +144,7 @@ bool SuRF::lookupKey(const std::string& key) const {
     position_t connect_node_num = 0;
     if (!louds_dense_->lookupKey(key, connect_node_num))
 	return false;
-    else if (connect_node_num != 0)
+    else if (connect_node_num != 0 || louds_dense_->getHeight() == 0)
 	return louds_sparse_->lookupKey(key, connect_node_num);
     return true;
 }
@@ -198,6 +198,7 @@ SuRF::Iter SuRF::moveToFirst() const {
 	iter.passToSparse();
 	iter.sparse_iter_.moveToLeftMostKey();
     } else {
+	iter.dense_iter_.setToEmptyPrefix();
 	iter.sparse_iter_.setToFirstLabelInRoot();
 	iter.sparse_iter_.moveToLeftMostKey();
     }
@@ -214,6 +215,7 @@ SuRF::Iter SuRF::moveToLast() const {
 	iter.passToSparse();
 	iter.sparse_iter_.moveToRightMostKey();
     } else {
+	iter.dense_iter_.setToEmptyPrefix();
 	iter.sparse_iter_.setToLastLabelInRoot();
 	iter.sparse_iter_.moveToRightMostKey();
     }
-- 
2.43.0


From 3dbb1faeae87dc887b6bc20b7067ad63654a7808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 11/30] fix: seeking to a key that ends inside louds-dense

The iterator was marked complete although its key goes on in louds-sparse,
an exact match was reported as possible false positive and kept even if not
inclusive, and the empty key was out of range.
---
 include/louds_dense.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index ea0cb5d..2552b45 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -240,14 +240,17 @@ bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
 	// if is_at_prefix_key_, pos is at the next valid position in the child node
 	pos = node_num * kNodeFanout;
 	if (level >= key.length()) { // if run out of searchKey bytes
-	    iter.append(getNextPos(pos - 1));
-	    if (prefixkey_indicator_bits_->readBit(node_num)) //if the prefix is also a key
+	    iter.append(label_bitmaps_->readBit(pos) ? pos : getNextPos(pos));
+	    if (prefixkey_indicator_bits_->readBit(node_num)) { //if the prefix is also a key
 		iter.is_at_prefix_key_ = true;
-	    else
+		// valid, search complete, moveLeft complete, moveRight complete
+		iter.setFlags(true, true, true, true);
+		if (!inclusive)
+		    iter++;
+	    } else {
 		iter.moveToLeftMostKey();
-	    // valid, search complete, moveLeft complete, moveRight complete
-	    iter.setFlags(true, true, true, true); 
-	    return true;
+	    }
+	    return false;
 	}
 
 	pos += (label_t)key[level];
-- 
2.43.0


From 25663e59452994ae8c312e993fdc5e792a025357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 12/30] fix: seeks flagged a key as possible false positive
 when its suffix is greater

The stored suffix bits then prove the key to be greater than the one sought.
---
 include/louds_dense.hpp  | 2 +-
 include/louds_sparse.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 2552b45..3e2f9b3 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -429,7 +429,7 @@ bool LoudsDense::compareSuffixGreaterThan(const position_t pos, const std::strin
     }
     // valid, search complete, moveLeft complete, moveRight complete
     iter.setFlags(true, true, true, true);
-    return true;
+    return (compare == kCouldBePositive);
 }
 
 //============================================================================
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index a7d8863..b739d84 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -474,7 +474,7 @@ bool LoudsSparse::compareSuffixGreaterThan(const position_t pos, const std::stri
 	return false;
     }
     iter.is_valid_ = true;
-    return true;
+    return (compare == kCouldBePositive);
 }
 
 //============================================================================
-- 
2.43.0


From 0258099e61b5026146a3a5a813cb3aa31f652cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 13/30] fix: range queries missed keys because of how real
 suffixes were compared

A stored key too short for its suffix field counted as less than the query
(wrong if the field is longer than a byte), and a query too short to fill
the field counted as if it were followed by nothing but zero bits even if
its remaining bytes are greater than the stored ones.
---
 include/suffix.hpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index e706f70..14df3c8 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -254,19 +254,31 @@ int BitvectorSuffix::compare(const position_t idx,
     if ((idx * getSuffixLen() >= num_bits_) || (type_ == kNone) || (type_ == kHash))
 	return kCouldBePositive;
 
-    word_t stored_suffix = read(idx);
-    word_t querying_suffix = constructRealSuffix(key, level, real_suffix_len_);
-    if (type_ == kMixed)
-        stored_suffix = extractRealSuffix(stored_suffix, real_suffix_len_);
-
-    if ((stored_suffix == 0) && (querying_suffix == 0))
+    word_t stored_suffix = readReal(idx);
+    // A cleared field tells nothing about the stored key, except that
+    // (for at most one suffix byte) it ends here or goes on with 0's.
+    if ((stored_suffix == 0) && (real_suffix_len_ > 8))
 	return kCouldBePositive;
-    else if ((stored_suffix == 0) || (stored_suffix < querying_suffix))
+
+    bool is_key_too_short = key.length() < level
+	|| ((key.length() - level) * 8) < real_suffix_len_;
+    word_t querying_suffix = 0;
+    if (is_key_too_short) { // pad with 0's
+	std::string padded_key(key);
+	padded_key.resize(level + (real_suffix_len_ + 7) / 8, '\0');
+	querying_suffix = constructRealSuffix(padded_key, level, real_suffix_len_);
+    } else {
+	querying_suffix = constructRealSuffix(key, level, real_suffix_len_);
+    }
+
+    if (stored_suffix < querying_suffix)
 	return -1;
-    else if (stored_suffix == querying_suffix) 
-	return kCouldBePositive;
-    else 
+    else if (stored_suffix > querying_suffix)
 	return 1;
+    else if (stored_suffix != 0 && is_key_too_short)
+	return 1; // the stored key has all suffix bits
+    else
+	return kCouldBePositive;
 }
 
 } // namespace surf
-- 
2.43.0


From a9e9d45f9044c59b7eb7189b64ef04e7426c2c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 14/30] fix: comparing an iterator at a prefix key looked at
 the length only

Any longer key compared greater, whatever its bytes, so range queries
reported keys far outside the range. A length difference of 2018 bytes was
also confused with kCouldBePositive.
---
 include/louds_dense.hpp  | 6 +++---
 include/louds_sparse.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 3e2f9b3..f90b776 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -441,12 +441,12 @@ void LoudsDense::Iter::clear() {
 }
 
 int LoudsDense::Iter::compare(const std::string& key) const {
-    if (is_at_prefix_key_ && (key_len_ - 1) < key.length())
-	return -1;
     std::string iter_key = getKey();
     std::string key_dense = key.substr(0, iter_key.length());
     int compare = iter_key.compare(key_dense);
-    if (compare != 0) return compare;
+    if (compare != 0) return (compare < 0) ? -1 : 1;
+    if (is_at_prefix_key_ && iter_key.length() < key.length())
+	return -1;
     if (isComplete()) {
 	position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1], is_at_prefix_key_);
 	return trie_->suffixes_->compare(suffix_pos, key, key_len_);
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index b739d84..ae70e5e 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -486,14 +486,14 @@ void LoudsSparse::Iter::clear() {
 }
 
 int LoudsSparse::Iter::compare(const std::string& key) const {
-    if (is_at_terminator_ && (key_len_ - 1) < (key.length() - start_level_))
-	return -1;
     std::string iter_key = getKey();
     std::string key_sparse = key.substr(start_level_);
     std::string key_sparse_same_length = key_sparse.substr(0, iter_key.length());
     int compare = iter_key.compare(key_sparse_same_length);
     if (compare != 0) 
-	return compare;
+	return (compare < 0) ? -1 : 1;
+    if (is_at_terminator_ && iter_key.length() < key_sparse.length())
+	return -1;
     position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1]);
     return trie_->suffixes_->compare(suffix_pos, key_sparse, key_len_);
 }
-- 
2.43.0


From af55f578493fa28d0967b9cf1588f0000d7a0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 15/30] fix: concurrent range queries and counts raced on
 iterators in the filter

lookupRange and approxCount kept their iterators in members, so two threads
querying one filter (as bench/workload_multi_thread does) corrupted each
other's search.
---
 include/surf.hpp | 41 +++++++++++------------------------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 0d672ec..46c8fc1 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -15,7 +15,7 @@ class SuRF {
 public:
     class Iter {
     public:
-	Iter() {};
+	Iter() : could_be_fp_(false) {};
 	Iter(const SuRF* filter) {
 	    dense_iter_ = LoudsDense::Iter(filter->louds_dense_);
 	    sparse_iter_ = LoudsSparse::Iter(filter->louds_sparse_);
@@ -110,7 +110,6 @@ public:
 	SuRF* surf = new SuRF();
 	surf->louds_dense_ = LoudsDense::deSerialize(src);
 	surf->louds_sparse_ = LoudsSparse::deSerialize(src);
-	surf->iter_ = SuRF::Iter(surf);
 	return surf;
     }
 
@@ -123,8 +122,6 @@ private:
     LoudsDense* louds_dense_;
     LoudsSparse* louds_sparse_;
     SuRFBuilder* builder_;
-    SuRF::Iter iter_;
-    SuRF::Iter iter2_;
 };
 
 void SuRF::create(const std::vector<std::string>& keys, 
@@ -136,7 +133,6 @@ void SuRF::create(const std::vector<std::string>& keys,
     builder_->build(keys);
     louds_dense_ = new LoudsDense(builder_);
     louds_sparse_ = new LoudsSparse(builder_);
-    iter_ = SuRF::Iter(this);
     delete builder_;
 }
 
@@ -224,23 +220,9 @@ SuRF::Iter SuRF::moveToLast() const {
 
 bool SuRF::lookupRange(const std::string& left_key, const bool left_inclusive, 
 		       const std::string& right_key, const bool right_inclusive) {
-    iter_.clear();
-    louds_dense_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.dense_iter_);
-    if (!iter_.dense_iter_.isValid()) return false;
-    if (!iter_.dense_iter_.isComplete()) {
-	if (!iter_.dense_iter_.isSearchComplete()) {
-	    iter_.passToSparse();
-	    louds_sparse_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.sparse_iter_);
-	    if (!iter_.sparse_iter_.isValid()) {
-		iter_.incrementDenseIter();
-	    }
-	} else if (!iter_.dense_iter_.isMoveLeftComplete()) {
-	    iter_.passToSparse();
-	    iter_.sparse_iter_.moveToLeftMostKey();
-	}
-    }
-    if (!iter_.isValid()) return false;
-    int compare = iter_.compare(right_key);
+    SuRF::Iter iter = moveToKeyGreaterThan(left_key, left_inclusive);
+    if (!iter.isValid()) return false;
+    int compare = iter.compare(right_key);
     if (compare == kCouldBePositive)
 	return true;
     if (right_inclusive)
@@ -265,14 +247,13 @@ uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) {
 
 uint64_t SuRF::approxCount(const std::string& left_key,
 			   const std::string& right_key) {
-    iter_.clear(); iter2_.clear();
-    iter_ = moveToKeyGreaterThan(left_key, true);
-    if (!iter_.isValid()) return 0;
-    iter2_ = moveToKeyGreaterThan(right_key, true);
-    if (!iter2_.isValid())
-	iter2_ = moveToLast();
-
-    return approxCount(&iter_, &iter2_);
+    SuRF::Iter iter = moveToKeyGreaterThan(left_key, true);
+    if (!iter.isValid()) return 0;
+    SuRF::Iter iter2 = moveToKeyGreaterThan(right_key, true);
+    if (!iter2.isValid())
+	iter2 = moveToLast();
+
+    return approxCount(&iter, &iter2);
 }
 
 uint64_t SuRF::serializedSize() const {
-- 
2.43.0


From ae0dbca7de357ae8e2d66297929b998d03fdeed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 16/30] fix: destroy() leaked the objects below the filter

The dense level cuts, both trie encodings and all their vectors' objects
were never freed.
---
 include/louds_dense.hpp  | 5 +++++
 include/louds_sparse.hpp | 4 ++++
 include/surf.hpp         | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index f90b776..578584c 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -134,10 +134,15 @@ public:
     }
 
     void destroy() {
+	delete[] level_cuts_;
 	label_bitmaps_->destroy();
+	delete label_bitmaps_;
 	child_indicator_bitmaps_->destroy();
+	delete child_indicator_bitmaps_;
 	prefixkey_indicator_bits_->destroy();
+	delete prefixkey_indicator_bits_;
 	suffixes_->destroy();
+	delete suffixes_;
     }
 
 private:
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index ae70e5e..0498aa5 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -129,9 +129,13 @@ public:
     void destroy() {
 	delete[] level_cuts_;
 	labels_->destroy();
+	delete labels_;
 	child_indicator_bits_->destroy();
+	delete child_indicator_bits_;
 	louds_bits_->destroy();
+	delete louds_bits_;
 	suffixes_->destroy();
+	delete suffixes_;
     }
 
 private:
diff --git a/include/surf.hpp b/include/surf.hpp
index 46c8fc1..b31666c 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -115,7 +115,9 @@ public:
 
     void destroy() {
 	louds_dense_->destroy();
+	delete louds_dense_;
 	louds_sparse_->destroy();
+	delete louds_sparse_;
     }
 
 private:
-- 
2.43.0


From 380389e801bc1fa821dc5288601eb458988065e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 17/30] fix: serialize() left uninitialised heap bytes in the
 image

The alignment gaps exposed stale memory and made images of the same filter
differ.
---
 include/surf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index b31666c..1bc3241 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -98,7 +98,7 @@ public:
 
     char* serialize() const {
 	uint64_t size = serializedSize();
-	char* data = new char[size];
+	char* data = new char[size](); // the padding is 0
 	char* cur_data = data;
 	louds_dense_->serialize(cur_data);
 	louds_sparse_->serialize(cur_data);
-- 
2.43.0


From f103c39368e8efa5d6564172af5deb617962f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 18/30] fix: the benchmark filter interface truncated counts to
 bool

---
 bench/filter.hpp       | 2 +-
 bench/filter_bloom.hpp | 4 ++--
 bench/filter_surf.hpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bench/filter.hpp b/bench/filter.hpp
index e9fc8d6..28366e8 100644
--- a/bench/filter.hpp
+++ b/bench/filter.hpp
@@ -10,7 +10,7 @@ class Filter {
 public:
     virtual bool lookup(const std::string& key) = 0;
     virtual bool lookupRange(const std::string& left_key, const std::string& right_key) = 0;
-    virtual bool approxCount(const std::string& left_key, const std::string& right_key) = 0;
+    virtual uint64_t approxCount(const std::string& left_key, const std::string& right_key) = 0;
     virtual uint64_t getMemoryUsage() = 0;
 };
 
diff --git a/bench/filter_bloom.hpp b/bench/filter_bloom.hpp
index b36b737..0d33dd1 100644
--- a/bench/filter_bloom.hpp
+++ b/bench/filter_bloom.hpp
@@ -29,9 +29,9 @@ public:
 	return false;
     }
 
-    bool approxCount(const std::string& left_key, const std::string& right_key) {
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) {
 	std::cout << kRed << "A Bloom filter does not support approximate count queries\n" << kNoColor;
-	return false;
+	return 0;
     }
 
     uint64_t getMemoryUsage() {
diff --git a/bench/filter_surf.hpp b/bench/filter_surf.hpp
index 547d809..1e65e4f 100644
--- a/bench/filter_surf.hpp
+++ b/bench/filter_surf.hpp
@@ -33,7 +33,7 @@ public:
 	return filter_->lookupRange(left_key, true, right_key, true);
     }
 
-    bool approxCount(const std::string& left_key, const std::string& right_key) {
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) {
 	return filter_->approxCount(left_key, right_key);
     }
 
-- 
2.43.0


From 17054c7b58959dad190f28a6b3eeb944f00c5e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 19/30] fix: backward seeks ignored inclusive and stepped back
 twice or not at all

moveToKeyLessThan() did not look at inclusive, returned the last key when
the seek ran off the end although that may be right only by chance, and
called lookupKey() to decide on a second step back, which skipped a key
whenever the filter answered with a false positive.
---
 include/surf.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 1bc3241..d691dd9 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -173,16 +173,18 @@ SuRF::Iter SuRF::moveToKeyGreaterThan(const std::string& key, const bool inclusi
 }
 
 SuRF::Iter SuRF::moveToKeyLessThan(const std::string& key, const bool inclusive) const {
-    SuRF::Iter iter = moveToKeyGreaterThan(key, false);
-    if (!iter.isValid()) {
-	iter = moveToLast();
+    SuRF::Iter iter = moveToKeyGreaterThan(key, true);
+    if (!iter.isValid())
+	return moveToLast();
+    if (iter.getFpFlag())
+	return iter;
+    int compare = iter.compare(key);
+    if (inclusive && (compare == 0 || compare == kCouldBePositive)) {
+	// the end of a stored key that equals key
+	iter.could_be_fp_ = true;
 	return iter;
     }
-    if (!iter.getFpFlag()) {
-	iter--;
-	if (lookupKey(key))
-	    iter--;
-    }
+    iter--;
     return iter;
 }
 
-- 
2.43.0


From 423da45154de90baab9c2382ca556346ab98c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 20/30] fix: approximate counts were off by up to the size of
 the trie

The level-by-level subtraction mixed up the boundaries of the two iterators
in several ways: it compared positions with level_cuts_ of the wrong kind,
read positions left over from earlier moves of the louds-sparse iterator,
stopped at the first level that one side has no labels at, and wrapped
around below zero.  Count the keys before each iterator instead and
subtract once.
---
 include/louds_dense.hpp  | 122 +++++++++++--------------------------
 include/louds_sparse.hpp | 128 ++++++++-------------------------------
 2 files changed, 62 insertions(+), 188 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 578584c..b862c0d 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -154,8 +154,11 @@ private:
     bool compareSuffixGreaterThan(const position_t pos, const std::string& key, 
 				  const level_t level, const bool inclusive, 
 				  LoudsDense::Iter& iter) const;
-    void extendPosList(std::vector<position_t>& pos_list,
-		       position_t& out_node_num) const;
+    // Counts the keys in louds-dense that are less than the key iter stands
+    // at. out_node_num is set to the first node at the first louds-sparse
+    // level whose keys are all greater than that key.
+    uint64_t countLeafsBefore(const LoudsDense::Iter* iter,
+			      position_t& out_node_num) const;
 
 private:
     static const position_t kNodeFanout = 256;
@@ -279,98 +282,45 @@ bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
     return true;
 }
 
-void LoudsDense::extendPosList(std::vector<position_t>& pos_list,
-			       position_t& out_node_num) const {
-    position_t node_num = 0;
-    position_t pos = pos_list[pos_list.size() - 1];
-    for (level_t i = pos_list.size(); i < height_; i++) {
-	node_num = getChildNodeNum(pos);
-	if (!child_indicator_bitmaps_->readBit(pos))
-	    node_num++;
-	pos = (node_num * kNodeFanout);
-	if (pos > level_cuts_[i]) {
-	    pos = kMaxPos;
-	    pos_list.push_back(pos);
-	    break;
+uint64_t LoudsDense::countLeafsBefore(const LoudsDense::Iter* iter,
+				      position_t& out_node_num) const {
+    uint64_t count = 0;
+    for (level_t i = 0; i < height_; i++) {
+	// first label at level i that is not before iter
+	position_t pos = out_node_num * kNodeFanout;
+	// number of nodes with all their labels or a label at or after pos
+	position_t num_nodes = out_node_num;
+	if (i < iter->key_len_) {
+	    pos = iter->pos_in_trie_[i];
+	    num_nodes = pos / kNodeFanout;
+	    if (i == iter->key_len_ - 1 && iter->is_at_prefix_key_)
+		pos = num_nodes * kNodeFanout;
+	    else
+		num_nodes++;
 	}
-	pos_list.push_back(pos);
-    }
-    if (pos == kMaxPos) {
-	for (level_t i = pos_list.size(); i < height_; i++)
-	    pos_list.push_back(pos);
-	out_node_num = pos;
-    } else {
-	out_node_num = getChildNodeNum(pos);
-	if (!child_indicator_bitmaps_->readBit(pos))
-	    out_node_num++;
+	position_t num_children = 0;
+	if (pos > 0) {
+	    num_children = child_indicator_bitmaps_->rank(pos - 1);
+	    count += (label_bitmaps_->rank(pos - 1) - num_children);
+	}
+	if (num_nodes > 0)
+	    count += prefixkey_indicator_bits_->rank(num_nodes - 1);
+	out_node_num = num_children + 1;
     }
+    return count;
 }
 
 uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
 				 const LoudsDense::Iter* iter_right,
 				 position_t& out_node_num_left,
 				 position_t& out_node_num_right) const {
-    if (height_ == 0) return 0; // louds-sparse starts at the root
-    std::vector<position_t> left_pos_list, right_pos_list;
-    for (level_t i = 0; i < iter_left->key_len_; i++)
-	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
-    level_t ori_left_len = left_pos_list.size();
-    extendPosList(left_pos_list, out_node_num_left);
-    
-    for (level_t i = 0; i < iter_right->key_len_; i++)
-	right_pos_list.push_back(iter_right->pos_in_trie_[i]);
-    level_t ori_right_len = right_pos_list.size();
-    extendPosList(right_pos_list, out_node_num_right);
-
-    uint64_t count = 0;
-    for (level_t i = 0; i < height_; i++) {
-	position_t left_pos = left_pos_list[i];
-	if (left_pos == kMaxPos) break;
-	if (i == (ori_left_len - 1) && iter_left->is_at_prefix_key_)
-	    left_pos = (left_pos / kNodeFanout) * kNodeFanout;
-	position_t right_pos = right_pos_list[i];
-	if (right_pos == kMaxPos)
-	    right_pos = level_cuts_[i];
-	if (i == (ori_right_len - 1) && iter_right->is_at_prefix_key_)
-	    right_pos = (right_pos / kNodeFanout) * kNodeFanout;
-	//assert(left_pos <= right_pos);
-	if (left_pos < right_pos) {
-	    if (i >= ori_left_len)
-		left_pos = getNextPos(left_pos);
-	    if (i >= ori_right_len && right_pos != level_cuts_[height_ - 1])
-		right_pos = getNextPos(right_pos);
-	    bool has_prefix_key_left
-		= prefixkey_indicator_bits_->readBit(left_pos / kNodeFanout);
-	    bool has_prefix_key_right
-		= prefixkey_indicator_bits_->readBit(right_pos / kNodeFanout);
-	    position_t rank_left_label = label_bitmaps_->rank(left_pos);
-	    position_t rank_right_label = label_bitmaps_->rank(right_pos);
-	    if (right_pos == level_cuts_[height_ - 1])
-		rank_right_label++;
-	    position_t rank_left_ind = child_indicator_bitmaps_->rank(left_pos);
-	    position_t rank_right_ind = child_indicator_bitmaps_->rank(right_pos);
-	    position_t rank_left_prefix
-		= prefixkey_indicator_bits_->rank(left_pos / kNodeFanout);
-	    position_t rank_right_prefix
-		= prefixkey_indicator_bits_->rank(right_pos / kNodeFanout);
-	    position_t num_leafs = (rank_right_label - rank_left_label)
-		- (rank_right_ind - rank_left_ind)
-		+ (rank_right_prefix - rank_left_prefix);
-	    // offcount in child_indicators
-	    if (child_indicator_bitmaps_->readBit(right_pos))
-		num_leafs++;
-	    if (child_indicator_bitmaps_->readBit(left_pos))
-		num_leafs--;
-	    // offcount in prefix keys
-	    if (i >= ori_right_len && has_prefix_key_right)
-		num_leafs--;
-	    if (i >= ori_left_len && has_prefix_key_left)
-		num_leafs++;
-	    if (iter_left->is_search_complete_ && (i == ori_left_len - 1))
-		num_leafs--;
-	    count += num_leafs;
-	}
-    }
+    uint64_t count_left = countLeafsBefore(iter_left, out_node_num_left);
+    uint64_t count_right = countLeafsBefore(iter_right, out_node_num_right);
+    if (count_left >= count_right) return 0;
+    uint64_t count = count_right - count_left;
+    // do not count the key iter_left stands at
+    if (iter_left->isComplete())
+	count--;
     return count;
 }
 
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 0498aa5..ac3b1c1 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -153,13 +153,11 @@ private:
 				  const level_t level, const bool inclusive, 
 				  LoudsSparse::Iter& iter) const;
 
-    position_t appendToPosList(std::vector<position_t>& pos_list,
-			       const position_t node_num, const level_t level,
-			       const bool isLeft, bool& done) const;
-    void extendPosList(std::vector<position_t>& left_pos_list,
-		       std::vector<position_t>& right_pos_list,
-		       const position_t left_in_node_num,
-		       const position_t right_in_node_num) const;
+    // Counts the keys in louds-sparse that are less than the key iter stands
+    // at. If that key ends in louds-dense, node_num is the first node at the
+    // first louds-sparse level that comes after it.
+    uint64_t countLeafsBefore(const LoudsSparse::Iter* iter,
+			      position_t node_num) const;
 
 private:
     static const position_t kRankBasicBlockSize = 512;
@@ -301,108 +299,34 @@ bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
     return true;
 }
 
-position_t LoudsSparse::appendToPosList(std::vector<position_t>& pos_list,
-					const position_t node_num,
-					const level_t level,
-					const bool isLeft, bool& done) const {
-    position_t pos = getFirstLabelPos(node_num);
-    if (pos > level_cuts_[start_level_ + level]) {
-	pos = kMaxPos;
-	if (isLeft) {
-	    pos_list.push_back(pos);
-	} else {
-	    for (level_t j = 0; j < (height_ - level) - 1; j++)
-		pos_list.push_back(pos);
-	}
-	done = true;
-    }
-    pos_list.push_back(pos);
-    return pos;
-}
-
-void LoudsSparse::extendPosList(std::vector<position_t>& left_pos_list,
-				std::vector<position_t>& right_pos_list,
-				const position_t left_in_node_num,
-				const position_t right_in_node_num) const {
-    position_t left_node_num = 0, right_node_num = 0, left_pos = 0, right_pos = 0;
-    bool left_done = false, right_done = false;
-    level_t start_depth = left_pos_list.size();
-    if (start_depth > right_pos_list.size())
-	start_depth = right_pos_list.size();
-    if (start_depth == 0) {
-	if (left_pos_list.size() == 0)
-	    left_pos = appendToPosList(left_pos_list, left_in_node_num,
-				       0, true, left_done);
-	if (right_pos_list.size() == 0)
-	    right_pos = appendToPosList(right_pos_list, right_in_node_num,
-					0, false, right_done);
-	start_depth++;
-    }
-
-    left_pos = left_pos_list[left_pos_list.size() - 1];
-    right_pos = right_pos_list[right_pos_list.size() - 1];
-    for (level_t i = start_depth; i < (height_ - start_level_); i++) {
-	if (left_pos == right_pos) break;
-	if (!left_done && left_pos_list.size() <= i) {
-	    left_node_num = getChildNodeNum(left_pos);
-	    if (!child_indicator_bits_->readBit(left_pos))
-		left_node_num++;
-	    left_pos = appendToPosList(left_pos_list, left_node_num,
-				       i, true, left_done);
-	}
-	if (!right_done && right_pos_list.size() <= i) {
-	    right_node_num = getChildNodeNum(right_pos);
-	    if (!child_indicator_bits_->readBit(right_pos))
-		right_node_num++;
-	    right_pos = appendToPosList(right_pos_list, right_node_num,
-					i, false, right_done);
-	}
+uint64_t LoudsSparse::countLeafsBefore(const LoudsSparse::Iter* iter,
+				       position_t node_num) const {
+    uint64_t count = 0;
+    for (level_t i = 0; i < (height_ - start_level_); i++) {
+	// first label at the level that is not before iter
+	position_t pos;
+	if (iter->is_valid_ && i < iter->key_len_)
+	    pos = iter->pos_in_trie_[i];
+	else
+	    pos = getFirstLabelPos(node_num);
+	position_t num_children = (pos > 0) ? child_indicator_bits_->rank(pos - 1) : 0;
+	count += (pos - num_children);
+	node_num = child_count_dense_ + num_children + 1;
     }
+    return count;
 }
 
 uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
 				  const LoudsSparse::Iter* iter_right,
 				  const position_t in_node_num_left,
 				  const position_t in_node_num_right) const {
-    if (in_node_num_left == kMaxPos) return 0;
-    if (start_level_ == height_) return 0;
-    std::vector<position_t> left_pos_list, right_pos_list;
-    for (level_t i = 0; i < iter_left->key_len_; i++)
-	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
-    level_t ori_left_len = left_pos_list.size();
-    if (in_node_num_right == kMaxPos) {
-	for (level_t i = 0; i < (height_ - start_level_); i++)
-	    right_pos_list.push_back(kMaxPos);
-    } else {
-	for (level_t i = 0; i < iter_right->key_len_; i++)
-	    right_pos_list.push_back(iter_right->pos_in_trie_[i]);
-    }
-    extendPosList(left_pos_list, right_pos_list, in_node_num_left, in_node_num_right);
-
-    uint64_t count = 0;
-    level_t search_depth = left_pos_list.size();
-    if (search_depth > right_pos_list.size())
-	search_depth = right_pos_list.size();
-    for (level_t i = 0; i < search_depth; i++) {
-	position_t left_pos = left_pos_list[i];
-	if (left_pos == kMaxPos) break;
-	position_t right_pos = right_pos_list[i];
-	if (right_pos == kMaxPos)
-	    right_pos = level_cuts_[start_level_ + i] + 1;
-	//assert(left_pos <= right_pos);
-	if (left_pos < right_pos) {
-	    position_t rank_left = child_indicator_bits_->rank(left_pos);
-	    position_t rank_right = child_indicator_bits_->rank(right_pos);
-	    position_t num_leafs = (right_pos - left_pos) - (rank_right - rank_left);
-	    if (child_indicator_bits_->readBit(right_pos))
-		num_leafs++;
-	    if (child_indicator_bits_->readBit(left_pos))
-		num_leafs--;
-	    if (i == ori_left_len - 1)
-		num_leafs--;
-	    count += num_leafs;
-	}
-    }
+    uint64_t count_left = countLeafsBefore(iter_left, in_node_num_left);
+    uint64_t count_right = countLeafsBefore(iter_right, in_node_num_right);
+    if (count_left >= count_right) return 0;
+    uint64_t count = count_right - count_left;
+    // do not count the key iter_left stands at
+    if (iter_left->is_valid_)
+	count--;
     return count;
 }
 
-- 
2.43.0


From 416021d21234cc0d16d23d506b464d7c0046f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 21/30] fix: seeks in a node with a terminator ran into the
 next node

A failed label search leaves pos behind the terminator.  The sparse
moveToKeyGreaterThan took that for the start of the node and treated the
first label of the next node as part of it.
---
 include/louds_sparse.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index ac3b1c1..516a0ec 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -263,8 +263,9 @@ bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
     for (level = start_level_; level < key.length(); level++) {
 	position_t node_size = nodeSize(pos);
 	// if no exact match
+	position_t node_pos = pos; // a failed search may move pos
 	if (!labels_->search((label_t)key[level], pos, node_size)) {
-	    moveToLeftInNextSubtrie(pos, node_size, key[level], iter);
+	    moveToLeftInNextSubtrie(node_pos, node_size, key[level], iter);
 	    return false;
 	}
 
@@ -382,9 +383,10 @@ bool LoudsSparse::isEndofNode(const position_t pos) const {
 
 void LoudsSparse::moveToLeftInNextSubtrie(position_t pos, const position_t node_size, 
 					  const label_t label, LoudsSparse::Iter& iter) const {
+    position_t node_pos = pos; // a failed search may move pos
     // if no label is greater than key[level] in this node
     if (!labels_->searchGreaterThan(label, pos, node_size)) {
-	iter.append(pos + node_size - 1);
+	iter.append(node_pos + node_size - 1);
 	return iter++;
     } else {
 	iter.append(pos);
-- 
2.43.0


From c8d825b965c0d0ed0c98e1783eecac77ead386e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 22/30] fix: LoudsSparse::getMemoryUsage() counted a pointer
 instead of the object

---
 include/louds_sparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 516a0ec..4d32783 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -345,7 +345,7 @@ uint64_t LoudsSparse::serializedSize() const {
 }
 
 uint64_t LoudsSparse::getMemoryUsage() const {
-    return (sizeof(this)
+    return (sizeof(LoudsSparse)
 	    + labels_->size()
 	    + child_indicator_bits_->size()
 	    + louds_bits_->size()
-- 
2.43.0


From 6d363f6091dcb08e9ec239d994240aa919c46b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 23/30] fix: the benchmark key loaders appended a record at the
 end of the file

The last, failed extraction was pushed as a key: a duplicate of the last
e-mail, or an indeterminate integer.
---
 bench/bench.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/bench/bench.hpp b/bench/bench.hpp
index f2c84a8..6c02fc8 100644
--- a/bench/bench.hpp
+++ b/bench/bench.hpp
@@ -57,16 +57,14 @@ void loadKeysFromFile(const std::string& file_name, const bool is_key_int,
     std::string key;
     uint64_t count = 0;
     if (is_key_int) {
-	while (count < kNumIntRecords && infile.good()) {
-	    uint64_t int_key;
-	    infile >> int_key;
+	uint64_t int_key;
+	while (count < kNumIntRecords && infile >> int_key) {
 	    key = uint64ToString(int_key);
 	    keys.push_back(key);
 	    count++;
 	}
     } else {
-	while (count < kNumEmailRecords && infile.good()) {
-	    infile >> key;
+	while (count < kNumEmailRecords && infile >> key) {
 	    keys.push_back(key);
 	    count++;
 	}
@@ -77,9 +75,8 @@ void loadKeysFromFile(const std::string& file_name, uint64_t num_records,
 		      std::vector<uint64_t> &keys) {
     std::ifstream infile(file_name);
     uint64_t count = 0;
-    while (count < num_records && infile.good()) {
-	uint64_t key;
-	infile >> key;
+    uint64_t key;
+    while (count < num_records && infile >> key) {
 	keys.push_back(key);
 	count++;
     }
-- 
2.43.0


From 1adbac9b05d734a75c1172ca730d3948fa1276a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 24/30] fix: deleting a benchmark filter through its interface
 was undefined

FilterFactory::createFilter() hands out Filter*; without a virtual
destructor deleting it released nothing below it.
---
 bench/filter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bench/filter.hpp b/bench/filter.hpp
index 28366e8..64e37c7 100644
--- a/bench/filter.hpp
+++ b/bench/filter.hpp
@@ -8,6 +8,7 @@ namespace bench {
 
 class Filter {
 public:
+    virtual ~Filter() {}
     virtual bool lookup(const std::string& key) = 0;
     virtual bool lookupRange(const std::string& left_key, const std::string& right_key) = 0;
     virtual uint64_t approxCount(const std::string& left_key, const std::string& right_key) = 0;
-- 
2.43.0


From b3ed29862193935ce6877ad024eb70a1f60499ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 25/30] fix: the benchmark programs rejected workload type
 alterByte and took any other

---
 bench/workload.cpp              | 2 +-
 bench/workload_multi_thread.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/workload.cpp b/bench/workload.cpp
index 9b4e0f3..59b7dc0 100644
--- a/bench/workload.cpp
+++ b/bench/workload.cpp
@@ -41,7 +41,7 @@ int main(int argc, char *argv[]) {
     }
 
     if (workload_type.compare(std::string("mixed")) != 0
-	&& workload_type.compare(std::string("alterByte")) == 0) {
+	&& workload_type.compare(std::string("alterByte")) != 0) {
 	std::cout << bench::kRed << "WRONG workload type\n" << bench::kNoColor;
 	return -1;
     }
diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 29e02ff..47c20d7 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -85,7 +85,7 @@ int main(int argc, char *argv[]) {
     }
 
     if (workload_type.compare(std::string("mixed")) != 0
-	&& workload_type.compare(std::string("alterByte")) == 0) {
+	&& workload_type.compare(std::string("alterByte")) != 0) {
 	std::cout << bench::kRed << "WRONG workload type\n" << bench::kNoColor;
 	return -1;
     }
-- 
2.43.0


From 5bb223ee9f8fdde3b58e5c1776a63acb2a9fb311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 26/30] fix: the benchmark programs counted hits at the ends of
 a range as false positives

---
 bench/workload.cpp              | 8 ++++----
 bench/workload_multi_thread.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bench/workload.cpp b/bench/workload.cpp
index 59b7dc0..cdb52ab 100644
--- a/bench/workload.cpp
+++ b/bench/workload.cpp
@@ -186,9 +186,9 @@ int main(int argc, char *argv[]) {
 		if (key_type.compare(std::string("email")) == 0) {
 		    std::string ret_str = txn_keys[i];
 		    ret_str[ret_str.size() - 1] += (char)bench::kEmailRangeSize;
-		    true_positives += (fetched_key.compare(ret_str) < 0);
+		    true_positives += (fetched_key.compare(ret_str) <= 0);
 		} else {
-		    true_positives += (fetched_key.compare(bench::uint64ToString(bench::stringToUint64(txn_keys[i]) + bench::kIntRangeSize)) < 0);
+		    true_positives += (fetched_key.compare(bench::uint64ToString(bench::stringToUint64(txn_keys[i]) + bench::kIntRangeSize)) <= 0);
 		}
 	    }
 	}
@@ -204,9 +204,9 @@ int main(int argc, char *argv[]) {
 		    if (key_type.compare(std::string("email")) == 0) {
 			std::string ret_str = txn_keys[i];
 			ret_str[ret_str.size() - 1] += (char)bench::kEmailRangeSize;
-			true_positives += (fetched_key.compare(ret_str) < 0);
+			true_positives += (fetched_key.compare(ret_str) <= 0);
 		    } else {
-			true_positives += (fetched_key.compare(bench::uint64ToString(bench::stringToUint64(txn_keys[i]) + bench::kIntRangeSize)) < 0);
+			true_positives += (fetched_key.compare(bench::uint64ToString(bench::stringToUint64(txn_keys[i]) + bench::kIntRangeSize)) <= 0);
 		    }
 		}	
 	    }
diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 47c20d7..c8cbaf6 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -222,10 +222,10 @@ int main(int argc, char *argv[]) {
 	}
     } else if (query_type.compare(std::string("range")) == 0) {
 	for (int i = 0; i < (int)txn_keys.size(); i++) {
-	    ht_iter = ht.upper_bound(txn_keys[i]);
+	    ht_iter = ht.lower_bound(txn_keys[i]);
 	    if (ht_iter != ht.end()) {
 		std::string fetched_key = ht_iter->first;
-		true_positives += (fetched_key.compare(upper_bound_keys[i]) < 0);
+		true_positives += (fetched_key.compare(upper_bound_keys[i]) <= 0);
 	    }
 	}
     }
-- 
2.43.0


From b4b387eaab9daf83a7c25e3b3a20e2027479c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 27/30] fix: the multi-threaded benchmark counted false
 positives as true negatives

---
 bench/workload_multi_thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index c8cbaf6..1f83a69 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -231,7 +231,7 @@ int main(int argc, char *argv[]) {
     }
     int64_t false_positives = positives - true_positives;
     assert(false_positives >= 0);
-    int64_t true_negatives = txn_keys.size() - true_positives;
+    int64_t true_negatives = txn_keys.size() - positives;
     double fp_rate = 0;
     if (false_positives > 0)
 	fp_rate = false_positives / (true_negatives + false_positives + 0.0);
-- 
2.43.0


From a79257e1fb4157c04ee0e196ae19d1f1dfa29eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 28/30] fix: the multi-threaded benchmark left out the last few
 transactions

---
 bench/workload_multi_thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 1f83a69..1cd02fe 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -167,7 +167,8 @@ int main(int argc, char *argv[]) {
 	thread_args[i].thread_id = i;
 	thread_args[i].filter = filter;
 	thread_args[i].start_pos = num_txns_per_thread * i;
-	thread_args[i].end_pos = num_txns_per_thread * (i + 1);
+	thread_args[i].end_pos = (i == num_threads - 1)
+	    ? num_txns : num_txns_per_thread * (i + 1);
 	if (query_type.compare(std::string("point")) == 0)
 	    thread_args[i].query_type = 0;
 	else
-- 
2.43.0


From 7667e81a0bb8488efaa80d875df41694c0c2ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:39 +0000
Subject: [PATCH 29/30] fix: selectLinear searched past the vector when it did
 not start at its first word

---
 include/popcount.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/popcount.h b/include/popcount.h
index 040aa65..040899e 100644
--- a/include/popcount.h
+++ b/include/popcount.h
@@ -177,12 +177,12 @@ inline uint64_t selectLinear(uint64_t* bits, uint64_t length, uint64_t x, uint64
         return -1;
     uint64_t i = 0;
     uint64_t pop = popcount(bits[x+i]);
-    while (k > pop && i < (length - 1)) {
+    while (k > pop && i < (length - x - 1)) {
         k -= pop;
         i++;
         pop = popcount(bits[x+i]);
     }
-    if ((i == length - 1) && (pop < k)) {
+    if ((i == length - x - 1) && (pop < k)) {
         return -1;
     }
     // We're now certain that the bit we want is stored in bits[x+i]
-- 
2.43.0


From c44eab2d24d1453154c1141731f8f37af889764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:39 +0000
Subject: [PATCH 30/30] fix: copying a default-constructed iterator copied
 uninitialised flags

---
 include/louds_dense.hpp  | 7 ++++++-
 include/louds_sparse.hpp | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index b862c0d..709c179 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -14,7 +14,12 @@ class LoudsDense {
 public:
     class Iter {
     public:
-	Iter() : is_valid_(false) {};
+	Iter() : is_valid_(false), is_search_complete_(false),
+		 is_move_left_complete_(false),
+		 is_move_right_complete_(false),
+		 trie_(nullptr),
+		 send_out_node_num_(0), key_len_(0),
+		 is_at_prefix_key_(false) {};
 	Iter(LoudsDense* trie) : is_valid_(false), is_search_complete_(false),
 				 is_move_left_complete_(false),
 				 is_move_right_complete_(false),
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 4d32783..f05e3c1 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -16,7 +16,8 @@ class LoudsSparse {
 public:
     class Iter {
     public:
-	Iter() : is_valid_(false) {};
+	Iter() : is_valid_(false), trie_(nullptr), start_level_(0), start_node_num_(0),
+		 key_len_(0), is_at_terminator_(false) {};
 	Iter(LoudsSparse* trie) : is_valid_(false), trie_(trie), start_node_num_(0), 
 				  key_len_(0), is_at_terminator_(false) {
 	    start_level_ = trie_->getStartLevel();
-- 
2.43.0

