From cb46049afeefc9c0f7a261ee3cc4db8554ec8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 01/72] fix: relative stream seek ignored pending seeks and the
 end of the stream

---
 tpie/stream_crtp.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 3edd784..1fece4e 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -54,10 +54,15 @@ public:
 			offset += self().size();
 		else if (whence == current) {
 			// are we seeking into the current block?
-			if (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index) {
+			// m_index is only meaningful if there is no pending cross-block seek.
+			if (m_nextBlock == std::numeric_limits<stream_size_type>::max()
+				&& (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index)) {
 				stream_size_type new_index = static_cast<stream_offset_type>(offset+m_index);
 
-				if (new_index < self().get_file().block_items()) {
+				// Forward seeks past the items known to be in the block are
+				// left to the range check below.
+				if (new_index < self().get_file().block_items()
+					&& (offset <= 0 || new_index <= self().get_block().size)) {
 					self().update_vars();
 					m_index = static_cast<memory_size_type>(new_index);
 					return;
-- 
2.43.0


From 0234280c1fb0ce7b3fc27ab4b3af14435824770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 02/72] fix: failed read at the end of a stream moved the
 stream

---
 tpie/file.h                | 3 ++-
 tpie/uncompressed_stream.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/file.h b/tpie/file.h
index 9ba4e10..ad4fefe 100644
--- a/tpie/file.h
+++ b/tpie/file.h
@@ -101,10 +101,11 @@ public:
  		inline item_type & read_mutable() {
 			assert(get_file().is_open());
 			if (m_index >= m_block->size) {
-				update_block();
+				// update_block moves the stream, so look for the end first
 				if (offset() >= get_file().size()) {
 					throw end_of_stream_exception();
 				}
+				update_block();
 			}
 			return reinterpret_cast<T*>(m_block->data)[m_index++];
 		}
diff --git a/tpie/uncompressed_stream.h b/tpie/uncompressed_stream.h
index 4c1bb82..71e6bf4 100644
--- a/tpie/uncompressed_stream.h
+++ b/tpie/uncompressed_stream.h
@@ -123,10 +123,11 @@ public:
 	const item_type & peek() {
 		assert(m_open);
 		if (m_index >= m_block.size) {
-			update_block();
+			// update_block moves the stream, so look for the end first
 			if (offset() >= size()) {
 				throw end_of_stream_exception();
 			}
+			update_block();
 		}
 		return reinterpret_cast<item_type*>(m_block.data)[m_index];
 	}
-- 
2.43.0


From 60d300bf13858515323a639de1faf545f1b9b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 03/72] fix: array read past the end of a stream inside its
 last block was not refused

---
 tpie/stream_crtp.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 1fece4e..14e5f63 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -171,16 +171,13 @@ protected:
 	static inline void read_array(Stream & stream, const IT & start, const IT & end) {
 		typedef typename Stream::item_type T;
 		IT i = start;
-		while (i != end) {
-			if (stream.m_index >= stream.block_items()) {
-				// check to make sure we have enough items in the stream
-				stream_size_type offs = stream.offset();
-				if (offs >= stream.size()
-					|| offs + (end-i) > stream.size()) {
 
-					throw end_of_stream_exception();
-				}
+		// check to make sure we have enough items in the stream
+		if (i != end && stream.offset() + (end-i) > stream.size())
+			throw end_of_stream_exception();
 
+		while (i != end) {
+			if (stream.m_index >= stream.block_items()) {
 				// fetch next block from disk
 				stream.update_block();
 			}
-- 
2.43.0


From 2348f8897644f79fad9630e8c4898c0b26f99c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 04/72] fix: packed_array with elements of 32 or 64 bits used a
 mask of the wrong width

---
 tpie/packed_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 567d806..f9750a0 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -125,7 +125,7 @@ private:
 	/// \brief Mask that will extract the lowest order logical element.
 	///////////////////////////////////////////////////////////////////////////
 	static storage_type mask() {
-		return (1 << B)-1;
+		return ~static_cast<storage_type>(0) >> (sizeof(storage_type) * 8 - B);
 	}
 
 	template <bool forward>
@@ -365,7 +365,7 @@ public:
 	void fill(T value) {
 		storage_type x=0;
 		for (size_t i=0; i < perword(); ++i) 
-			x = (x << B) + ((storage_type)value & mask());
+			x = ((x << (B-1)) << 1) + ((storage_type)value & mask());
 		for (size_t i=0; i < words(m_size); ++i)
 			m_elements[i] = x;		
 	}
-- 
2.43.0


From 598956d9e3200150c0b82bff57b3b0ae93f2018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 05/72] fix: packed_array iterators moved the wrong way when a
 distance was subtracted

---
 tpie/packed_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index f9750a0..6bacd90 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -64,7 +64,7 @@ public:
 	CT operator+(difference_type n) const {CT x=self(); return x += n;}
 	CT operator-(difference_type n) const {CT x=self(); return x -= n;}
 	CT & operator+=(difference_type n) {self().index() += (forward?n:-n); return self();}
-	CT & operator-=(difference_type n) {self().index() += (forward?n:-n); return self();}
+	CT & operator-=(difference_type n) {self().index() += (forward?-n:n); return self();}
 	RT operator[](difference_type n) {return *(self() + n);}
 };
 
-- 
2.43.0


From 2816f0dac26110eee8bbe70822d7bcfe9d864458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 06/72] fix: assigning one dereferenced packed_array iterator
 to another did not store the element

---
 tpie/packed_array.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 6bacd90..4c6bb26 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -153,6 +153,10 @@ private:
 			*p = (*p & ~(mask()<<i)) | ((b & mask()) << i);
 	 		return *this;
 		}
+		iter_return_type(const iter_return_type & o) = default;
+		iter_return_type & operator=(const iter_return_type & o) {
+			return *this = static_cast<T>(o);
+		}
 	};
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From 3827187b5dee90b976f3a6fe3e3c167f292a7492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 07/72] fix: assigning an array to itself destroyed its
 elements

---
 tpie/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/array.h b/tpie/array.h
index 5142951..70d281c 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -212,6 +212,7 @@ public:
 	/// \return A reference to this array.
 	///////////////////////////////////////////////////////////////////////////
 	array & operator=(const array & other) {
+		if (this == &other) return *this;
 		resize(other.size());
 		for (size_t i=0; i < size(); ++i) m_elements[i] = other[i];
 		return *this;
-- 
2.43.0


From ab200b71f2c8473720bff5f66daed0310c061728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 08/72] fix: std::copy on reversed array iterators treated them
 as forward iterators

---
 tpie/array.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 70d281c..1b4d656 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -714,11 +714,11 @@ void swap(tpie::array<T> & a, tpie::array<T> & b) {
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT1, bool forward1, typename TT2, bool forward2>
-tpie::array_iter_base<TT2, forward2>
-copy(tpie::array_iter_base<TT1, forward1> first,
-     tpie::array_iter_base<TT1, forward1> last,
-	 tpie::array_iter_base<TT2, forward2> d_first) {
+template <typename TT1, typename TT2>
+tpie::array_iter_base<TT2, true>
+copy(tpie::array_iter_base<TT1, true> first,
+     tpie::array_iter_base<TT1, true> last,
+	 tpie::array_iter_base<TT2, true> d_first) {
 
 	ptrdiff_t dist = copy(&*first, &*last, &*d_first) - &*d_first;
 	return d_first + dist;
@@ -727,10 +727,10 @@ copy(tpie::array_iter_base<TT1, forward1> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as input.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename OutputIterator>
+template <typename TT, typename OutputIterator>
 OutputIterator
-copy(tpie::array_iter_base<TT, forward> first,
-     tpie::array_iter_base<TT, forward> last,
+copy(tpie::array_iter_base<TT, true> first,
+     tpie::array_iter_base<TT, true> last,
 	 OutputIterator d_first) {
 
 	return copy(&*first, &*last, d_first);
@@ -739,11 +739,11 @@ copy(tpie::array_iter_base<TT, forward> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as output.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename InputIterator>
-tpie::array_iter_base<TT, forward>
+template <typename TT, typename InputIterator>
+tpie::array_iter_base<TT, true>
 copy(InputIterator first,
 	 InputIterator last,
-	 tpie::array_iter_base<TT, forward> d_first) {
+	 tpie::array_iter_base<TT, true> d_first) {
 
 	ptrdiff_t dist = copy(first, last, &*d_first) - &*d_first;
 	return d_first + dist;
-- 
2.43.0


From 94b7806b1355d60228a759e64ffffc8ac95f01dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 09/72] fix: tiny::multiset and tiny::multimap ignored the
 comparator when inserting

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 52f7c6e..8622866 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -106,8 +106,8 @@ struct MultiInsertHelp {
 		typedef iterator result;
 		
 		template <typename Comp>
-		static result handle(Inner & inner, const Comp &) {
-			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back());
+		static result handle(Inner & inner, const Comp & comp) {
+			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back(), comp);
 			std::rotate(y, inner.end()-1, inner.end());
 			return y;
 		}
-- 
2.43.0


From 544081b2b84192384d0e015a8252ee8dac541822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 10/72] fix: range erase in tiny containers returned begin()
 instead of the following element

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 8622866..6486990 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -316,8 +316,8 @@ public:
 	 */
 	iterator erase(iterator first, iterator last) {
 		std::rotate(first, last, inner.end());
-		inner.resize(size() - (last-first));
-		return begin();
+		inner.erase(inner.end() - (last-first), inner.end());
+		return first;
 	}
 
 	/**
-- 
2.43.0


From ae65f32cc7c13a0f05d50d58acb82e2b2128ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 11/72] fix: tiny::map and tiny::multimap converted lookup keys
 to the mapped type

---
 tpie/tiny.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 6486990..6ce72e9 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -701,7 +701,7 @@ template <typename Key,
 		  typename T,
 		  typename Comp=std::less<Key>,
 		  typename Alloc=std::allocator<std::pair<Key, T> > >
-using multimap = set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::MultiInsertHelp>;
+using multimap = set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::MultiInsertHelp>;
 
 /**
  * \brief A std::map compatible map, useful when we do not have many elements (less then 512)
@@ -710,9 +710,9 @@ template <typename Key,
 		  typename T,
 		  typename Comp=std::less<Key>,
 		  typename Alloc=std::allocator<std::pair<Key, T> >
-		  > class map: public set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> {
+		  > class map: public set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> {
 private:
-	typedef set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> P;
+	typedef set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> P;
 public:
 
 	map() {}
-- 
2.43.0


From b24776ce5101352ef2a7b11d4349bf448b33c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 12/72] fix: <= and > on tiny containers ignored the comparator

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 6ce72e9..2b3abbb 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -530,7 +530,7 @@ public:
 	 * less than or equal the contents of rhs, false otherwise.
 	 */
 	friend bool operator<=(const set_impl & lhs, const set_impl & rhs) {
-		return !std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end());
+		return !std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end(), lhs.comp);
 		
 	}
 
@@ -539,7 +539,7 @@ public:
 	 * greater than the contents of rhs, false otherwise.
 	 */
 	friend bool operator>(const set_impl & lhs, const set_impl & rhs) {
-		return std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end());
+		return std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end(), lhs.comp);
 	}
 
 	/**
-- 
2.43.0


From d0e73a6099b16cf5b509b3980d39f86017e6a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 13/72] fix: a request refused by a throwing resource manager
 must not count as usage

---
 tpie/resource_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/resource_manager.cpp b/tpie/resource_manager.cpp
index 49a54cd..832b73a 100644
--- a/tpie/resource_manager.cpp
+++ b/tpie/resource_manager.cpp
@@ -57,6 +57,8 @@ void resource_manager::register_increased_usage(size_t amount) {
 	case ENFORCE_THROW: {
 		size_t usage = m_used.fetch_add(amount) + amount;
 		if (usage > m_limit && m_limit > 0) {
+			// The request is refused, so it must not count as usage.
+			m_used.fetch_sub(amount);
 			std::stringstream ss;
 			print_resource_complaint(ss, amount, usage);
 			throw_out_of_resource_error(ss.str());
-- 
2.43.0


From 3d55a0b5a06e067dfd19065bad68bfcd88246cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 14/72] fix: do not examine the dynamic type of an object that
 was never constructed

---
 tpie/memory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 2f5a5d7..0f8851c 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -235,7 +235,8 @@ struct allocation_scope_magic {
 	}
 	
 	~allocation_scope_magic() {
-		tpie_deallocate(data);
+		// No object lives in data, so its dynamic type must not be examined.
+		if (data) delete[] (reinterpret_cast<uint8_t *>(data) - (std::is_polymorphic<T>::value ? sizeof(size_t) : 0));
 		if (deregister) get_memory_manager().register_deallocation(deregister, typeid(T));
 	}
 };
-- 
2.43.0


From 5b6b5097d9f9568a8ab1a4b53cb5c31dd2786a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 15/72] fix: tpie::allocator must not account for an allocation
 that failed

---
 tpie/memory.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 0f8851c..a7681ef 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -399,8 +399,14 @@ public:
 
     T * allocate(size_t size) {
 		get_memory_manager().register_allocation(size * sizeof(T), typeid(T));
+		T * res;
+		try {
+			res = a.allocate(size);
+		} catch (...) {
+			get_memory_manager().register_deallocation(size * sizeof(T), typeid(T));
+			throw;
+		}
 		if (bucket) bucket->count += size * sizeof(T);
-		T * res = a.allocate(size);
 		return res;
     }
 
-- 
2.43.0


From a79089d0ee71a142988888cd3576f90e59bd7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 16/72] fix: packed_array is empty, not dangling, after a
 failed resize

---
 tpie/packed_array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 4c6bb26..2ec33e4 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -357,8 +357,10 @@ public:
 	void resize(size_t s) {
 		if (s == m_size) return;
 		tpie_delete_array(m_elements, words(m_size));
+		m_elements = nullptr;
+		m_size = 0;
+		m_elements = s?tpie_new_array<storage_type>(words(s)):nullptr;
 		m_size = s;
-		m_elements = m_size?tpie_new_array<storage_type>(words(m_size)):nullptr;
 	}
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From f689638329c70057cf54b517550428d9dabc55c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 17/72] fix: array stays consistent when an allocation or an
 element constructor fails

---
 tpie/array.h | 74 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 10 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 1b4d656..83eabb4 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -491,9 +491,16 @@ public:
 	void resize(size_t size, const T & elm) {
 		if (size != m_size) {
 			destruct_and_dealloc();
+			m_elements = 0;
 			m_size = size;
 
-			alloc_fill(elm);
+			try {
+				alloc_fill(elm);
+			} catch (...) {
+				m_elements = 0;
+				m_size = 0;
+				throw;
+			}
 		} else {
 			std::fill(m_elements+0, m_elements+m_size, elm);
 		}
@@ -520,8 +527,15 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	void resize(size_t s) {
 		destruct_and_dealloc();
+		m_elements = 0;
 		m_size = s;
-		alloc_dfl();
+		try {
+			alloc_dfl();
+		} catch (...) {
+			m_elements = 0;
+			m_size = 0;
+			throw;
+		}
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -591,6 +605,13 @@ namespace bits {
 
 template <typename T>
 struct allocator_usage<T, allocator<T> > {
+	static void dealloc_unconstructed(array<T, allocator<T> > & host) {
+		if (host.m_allocator.bucket)
+			host.m_allocator.bucket->count -= sizeof(T) * host.m_size;
+
+		tpie_delete_array(reinterpret_cast<trivial_same_size<T>*>(host.m_elements), host.m_size);
+	}
+
 	static void alloc_copy(array<T, allocator<T> > & host, const T * copy_from) {
 		host.m_elements = host.m_size ? reinterpret_cast<T*>(tpie_new_array<trivial_same_size<T> >(host.m_size)) : 0;
 		host.m_tss_used = true;
@@ -598,7 +619,12 @@ struct allocator_usage<T, allocator<T> > {
 		if (host.m_allocator.bucket)
 			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
 			
-		std::uninitialized_copy(copy_from+0, copy_from+host.m_size, host.m_elements+0);
+		try {
+			std::uninitialized_copy(copy_from+0, copy_from+host.m_size, host.m_elements+0);
+		} catch (...) {
+			dealloc_unconstructed(host);
+			throw;
+		}
 	}
 
 	static void alloc_fill(array<T, allocator<T> > & host, const T & elm) {
@@ -609,7 +635,12 @@ struct allocator_usage<T, allocator<T> > {
 			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
 		
 		// call copy constructors manually
-		std::uninitialized_fill(host.m_elements+0, host.m_elements+host.m_size, elm);
+		try {
+			std::uninitialized_fill(host.m_elements+0, host.m_elements+host.m_size, elm);
+		} catch (...) {
+			dealloc_unconstructed(host);
+			throw;
+		}
 	}
 
 	static void alloc_dfl(array<T, allocator<T> > & host) {
@@ -640,24 +671,47 @@ struct allocator_usage<T, allocator<T> > {
 
 template <typename T, typename Allocator>
 struct allocator_usage {
+	static void dealloc_partial(array<T, Allocator> & host, size_t constructed) {
+		while (constructed > 0) host.m_allocator.destroy(host.m_elements+(--constructed));
+		host.m_allocator.deallocate(host.m_elements, host.m_size);
+	}
+
 	static void alloc_copy(array<T, Allocator> & host, const T * copy_from) {
 		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i, copy_from[i]);
+		size_t i = 0;
+		try {
+			for (; i < host.m_size; ++i) {
+				host.m_allocator.construct(host.m_elements+i, copy_from[i]);
+			}
+		} catch (...) {
+			dealloc_partial(host, i);
+			throw;
 		}
 	}
 
 	static void alloc_fill(array<T, Allocator> & host, const T & elm) {
 		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i, elm);
+		size_t i = 0;
+		try {
+			for (; i < host.m_size; ++i) {
+				host.m_allocator.construct(host.m_elements+i, elm);
+			}
+		} catch (...) {
+			dealloc_partial(host, i);
+			throw;
 		}
 	}
 
 	static void alloc_dfl(array<T, Allocator> & host) {
 		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i);
+		size_t i = 0;
+		try {
+			for (; i < host.m_size; ++i) {
+				host.m_allocator.construct(host.m_elements+i);
+			}
+		} catch (...) {
+			dealloc_partial(host, i);
+			throw;
 		}
 	}
 
-- 
2.43.0


From c597ae403950b38293f04f411533ec1d1658e262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 18/72] fix: splitting a b-tree node of odd maximum size left
 one half below the minimum size

---
 tpie/btree/btree.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/btree/btree.h b/tpie/btree/btree.h
index 293fe29..0c771ee 100644
--- a/tpie/btree/btree.h
+++ b/tpie/btree/btree.h
@@ -165,6 +165,10 @@ private:
 		tp_assert(m_state.store().count(left) == max_size(left), "Node not full");
 		
 		size_t left_size = max_size(left)/2;
+		const bool insert_left = index <= left_size;
+		// When the node size is odd the larger half must not also get the new
+		// child; the smaller half could end up below the minimum size.
+		if (!insert_left) left_size = max_size(left)-left_size;
 		size_t right_size = max_size(left)-left_size;
 		NT right = m_state.store().create(left);
 		for (size_t i=0; i < right_size; ++i)
@@ -172,7 +176,7 @@ private:
 		m_state.store().set_count(left, left_size);
 		m_state.store().set_count(right, right_size);
 
-		if (index <= left_size)
+		if (insert_left)
 			insert_part(left, c, index);
 		else
 			insert_part(right, c, index - left_size);
-- 
2.43.0


From 5310c8c52fefb780cd03c6b2508aa07baf8dabea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 19/72] fix: popping an empty queue must not make its size wrap
 around

---
 tpie/queue.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tpie/queue.h b/tpie/queue.h
index 3af8aee..88acd64 100644
--- a/tpie/queue.h
+++ b/tpie/queue.h
@@ -99,20 +99,25 @@ public:
 	/// \return The dequeued item
 	////////////////////////////////////////////////////////////////////
 	const T & pop() {
-		--m_size;
+		// The queue only shrinks if there is an item to return.
 		if(pop_queue().can_read()) {
 			// The front of the queue is the pop stream
-			return pop_queue().read();
+			const T & i = pop_queue().read();
+			--m_size;
+			return i;
 		} else if (!m_centerQueue.empty()) {
 			// The front of the queue is the center queue
 			const T & i = m_centerQueue.front();
 			m_centerQueue.pop();
+			--m_size;
 			return i;
 		} else {
 			// The front of the queue is the push stream,
 			// so we swap the push stream and the pop stream.
 			swap_file_streams();
-			return pop_queue().read();
+			const T & i = pop_queue().read();
+			--m_size;
+			return i;
 		}
 	}
 
-- 
2.43.0


From 2e7fef5d9e2a3f692d81a2287762a89d210ea308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 20/72] fix: file_stream::set_position within the buffered
 block must drop cached reads and writes

---
 tpie/compressed/stream_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index ee6a856..3618f9a 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1203,6 +1203,8 @@ void compressed_stream_base::set_position(const stream_position & pos) {
 	if (pos.offset() > size())
 		throw stream_exception("set_position: Invalid position, offset > size");
 	
+	m_p->uncache_read_writes();
+
 	if (m_p->m_buffer.get() != 0
 		&& m_p->block_number(pos.offset()) == m_p->buffer_block_number())
 	{
@@ -1221,7 +1223,6 @@ void compressed_stream_base::set_position(const stream_position & pos) {
 	
 	m_p->m_nextPosition = pos;
 	m_seekState = seek_state::position;
-	m_p->uncache_read_writes();
 }
 
 bool compressed_stream_base::is_readable() const noexcept { return m_p->m_canRead; }
-- 
2.43.0


From 944f28d8f400016f82b0d47848a5d006725d8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 21/72] fix: file_stream::read_back must drop cached writes

---
 tpie/compressed/stream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream.h b/tpie/compressed/stream.h
index e0bcf8c..15ad39e 100644
--- a/tpie/compressed/stream.h
+++ b/tpie/compressed/stream.h
@@ -474,6 +474,7 @@ public:
 	
 	const T & read_back() {
 		if (m_seekState != seek_state::none || m_nextItem == m_bufferBegin) read_back_unlikely();
+		m_cachedWrites = 0;
 		++m_cachedReads;
 		--m_offset;
 		m_nextItem -= sizeof(T);
-- 
2.43.0


From 9c21408514aa19fbf04515d324ae0b3ca2baf5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 22/72] fix: file_stream::get_position at a block boundary must
 record the read offset of the new block

---
 tpie/compressed/stream_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 3618f9a..dfef462 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1157,6 +1157,7 @@ stream_position compressed_stream_base::get_position() {
 			m_p->flush_block(lock);
 			m_p->get_buffer(lock, m_p->m_streamBlocks);
 			m_nextItem = m_bufferBegin;
+			m_p->m_readOffset = m_p->current_file_size(lock);
 		}
 		break;
 	case seek_state::end:
-- 
2.43.0


From 88aa025653a07fb3a405b1a131ec52f956a1996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 23/72] fix: file_stream::truncate(0) must forget block
 information after pending writes have finished

---
 tpie/compressed/stream_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index dfef462..e89bd8e 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -400,10 +400,10 @@ public:
 	void truncate_zero() {
 		// No need to flush block
 		m_buffer.reset();
-		m_response.clear_block_info();
 		m_updateReadOffsetFromWrite = false;
 		compressor_thread_lock l(compressor());
 		finish_requests(l);
+		m_response.clear_block_info();
 		get_buffer(l, 0);
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
-- 
2.43.0


From 45d9f84a2da576e034c3ea7f620f3bbc055d7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 24/72] fix: a file_stream with a block factor above 1 needs
 buffers that hold its blocks

---
 tpie/compressed/buffer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 2a97afe..bfac8cf 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -288,6 +288,7 @@ public:
 			}
 
 			b->reset();
+			ensure_capacity(b);
 			m_buffers.insert(std::make_pair(blockNumber, b));
 			clean();
 			return b;
@@ -334,6 +335,7 @@ public:
 			buffer_t result = target->second;
 			clean();
 			result->reset();
+			ensure_capacity(result);
 			return result;
 		}
 	}
@@ -363,6 +365,12 @@ public:
 	}
 
 private:
+	// The buffers in the pool hold a block of the default size;
+	// the blocks of this stream may be larger.
+	void ensure_capacity(buffer_t & b) {
+		if (b->capacity() < m_blockSize) b->set_capacity(m_blockSize);
+	}
+
 	memory_size_type own_buffers() {
 		return m_ownBuffers;
 	}
-- 
2.43.0


From 9efc99e6b0435c7a49506fa823bf55b20ab1f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 25/72] fix: reading past the end of a file must raise
 io_exception instead of looping forever

---
 tpie/file_accessor/posix.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 1c08c44..1a55076 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -75,6 +75,8 @@ inline void posix::read_i(void * data, memory_size_type size) {
 		memory_offset_type bytesRead = ::read(m_fd, data, size);
 		if (bytesRead == -1)
 			throw_errno();
+		if (bytesRead == 0 && size != 0)
+			throw io_exception("Unexpected end of file.");
 		data = static_cast<char *>(data) + bytesRead;
 		size -= bytesRead;
 		increment_bytes_read(bytesRead);
-- 
2.43.0


From b5643b24a8ac79ca46945b08fe3493f24f101e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 26/72] fix: a short block at the end of a block collection
 must be readable

---
 tpie/blocks/block_collection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tpie/blocks/block_collection.cpp b/tpie/blocks/block_collection.cpp
index 57896d2..b887389 100644
--- a/tpie/blocks/block_collection.cpp
+++ b/tpie/blocks/block_collection.cpp
@@ -76,6 +76,11 @@ void block_collection::write_block(block_handle handle, const block & b) {
 
 	m_accessor.seek_i(handle.position);
 	m_accessor.write_i(static_cast<const void*>(b.get()), b.size());
+
+	// The handle may be larger than the block.
+	// Make sure that all of it can be read back.
+	if(b.size() < handle.size && m_accessor.file_size_i() < handle.position + handle.size)
+		m_accessor.truncate_i(handle.position + handle.size);
 }
 
 } // namespace blocks
-- 
2.43.0


From e7b2979abfbfd86d28e64322fbe36ed2a7ba4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 27/72] fix: an empty serialized tree can be iterated after
 build and metadata can be read at any time

---
 tpie/btree/serialized_store.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 11568b7..bd162bf 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -574,6 +574,7 @@ private:
 			h.root = root_leaf->my_offset;
 		} else {
 			assert(m_size == 0);
+			root_leaf = leaf_type(0);
 		}
 		h.height = m_height;
 		h.size = m_size;
@@ -602,6 +603,7 @@ private:
 		if (metadata_offset == 0 || metadata_size == 0)
 			return {};
 		std::string data(metadata_size, '\0');
+		f->seekg(metadata_offset);
 		f->read(&data[0], metadata_size);
 		return data;
 	}
-- 
2.43.0


From 6bd87529fce0e94f22e666903f49a27bf1f5ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 28/72] Allow a smaller serialization stream block size for
 checking

Guarded by TPIE_SX_SERIALIZATION_BLOCK_SIZE; no change without it.
---
 tpie/serialization_stream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/serialization_stream.h b/tpie/serialization_stream.h
index f0674c9..af2f3d4 100644
--- a/tpie/serialization_stream.h
+++ b/tpie/serialization_stream.h
@@ -40,7 +40,11 @@ namespace bits {
 class TPIE_EXPORT serialization_writer_base {
 public:
 	static memory_size_type block_size() {
+#ifdef TPIE_SX_SERIALIZATION_BLOCK_SIZE
+		return TPIE_SX_SERIALIZATION_BLOCK_SIZE; // small blocks for exhaustive checking
+#else
 		return 2*1024*1024;
+#endif
 	}
 
 private:
-- 
2.43.0


From 2fe3ceff9eebee3e7ace5595e52f45655d4c6efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 29/72] fix: serialization readers advance to the next block
 only when it was read

A failed read (past the end, or an I/O error) moved the reader to the next
block all the same: offset() was wrong afterwards, and a block that could not
be read was taken as read.
---
 tpie/serialization_stream.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 128b292..fbf7ee3 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -326,11 +326,11 @@ void serialization_reader_base::read_block(const stream_size_type blk) {
 	stream_size_type from = blk * block_size();
 	stream_size_type to = std::min(from + block_size(), m_size);
 	if (to <= from) throw end_of_stream_exception();
-	m_index = 0;
-	m_blockSize = to-from;
 	m_fileAccessor.seek_i(bits::serialization_header::header_size()
 						  + from);
-	m_fileAccessor.read_i(m_block.get(), m_blockSize);
+	m_fileAccessor.read_i(m_block.get(), to-from);
+	m_index = 0;
+	m_blockSize = to-from;
 }
 
 void serialization_reader_base::close() {
@@ -351,12 +351,10 @@ stream_size_type serialization_reader_base::size() {
 } // namespace bits
 
 void serialization_reader::next_block() /*override*/ {
-	if (m_blockSize == 0) {
-		m_blockNumber = 0;
-	} else {
-		++m_blockNumber;
-	}
-	read_block(m_blockNumber);
+	// Only advance once the block has been read.
+	const stream_size_type next = (m_blockSize == 0) ? 0 : m_blockNumber + 1;
+	read_block(next);
+	m_blockNumber = next;
 }
 
 serialization_reader::serialization_reader()
@@ -383,8 +381,8 @@ stream_size_type serialization_reader::offset() {
 void serialization_reverse_reader::next_block() /*override*/ {
 	if (m_blockNumber == 0)
 		throw end_of_stream_exception();
+	read_block(m_blockNumber - 1);
 	--m_blockNumber;
-	read_block(m_blockNumber);
 	std::reverse(m_block.begin(), m_block.begin() + m_blockSize);
 }
 
-- 
2.43.0


From af62ed8da1c5b4b7650573220895bb89f10c2aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 30/72] fix: opening an open serialization writer writes out
 its last block

open() on a writer that was still open finished the old file without the
values buffered in memory.
---
 tpie/serialization_stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index fbf7ee3..67698b7 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -239,12 +239,14 @@ void serialization_writer::write_block() {
 }
 
 void serialization_writer::open(std::string path) {
+	close();
 	p_t::open(path, false);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, false);
 	m_block.resize(block_size());
 	m_index = 0;
@@ -274,12 +276,14 @@ void serialization_reverse_writer::write_block() {
 }
 
 void serialization_reverse_writer::open(std::string path) {
+	close();
 	p_t::open(path, true);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_reverse_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, true);
 	m_block.resize(block_size());
 	m_index = 0;
-- 
2.43.0


From 3d1523abeba7205a4b4612c9a3885f79833823f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 31/72] fix: a default-constructed file stream can be destroyed
 without being attached

The destructor tested an uninitialised block pointer.
---
 tpie/file_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/file_base.h b/tpie/file_base.h
index 59c0966..56d6c8d 100644
--- a/tpie/file_base.h
+++ b/tpie/file_base.h
@@ -151,7 +151,7 @@ public:
 		///////////////////////////////////////////////////////////////////////
 		stream(file_base & file, stream_size_type offset=0);
 
-		stream() : m_file(0) {}
+		stream() : m_file(0), m_block(0) {}
 
 	private:
 		///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 161125082521fc58cb2ff67bc62f89a633920e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:53 +0000
Subject: [PATCH 32/72] fix: refuse a compressed stream whose header has no
 valid offset of the last block

Such a stream was opened, and closing it or seeking to its end waited forever
for an offset that no write would ever report.
---
 tpie/compressed/stream_base.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index e89bd8e..07a1b68 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -215,6 +215,14 @@ public:
 		m_byteStreamAccessor.open(path, m_canRead, m_canWrite, m_itemSize,
 								  m_blockSize, userDataSize, cacheHint,
 								  compressionFlags);
+		if (use_compression()
+			&& m_byteStreamAccessor.size() > m_blockItems
+			&& m_byteStreamAccessor.get_last_block_read_offset() >= m_byteStreamAccessor.file_size())
+		{
+			// Without the last block we can neither read nor append.
+			m_byteStreamAccessor.close();
+			throw invalid_file_exception("Invalid file, last block read offset is wrong");
+		}
 		m_o->m_size = m_byteStreamAccessor.size();
 		m_open = true;
 		m_streamBlocks = (m_o->m_size + m_blockItems - 1) / m_blockItems;
-- 
2.43.0


From 366179fa53caacee85c549b05c85fa4f6523e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 33/72] fix: a failed or short block read on the compressor
 thread is reported to the stream's user

---
 tpie/compressed/request.cpp     |  7 +++++++
 tpie/compressed/request.h       | 18 ++++++++++++++++++
 tpie/compressed/stream_base.cpp | 15 ++++++++++++++-
 tpie/compressed/thread.cpp      | 10 ++++++++--
 4 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/tpie/compressed/request.cpp b/tpie/compressed/request.cpp
index 735bb23..d2a46e8 100644
--- a/tpie/compressed/request.cpp
+++ b/tpie/compressed/request.cpp
@@ -18,6 +18,7 @@
 // along with TPIE.  If not, see <http://www.gnu.org/licenses/>
 
 #include <tpie/compressed/request.h>
+#include <tpie/compressed/buffer.h>
 #include <tpie/compressed/thread.h>
 
 namespace tpie {
@@ -26,4 +27,10 @@ void compressor_response::wait(compressor_thread_lock & lock) {
 	m_changed.wait(lock.get_lock());
 }
 
+void read_request::set_error(std::exception_ptr error) {
+	m_buffer->transition_state(compressor_buffer_state::reading,
+							   compressor_buffer_state::dirty);
+	m_response->set_read_error(error);
+}
+
 } // namespace tpie
diff --git a/tpie/compressed/request.h b/tpie/compressed/request.h
index 077bd60..715c625 100644
--- a/tpie/compressed/request.h
+++ b/tpie/compressed/request.h
@@ -24,6 +24,7 @@
 /// \file compressed/request.h  Compressor thread requests and responses.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include <exception>
 #include <memory>
 #include <thread>
 #include <condition_variable>
@@ -69,6 +70,7 @@ public:
 	void initiate_request() {
 		m_done = m_endOfStream = false;
 		m_nextReadOffset = m_nextBlockSize = 0;
+		m_readError = nullptr;
 	}
 
 	// write, stream
@@ -153,6 +155,18 @@ public:
 		m_changed.notify_all();
 	}
 
+	// read, thread
+	void set_read_error(std::exception_ptr error) {
+		m_done = true;
+		m_readError = error;
+		m_changed.notify_all();
+	}
+
+	// read, stream
+	std::exception_ptr read_error() {
+		return m_readError;
+	}
+
 private:
 	std::condition_variable m_changed;
 
@@ -168,6 +182,7 @@ private:
 	bool m_endOfStream;
 	stream_size_type m_nextReadOffset;
 	memory_size_type m_nextBlockSize;
+	std::exception_ptr m_readError;
 };
 
 #ifdef __GNUC__
@@ -237,6 +252,9 @@ public:
 		m_response->set_next_block_offset(offset);
 	}
 
+	// must have lock!
+	void set_error(std::exception_ptr error);
+
 private:
 	buffer_t m_buffer;
 	file_accessor_t * m_fileAccessor;
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 07a1b68..63b9add 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -91,7 +91,13 @@ public:
 	}
 
 	~close_on_fail_guard() {
-		if (!m_committed) m_stream->close();
+		if (m_committed) return;
+		try {
+			m_stream->close();
+		} catch (std::exception & e) {
+			// The exception that made us fail is the one to report.
+			log_error() << "Could not close stream: " << e.what() << std::endl;
+		}
 	}
 
 	void commit() {
@@ -631,6 +637,7 @@ public:
 		while (!m_response.done()) {
 			m_response.wait(lock);
 		}
+		if (m_response.read_error()) std::rethrow_exception(m_response.read_error());
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -910,6 +917,7 @@ void compressed_stream_base::peak_unlikely() {
 	if (m_seekState != seek_state::none) m_p->perform_seek();
 	if (m_offset == m_size) throw end_of_stream_exception();
 	if (m_nextItem == m_bufferEnd) {
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = false;
@@ -917,6 +925,7 @@ void compressed_stream_base::peak_unlikely() {
 		}
 		// At this point, block_number() == buffer_block_number() + 1
 		m_p->read_next_block(l, m_p->block_number());
+		closeOnFail.commit();
 	}
 }
 
@@ -928,6 +937,7 @@ void compressed_stream_base::read_back_unlikely() {
 	if (m_nextItem == m_bufferBegin) {
 		if (m_offset == 0) throw end_of_stream_exception();
 		m_p->uncache_read_writes();
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = true;
@@ -939,6 +949,7 @@ void compressed_stream_base::read_back_unlikely() {
 			m_p->read_next_block(l, m_p->block_number() - 1);
 			m_nextItem = m_bufferEnd;
 		}
+		closeOnFail.commit();
 	}
 }
 
@@ -948,6 +959,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 	
 	if (!m_p->use_compression()) {
 		if (m_nextItem == m_bufferEnd) {
+			close_on_fail_guard closeOnFail(this);
 			compressor_thread_lock lock(m_p->compressor());
 			if (m_p->m_bufferDirty) {
 				m_p->m_updateReadOffsetFromWrite = true;
@@ -959,6 +971,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 			} else {
 				m_p->read_next_block(lock, m_p->block_number());
 			}
+			closeOnFail.commit();
 		}
 		if (offset() == m_size) ++m_size;
 		memcpy(m_nextItem, item, m_p->m_itemSize);
diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index c7c09da..0bc1473 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -123,7 +123,13 @@ public:
 					case compressor_request_kind::NONE:
 						throw exception("Invalid request");
 					case compressor_request_kind::READ:
-						process_read_request(r.get_read_request());
+						try {
+							process_read_request(r.get_read_request());
+						} catch (...) {
+							// The stream waiting for the block reports the error.
+							compressor_thread_lock::lock_t failLock(mutex());
+							r.get_read_request().set_error(std::current_exception());
+						}
 						break;
 					case compressor_request_kind::WRITE:
 						process_write_request(r.get_write_request());
@@ -155,7 +161,7 @@ private:
 			if (blockSize > rr.buffer()->capacity()) {
 				throw stream_exception("Internal error; blockSize > buffer capacity");
 			}
-			rr.file_accessor().read(readOffset, rr.buffer()->get(), blockSize);
+			checked_read(rr, readOffset, rr.buffer()->get(), blockSize);
 			rr.buffer()->set_size(blockSize);
 			compressor_thread_lock::lock_t lock(mutex());
 			// Notify that reading has completed.
-- 
2.43.0


From 5d32bbe3e0103cf8af2dcf62e44f2223a2edf298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 34/72] fix: a file refused by the file manager must not stay
 open, nor count as closed later

---
 tpie/file_accessor/posix.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 1a55076..c0fccd8 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -111,7 +111,13 @@ void posix::_open(const std::string & path, int flags, mode_t mode = 0755) {
 	if (m_fd == -1) {
 		return;
 	}
-	get_file_manager().increment_open_file_count();
+	try {
+		get_file_manager().increment_open_file_count();
+	} catch (...) {
+		::close(m_fd);
+		m_fd = -1;
+		throw;
+	}
 	give_advice();
 }
 
-- 
2.43.0


From 3ca9ee894a7364b68c8fdac3febf754a0c0c3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 35/72] fix: failed opens and closes of a stream leave no open
 file and do not make closing fail for ever

---
 tpie/file_accessor/posix.inl                |  6 ++--
 tpie/file_accessor/stream_accessor_base.inl | 32 ++++++++++++---------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index c0fccd8..8634de3 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -151,9 +151,11 @@ bool posix::is_open() const {
 
 void posix::close_i() {
 	if (m_fd == -1) return;
-	if (::close(m_fd) == -1) throw_errno();
-	get_file_manager().decrement_open_file_count();
+	// The descriptor is gone even if closing reports an error.
+	int fd = m_fd;
 	m_fd = -1;
+	get_file_manager().decrement_open_file_count();
+	if (::close(fd) == -1) throw_errno();
 }
 
 void posix::truncate_i(stream_size_type bytes) {
diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index d3bcf21..8b013a5 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -134,22 +134,28 @@ void stream_accessor_base<file_accessor_t>::open(const std::string & path,
 	m_lastBlockReadOffset = std::numeric_limits<stream_size_type>::max();
 	if (!write && !read)
 		throw invalid_argument_exception("Either read or write must be specified");
-	if (write && !read) {
-		m_fileAccessor.open_wo(path);
-		write_header(false);
-		write_user_data(0, 0);
-	} else if (!write && read) {
-		m_fileAccessor.open_ro(path);
-		read_header();
-	} else {
-		if (!m_fileAccessor.try_open_rw(path)) {
-			m_fileAccessor.open_rw_new(path);
+	try {
+		if (write && !read) {
+			m_fileAccessor.open_wo(path);
 			write_header(false);
 			write_user_data(0, 0);
-		} else {
+		} else if (!write && read) {
+			m_fileAccessor.open_ro(path);
 			read_header();
-			write_header(false);
+		} else {
+			if (!m_fileAccessor.try_open_rw(path)) {
+				m_fileAccessor.open_rw_new(path);
+				write_header(false);
+				write_user_data(0, 0);
+			} else {
+				read_header();
+				write_header(false);
+			}
 		}
+	} catch (...) {
+		// Do not leave the file behind, open.
+		m_fileAccessor.close_i();
+		throw;
 	}
 	m_open = true;
 	if (write && m_maxUserDataSize < maxUserDataSize) {
@@ -164,8 +170,8 @@ void stream_accessor_base<file_accessor_t>::close() {
 		return;
 	if (m_write)
 		write_header(true);
-	m_fileAccessor.close_i();
 	m_open = false;
+	m_fileAccessor.close_i();
 }
 
 template <typename file_accessor_t>
-- 
2.43.0


From 7e13d56f90f5ec4830b868f083daf835538e65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 36/72] fix: failed block reads, writes and truncations of a
 file must not lose or mix up blocks

---
 tpie/file_base.cpp      |  9 +++++++--
 tpie/file_base.h        |  2 +-
 tpie/file_base_crtp.inl | 16 ++++++++++------
 tpie/file_stream_base.h |  4 ++--
 4 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index aecbd2b..c43c414 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -98,14 +98,19 @@ file_base::block_t * file_base::get_block(stream_size_type block) {
 
 void file_base::free_block(block_t * block) {
 	assert(block->usage > 0);
-	--block->usage;
-	if (block->usage > 0) return;
+	if (block->usage > 1) {
+		--block->usage;
+		return;
+	}
 
+	// If this fails the block is still in use, so that no data is lost.
 	if (block->dirty || !m_canRead) {
 		assert(m_canWrite);
 		m_fileAccessor->write_block(block->data, block->number, block->size);
 	}
 
+	block->usage = 0;
+
 	boost::intrusive::list<block_t>::iterator i = m_used.iterator_to(*block);
 
 	m_used.erase(i);
diff --git a/tpie/file_base.h b/tpie/file_base.h
index 56d6c8d..6eebbfe 100644
--- a/tpie/file_base.h
+++ b/tpie/file_base.h
@@ -183,8 +183,8 @@ public:
 		if (!m_used.empty()) {
 			throw io_exception("Tried to truncate a file with one or more open streams");
 		}
-		m_size = s;
 		m_fileAccessor->truncate(s);
+		m_size = s;
 		if (m_tempFile)
 			m_tempFile->update_recorded_size(m_fileAccessor->byte_size());
 	}
diff --git a/tpie/file_base_crtp.inl b/tpie/file_base_crtp.inl
index a131b20..f57a51f 100644
--- a/tpie/file_base_crtp.inl
+++ b/tpie/file_base_crtp.inl
@@ -43,19 +43,23 @@ file_base_crtp<child_t>::file_base_crtp(
 template <typename child_t>
 template <typename BT>
 void file_base_crtp<child_t>::read_block(BT & b, stream_size_type block) {
+	// If reading fails the buffer holds no block.
 	b.dirty = false;
-	b.number = block;
+	b.number = std::numeric_limits<stream_size_type>::max();
+	b.size = 0;
 
 	// calculate buffer size
-	b.size = m_blockItems;
-	if (static_cast<stream_size_type>(b.size) + b.number * static_cast<stream_size_type>(m_blockItems) > self().size())
-		b.size = static_cast<memory_size_type>(self().size() - block * m_blockItems);
+	memory_size_type size = m_blockItems;
+	if (static_cast<stream_size_type>(size) + block * static_cast<stream_size_type>(m_blockItems) > self().size())
+		size = static_cast<memory_size_type>(self().size() - block * m_blockItems);
 
 	// populate buffer data
-	if (b.size > 0 &&
-		m_fileAccessor->read_block(b.data, b.number, b.size) != b.size) {
+	if (size > 0 &&
+		m_fileAccessor->read_block(b.data, block, size) != size) {
 		throw io_exception("Incorrect number of items read");
 	}
+	b.number = block;
+	b.size = size;
 }
 
 template <typename child_t>
diff --git a/tpie/file_stream_base.h b/tpie/file_stream_base.h
index 2608d94..939d565 100644
--- a/tpie/file_stream_base.h
+++ b/tpie/file_stream_base.h
@@ -51,9 +51,9 @@ public:
 	/////////////////////////////////////////////////////////////////////////
 	inline void close() {
 		if (m_open) flush_block();
+		p_t::close();
 		tpie_delete_array(m_block.data, m_itemSize * m_blockItems);
 		m_block.data = 0;
-		p_t::close();
 	}
 
 
@@ -67,12 +67,12 @@ public:
 	inline void truncate(stream_size_type size) {
 		stream_size_type o=offset();
 		flush_block();
+		m_fileAccessor->truncate(size);
 		m_block.number = std::numeric_limits<stream_size_type>::max();
 		m_nextBlock = std::numeric_limits<stream_size_type>::max();
 		m_nextIndex = std::numeric_limits<memory_size_type>::max();
 		m_index = std::numeric_limits<memory_size_type>::max();
 		m_size = size;
-		m_fileAccessor->truncate(size);
 		if (m_tempFile)
 			m_tempFile->update_recorded_size(m_fileAccessor->byte_size());
 		seek(std::min(o, size));
-- 
2.43.0


From d37bf988ddebbf47e87fd7ceabd310234f36c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 37/72] fix: a failed truncation of a file_stream must not lose
 buffered items

---
 tpie/compressed/stream_base.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 63b9add..f388d2a 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -412,16 +412,18 @@ public:
 	/// \brief  Truncate to zero size.
 	///////////////////////////////////////////////////////////////////////////
 	void truncate_zero() {
-		// No need to flush block
-		m_buffer.reset();
 		m_updateReadOffsetFromWrite = false;
 		compressor_thread_lock l(compressor());
+		// If truncating the file fails, no items may be lost.
+		if (m_bufferDirty) flush_block(l);
+		m_buffer.reset();
 		finish_requests(l);
+		m_o->m_seekState = compressed_stream_base::seek_state::beginning;
+		m_byteStreamAccessor.truncate(0);
 		m_response.clear_block_info();
 		get_buffer(l, 0);
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
-		m_byteStreamAccessor.truncate(0);
 	
 		m_readOffset = 0;
 		m_o->m_offset = 0;
@@ -453,18 +455,16 @@ public:
 			// We need to do a truncate on the file accessor.
 			// Get rid of the current block first.
 			compressor_thread_lock l(compressor());
-			if (offset < buffer_block_number() * m_blockItems) {
-				// No need to flush current block, since we are truncating it away.
-			} else {
-				// Changes to the current block may still be visible after the truncate.
-				if (m_bufferDirty) {
-					m_updateReadOffsetFromWrite = false;
-					flush_block(l);
-				}
+			// Changes to the current block may still be visible after the truncate,
+			// and none of them may be lost if truncating the file fails.
+			if (m_bufferDirty) {
+				m_updateReadOffsetFromWrite = false;
+				flush_block(l);
 			}
 			m_buffer.reset();
 			m_bufferDirty = false;
 			finish_requests(l);
+			m_o->seek(currentOffset);
 			m_byteStreamAccessor.truncate(offset);
 			m_o->m_size = offset;
 			m_streamBlocks = (offset + m_blockItems - 1) / m_blockItems;
-- 
2.43.0


From 0c3f55d3de6d18b03b1fc398510c4b7fab072e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 38/72] fix: serialization writers survive a failed write or
 close

---
 tpie/serialization_stream.cpp | 10 ++++++++--
 tpie/serialization_stream.h   | 12 +++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 67698b7..9dc86e2 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -213,9 +213,9 @@ void serialization_writer_base::close(bool reverse) {
 	header.set_size(m_size);
 	header.set_reverse(reverse);
 	header.write(true);
-	m_fileAccessor.close_i();
 	m_open = false;
 	m_tempFile = 0;
+	m_fileAccessor.close_i();
 }
 
 stream_size_type serialization_writer_base::file_size() {
@@ -271,7 +271,13 @@ serialization_reverse_writer::~serialization_reverse_writer() {
 void serialization_reverse_writer::write_block() {
 	// See note about m_index and its semantics.
 	std::reverse(m_block.get(), m_block.get() + block_size());
-	p_t::write_block(m_block.get(), m_index);
+	try {
+		p_t::write_block(m_block.get(), m_index);
+	} catch (...) {
+		// The block is still to be written.
+		std::reverse(m_block.get(), m_block.get() + block_size());
+		throw;
+	}
 	m_index = 0;
 }
 
diff --git a/tpie/serialization_stream.h b/tpie/serialization_stream.h
index af2f3d4..b5b97d9 100644
--- a/tpie/serialization_stream.h
+++ b/tpie/serialization_stream.h
@@ -188,6 +188,15 @@ public:
 		}
 
 		~serializer() {
+			wr.m_serializationBuffer.resize(0);
+		}
+
+		///////////////////////////////////////////////////////////////////////
+		/// \brief  Copy the serialized item to the stream.
+		///
+		/// This is not done by the destructor, since it may throw.
+		///////////////////////////////////////////////////////////////////////
+		void finish() {
 			std::vector<char> & data = wr.m_serializationBuffer;
 			const memory_size_type n = data.size();
 			const char * const s = data.data();
@@ -211,7 +220,6 @@ public:
 					wr.m_index += writeSize;
 				}
 			}
-			data.resize(0);
 		}
 	};
 
@@ -235,6 +243,7 @@ public:
 		using tpie::serialize;
 		serializer s(*this);
 		serialize(s, v);
+		s.finish();
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -249,6 +258,7 @@ public:
 		using tpie::serialize;
 		serializer s(*this);
 		serialize(s, a, b);
+		s.finish();
 	}
 };
 
-- 
2.43.0


From e6471b7751adb089a61c7178526651df5a3f1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:51 +0000
Subject: [PATCH 39/72] fix: temporary space accounting follows reopening,
 truncation and release of temporary files

---
 tpie/compressed/stream_base.cpp | 16 ++++++++++++----
 tpie/file_base_crtp.h           |  2 ++
 tpie/serialization_stream.cpp   |  2 ++
 tpie/tempname.cpp               |  7 ++++---
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index f388d2a..b048e48 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -235,10 +235,20 @@ public:
 		m_lastBlockReadOffset = m_byteStreamAccessor.get_last_block_read_offset();
 		m_currentFileSize = m_byteStreamAccessor.file_size();
 		m_response.clear_block_info();
+		update_recorded_size();
 		
 		m_o->seek(0);
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Record how much the temporary file takes up on disk.
+	///
+	/// No write may be pending.
+	///////////////////////////////////////////////////////////////////////////
+	void update_recorded_size() {
+		if (m_tempFile) m_tempFile->update_recorded_size(m_byteStreamAccessor.file_size());
+	}
+
 	static memory_size_type block_size(double blockFactor) noexcept {
 		return static_cast<memory_size_type>(get_block_size() * blockFactor);
 	}
@@ -420,6 +430,7 @@ public:
 		finish_requests(l);
 		m_o->m_seekState = compressed_stream_base::seek_state::beginning;
 		m_byteStreamAccessor.truncate(0);
+		update_recorded_size();
 		m_response.clear_block_info();
 		get_buffer(l, 0);
 		m_o->m_size = 0;
@@ -466,6 +477,7 @@ public:
 			finish_requests(l);
 			m_o->seek(currentOffset);
 			m_byteStreamAccessor.truncate(offset);
+			update_recorded_size();
 			m_o->m_size = offset;
 			m_streamBlocks = (offset + m_blockItems - 1) / m_blockItems;
 		}
@@ -1134,8 +1146,6 @@ void compressed_stream_base::truncate(stream_size_type offset) {
 		m_p->truncate_uncompressed(offset);
 	else
 		throw stream_exception("Arbitrary truncate is not supported");
-	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
 }
 
 void compressed_stream_base::truncate(const stream_position & pos) {
@@ -1149,8 +1159,6 @@ void compressed_stream_base::truncate(const stream_position & pos) {
 		m_p->truncate_uncompressed(pos.offset());
 	else
 		m_p->truncate_compressed(pos);
-	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
 }
 
 stream_position compressed_stream_base::get_position() {
diff --git a/tpie/file_base_crtp.h b/tpie/file_base_crtp.h
index 0a78d7d..2cdeb91 100644
--- a/tpie/file_base_crtp.h
+++ b/tpie/file_base_crtp.h
@@ -287,6 +287,8 @@ protected:
 		}
 		m_size = m_fileAccessor->size();
 		m_open = true;
+		if (m_tempFile)
+			m_tempFile->update_recorded_size(m_fileAccessor->byte_size());
 	}
 
 
diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 9dc86e2..5db3e1e 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -183,6 +183,8 @@ void serialization_writer_base::open_inner(std::string path, bool reverse) {
 	bits::serialization_header header(m_fileAccessor);
 	header.set_reverse(reverse);
 	header.write(false);
+	if (m_tempFile)
+		m_tempFile->update_recorded_size(0);
 	guard.commit();
 }
 
diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 7c84c21..e97294f 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -300,11 +300,12 @@ namespace tpie {
 namespace bits {
 
 temp_file_inner::~temp_file_inner() {
-	if (m_path.empty() || m_persist || !std::filesystem::exists(m_path))
+	update_recorded_size(0);
+	if (m_path.empty() || m_persist)
 		return;
 
-	std::filesystem::remove(m_path);
-	update_recorded_size(0);
+	std::error_code c;
+	std::filesystem::remove(m_path, c);
 }
 
 temp_file_inner::temp_file_inner() : m_persist(false), m_recordedSize(0), m_count(0) {}
-- 
2.43.0


From 8cfda2fca6747bbd931bf805bc155e0129cfd918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 40/72] fix: a generated temporary name is never that of an
 existing file

---
 tpie/tempname.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index e97294f..ef6cbf2 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -181,8 +181,10 @@ std::string gen_temp(const std::string& post_base, const std::string& dir, const
 
 		std::filesystem::path p = subdirs.top();
 		p /= construct_name(post_base, "", suffix);
-
-		return p.string();
+		if ( !std::filesystem::exists(p) ) {
+			return p.string();
+		}
+		throw tempfile_error("Unable to find free name for temporary file");
 	}
 }
 
-- 
2.43.0


From d68aaaf3a36ecdafba854fb3297bf0ebde1cef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 41/72] fix: a serialization sorter removes its temporary
 directory

---
 tpie/serialization_sorter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 13fe8e0..98d5d26 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -303,6 +303,10 @@ public:
 
 	~file_handler() {
 		reset();
+		if (!m_tempDir.empty()) {
+			std::error_code ec;
+			std::filesystem::remove(m_tempDir, ec);
+		}
 	}
 
 	void set_temp_dir(const std::string & tempDir) {
-- 
2.43.0


From 6ae47c10a8747585da366d11ee7a7f36c2e8e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 42/72] fix: internal_reverser can be instantiated
 (std::stack::pop returns nothing)

---
 tpie/pipelining/reverse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index bfc0023..89118a3 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -166,7 +166,8 @@ public:
 
 	void go() override {
 		while (!m_stack->empty()) {
-			dest.push(m_stack->pop());
+			dest.push(m_stack->top());
+			m_stack->pop();
 			step();
 		}
 	}
-- 
2.43.0


From 4682667cd7c2c9a2318a111f4d91703d79035e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 43/72] fix: a pipelining range announces the number of items
 it will push

---
 tpie/pipelining/numeric.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/numeric.h b/tpie/pipelining/numeric.h
index 8459fa1..90b6563 100644
--- a/tpie/pipelining/numeric.h
+++ b/tpie/pipelining/numeric.h
@@ -53,7 +53,11 @@ public:
 	range_t(dest_t dest, item_type from, item_type to, item_type increment) : from(from), to(to), increment(increment), dest(std::move(dest)) {}
 
 	void propagate() {
-		stream_size_type items = (from - to) / increment;
+		stream_size_type items = 0;
+		if (from < to) {
+			items = static_cast<stream_size_type>((to - from) / increment);
+			if (static_cast<item_type>(from + items * increment) < to) ++items;
+		}
 		set_steps(items);
 		forward("items", items);
 	}
-- 
2.43.0


From 5034a6165d4b4789cd43654f76bfc530056378ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 44/72] fix: pipelining pull_output does not begin and end its
 source a second time; pull_tee is a node; input of a closed stream announces
 its size with the right type

---
 tpie/pipelining/file_stream.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index aaaf028..92b9566 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -57,13 +57,12 @@ public:
 	}
 
 	void propagate() override {
-		if (options & STREAM_RESET) fs.seek(0);
-		
 		if (fs.is_open()) {
+			if (options & STREAM_RESET) fs.seek(0);
 			forward("items", fs.size() - fs.offset());
 			set_steps(fs.size() - fs.offset());
 		} else {
-			forward("items", 0);
+			forward("items", static_cast<stream_size_type>(0));
 		}
 	}
 
@@ -315,11 +314,9 @@ public:
 	}
 
 	void go() override {
-		source.begin();
 		while (source.can_pull()) {
 			fs.write(source.pull());
 		}
-		source.end();
 	}
 	
 private:
@@ -345,7 +342,7 @@ private:
 };
 
 template <typename source_t, typename T>
-class pull_tee_t {
+class pull_tee_t : public node {
 public:
 	typedef T item_type;
 	pull_tee_t(source_t source, file_stream<item_type> & fs): fs(fs), source(std::move(source)) {
-- 
2.43.0


From a9df8d384ef7800aa6aef42acc4d51fdf5f1d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 45/72] fix: phases that share memory are ordered with their
 other dependencies in mind

A dependency that points backwards between phases joined by memory shares was
ignored, and two memory shares between the same two phases were refused.
---
 tpie/pipelining/runtime.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 2eee67e..1c70d16 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1492,6 +1492,11 @@ void runtime::get_phases(const std::map<node *, size_t> & phaseMap,
 
 			// Check if we already have a green edge from fromPhase or to toPhase
 			// If so one of edges can't be satisfied, but all green edges must be satisfied
+			// Several nodes may share memory between the same two phases
+			auto same = greenEdges.find(fromPhase);
+			if (same != greenEdges.end() && same->second == toPhase) {
+				continue;
+			}
 			if (greenEdges.find(fromPhase) != greenEdges.end() ||
 				revGreenEdges.find(toPhase) != revGreenEdges.end()) {
 				throw tpie::exception("get_phases: can't satisfy all green edges");
@@ -1587,6 +1592,15 @@ void runtime::get_phases(const std::map<node *, size_t> & phaseMap,
 	// topoOrderMap[i] is the time at which we run phase i.
 	std::vector<size_t> topoOrderMap = inverse_permutation(topologicalOrder);
 
+	// Edges between phases joined by green edges are not part of the contracted graph
+	for (const auto * edges : {&blackEdges, &redEdges}) {
+		for (const auto & p : *edges) {
+			if (topoOrderMap[p.first] > topoOrderMap[p.second]) {
+				throw tpie::exception("get_phases: can't satisfy all green edges");
+			}
+		}
+	}
+
 	// Distribute nodes according to the topological order
 	phases.resize(topologicalOrder.size());
 	for (std::map<node *, size_t>::const_iterator i = phaseMap.begin();
-- 
2.43.0


From 2f655dfa1703abc8145b7ec20c8cf3c24e72acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 46/72] fix: nodes find the memory assigned to a data structure
 after their graphs were joined

---
 tpie/pipelining/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/node.cpp b/tpie/pipelining/node.cpp
index bb43ff0..c19838f 100644
--- a/tpie/pipelining/node.cpp
+++ b/tpie/pipelining/node.cpp
@@ -322,7 +322,7 @@ void node::set_datastructure_memory_limits(const std::string & name, memory_size
 }
 
 memory_size_type node::get_datastructure_memory(const std::string & name) {
-	const bits::node_map::datastructuremap_t & structures = get_node_map()->get_datastructures();
+	const bits::node_map::datastructuremap_t & structures = get_node_map()->find_authority()->get_datastructures();
 	bits::node_map::datastructuremap_t::const_iterator i = structures.find(name);
 
 	if(i == structures.end())
-- 
2.43.0


From c67f90f76958d784e71c8ad4f024fadf1f12a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 47/72] fix: linear memory bounds add up, and nothing fits in
 less than the overhead

---
 tpie/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/util.h b/tpie/util.h
index a908d1b..2c9d226 100644
--- a/tpie/util.h
+++ b/tpie/util.h
@@ -79,7 +79,7 @@ struct linear_memory_usage {
 	}
 
     constexpr friend linear_memory_usage operator + (const linear_memory_usage & l, const linear_memory_usage & r) noexcept {
-		return linear_memory_usage(l.coefficient + r.coefficient, l.overhead * r.overhead);
+		return linear_memory_usage(l.coefficient + r.coefficient, l.overhead + r.overhead);
 	}
 };
 
@@ -116,7 +116,7 @@ struct linear_memory_base {
 	/// \return The number of elements that will fit in the structure
 	///////////////////////////////////////////////////////////////////////////
 	static constexpr memory_size_type memory_fits(memory_size_type memory) noexcept {
-		return static_cast<memory_size_type>(
+		return memory <= child_t::memory_overhead() ? 0 : static_cast<memory_size_type>(
 			floor((memory - child_t::memory_overhead()) / child_t::memory_coefficient()));
 	}
 
-- 
2.43.0


From 0fd4e77b76469c895b8cace5ec37bc75fdbecf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 48/72] fix: a progress sub-indicator does not overflow and
 reports its whole share when done without steps

---
 tpie/progress_indicator_subindicator.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index 560f330..86310ef 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -19,6 +19,7 @@
 
 #include "progress_indicator_subindicator.h"
 #include <tpie/backtrace.h>
+#include <limits>
 #include <sstream>
 
 namespace tpie {
@@ -130,9 +131,15 @@ progress_indicator_subindicator::~progress_indicator_subindicator() {
 
 void progress_indicator_subindicator::refresh() {
 	stream_size_type val = get_current();
-	if (val > get_range()) val = get_range();
-	if (get_range() == 0) return;
-	stream_size_type value= val* m_outerRange / get_range();
+	stream_size_type range = get_range();
+	if (val > range) val = range;
+	if (range == 0) return;
+	// Reduce the precision such that the product below does not overflow
+	while (m_outerRange != 0 && range > std::numeric_limits<stream_size_type>::max() / m_outerRange) {
+		val /= 2;
+		range /= 2;
+	}
+	stream_size_type value = val * m_outerRange / range;
 	if (m_parent) {
 		m_parent->raw_step(value - m_oldValue);
 		m_oldValue = value;
@@ -162,6 +169,7 @@ void progress_indicator_subindicator::done() {
 #endif
 	if (!m_crumb.empty() && m_parent) m_parent->pop_breadcrumb();
 	progress_indicator_base::done();
+	if (m_range == 0) m_range = 1; // Without any steps the work is still complete
 	m_current = m_range; 
 	refresh();
 }
-- 
2.43.0


From 83652753cb7da23fe6fc0a54b7c926966f126b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 49/72] fix: a sorter torn down by an exception does not use
 its owner's memory bucket after it is freed

---
 tpie/pipelining/merge_sorter.cpp |  4 ++--
 tpie/pipelining/merge_sorter.h   |  4 +++-
 tpie/pipelining/node.h           |  4 ++--
 tpie/serialization_sorter.h      | 14 ++++++++------
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index 89245a5..da6b31f 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -250,10 +250,10 @@ void merge_sorter_base::set_items(stream_size_type n) {
 
 void merge_sorter_base::set_owner(tpie::pipelining::node * n) {
 	if (m_owning_node != nullptr)
-		m_bucketPtr = std::move(m_owning_node->bucket(0));
+		m_owning_node->bucket(0).reset();
 	
 	if (n != nullptr)
-		n->bucket(0) = std::move(m_bucketPtr);
+		n->bucket(0) = m_bucketPtr;
 	
 	m_owning_node = n;
 }
diff --git a/tpie/pipelining/merge_sorter.h b/tpie/pipelining/merge_sorter.h
index 45a58e1..9c0e1c0 100644
--- a/tpie/pipelining/merge_sorter.h
+++ b/tpie/pipelining/merge_sorter.h
@@ -339,7 +339,9 @@ protected:
 	const linear_memory_usage m_fanout_memory_usage;
     const memory_size_type m_item_size, m_element_file_stream_memory_usage;
 	
-	std::unique_ptr<memory_bucket> m_bucketPtr;
+	// Shared with the owning node: if the pipeline is torn down by an
+	// exception, that node may be destroyed before the sorter is.
+	std::shared_ptr<memory_bucket> m_bucketPtr;
 	memory_bucket_ref m_bucket;
 
 	array<temp_file> m_runFiles;
diff --git a/tpie/pipelining/node.h b/tpie/pipelining/node.h
index ec1db43..f241993 100644
--- a/tpie/pipelining/node.h
+++ b/tpie/pipelining/node.h
@@ -775,7 +775,7 @@ public:
 	///////////////////////////////////////////////////////////////////////////////
 	/// \brief Access a memory bucket
 	///////////////////////////////////////////////////////////////////////////////
-	std::unique_ptr<memory_bucket> & bucket(size_t i) {
+	std::shared_ptr<memory_bucket> & bucket(size_t i) {
 		if (m_buckets.size() <= i) m_buckets.resize(i+1);
 		if (!m_buckets[i]) m_buckets[i].reset(new memory_bucket());
 		return m_buckets[i];
@@ -799,7 +799,7 @@ private:
 	node_token token;
 
 	node_parameters m_parameters;
-	std::vector<std::unique_ptr<memory_bucket> > m_buckets;
+	std::vector<std::shared_ptr<memory_bucket> > m_buckets;
 	
 	std::map<std::string, any_noncopyable> m_forwardedFromHere;
 	std::map<std::string, node_token::id_t> m_forwardedToHere;
diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 98d5d26..f0e71db 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -509,9 +509,11 @@ public:
 private:
 	enum sorter_state { state_initial, state_1, state_2, state_3 };
 
-	std::unique_ptr<memory_bucket> m_buffer_bucket_ptr;
+	// Shared with the owning node: if the pipeline is torn down by an
+	// exception, that node may be destroyed before the sorter is.
+	std::shared_ptr<memory_bucket> m_buffer_bucket_ptr;
 	memory_bucket_ref m_buffer_bucket;
-	std::unique_ptr<memory_bucket> m_item_bucket_ptr;
+	std::shared_ptr<memory_bucket> m_item_bucket_ptr;
 	memory_bucket_ref m_item_bucket;
 	pipelining::node * m_owning_node;
 
@@ -658,13 +660,13 @@ public:
 
 	void set_owner(pipelining::node * n) {
 		if (m_owning_node != nullptr) {
-			m_buffer_bucket_ptr = std::move(m_owning_node->bucket(0));
-			m_item_bucket_ptr = std::move(m_owning_node->bucket(1));
+			m_owning_node->bucket(0).reset();
+			m_owning_node->bucket(1).reset();
 		}
 
 		if (n != nullptr) {
-			n->bucket(0) = std::move(m_buffer_bucket_ptr);
-			n->bucket(1) = std::move(m_item_bucket_ptr);
+			n->bucket(0) = m_buffer_bucket_ptr;
+			n->bucket(1) = m_item_bucket_ptr;
 		}
 
 		m_owning_node = n;
-- 
2.43.0


From a17fa5c9493cebdbc3b7c9d12f9acf3e07de2cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:24 +0000
Subject: [PATCH 50/72] fix: internal_reverser and internal_passive_buffer
 release their items when the pipeline throws

---
 tpie/pipelining/internal_buffer.h | 14 +++++++++-----
 tpie/pipelining/reverse.h         | 20 +++++++++++++-------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/tpie/pipelining/internal_buffer.h b/tpie/pipelining/internal_buffer.h
index e07efec..4951d05 100644
--- a/tpie/pipelining/internal_buffer.h
+++ b/tpie/pipelining/internal_buffer.h
@@ -34,6 +34,7 @@ namespace bits {
 
 template <typename T>
 class internal_buffer_pull_output_t: public node {
+	tpie::unique_ptr<internal_queue<T> > * m_queue_ptr;
 	internal_queue<T> * m_queue;
 public:
 	typedef T item_type;
@@ -45,7 +46,8 @@ public:
 	}
 
 	void propagate() override {
-		m_queue = fetch<internal_queue<T> *>("queue");
+		m_queue_ptr = fetch<tpie::unique_ptr<internal_queue<T> > *>("queue");
+		m_queue = m_queue_ptr->get();
 	}
 
 	bool can_pull() const {
@@ -59,7 +61,7 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_queue);
+		m_queue_ptr->reset();
 		m_queue=NULL;
 	}
 };
@@ -77,8 +79,8 @@ public:
 	}
 
 	void propagate() override {
-		m_queue = tpie::tpie_new<internal_queue<item_type> >(size);
-		forward("queue", m_queue, 1);
+		m_queue = tpie::make_unique<internal_queue<item_type> >(size);
+		forward("queue", &m_queue, 1);
 	}
 
 	void push(const T & item) {
@@ -87,7 +89,9 @@ public:
 	}
 
 private:
-	internal_queue<item_type> * m_queue;
+	// Owned here, so that it is released if the pipeline fails before the
+	// output node has ended.
+	tpie::unique_ptr<internal_queue<item_type> > m_queue;
 	size_t size;
 };
 
diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index 89118a3..561091f 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -83,8 +83,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = tpie_new<std::stack<item_type> >();
-		forward("stack", m_stack, 1);
+		m_stack = tpie::make_unique<std::stack<item_type> >();
+		forward("stack", &m_stack, 1);
 	}
 
 	///////////////////////////////////////////////////////////////////////////////
@@ -94,7 +94,9 @@ public:
 		m_stack->push(t);
 	}
 private:
-	std::stack<item_type> * m_stack;
+	// Owned here, so that it is released if the pipeline fails before the
+	// output node has ended.
+	tpie::unique_ptr<std::stack<item_type> > m_stack;
 	std::shared_ptr<node> m_output;
 };
 
@@ -159,7 +161,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = fetch<std::stack<item_type> *>("stack");
+		m_stack_ptr = fetch<tpie::unique_ptr<std::stack<item_type> > *>("stack");
+		m_stack = m_stack_ptr->get();
 		forward("items", m_stack->size());
 		set_steps(m_stack->size());
 	}
@@ -173,10 +176,11 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_stack);
+		m_stack_ptr->reset();
 	}
 private:
 	dest_t dest;
+	tpie::unique_ptr<std::stack<item_type> > * m_stack_ptr;
 	std::stack<item_type> * m_stack;
 };
 
@@ -239,7 +243,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = fetch<std::stack<item_type> *>("stack");
+		m_stack_ptr = fetch<tpie::unique_ptr<std::stack<item_type> > *>("stack");
+		m_stack = m_stack_ptr->get();
 		forward("items", m_stack->size());
 	}
 
@@ -260,9 +265,10 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_stack);
+		m_stack_ptr->reset();
 	}
 private:
+	tpie::unique_ptr<std::stack<item_type> > * m_stack_ptr;
 	std::stack<item_type> * m_stack;
 };
 
-- 
2.43.0


From 8bf6b256153b88392366969ab4ba13c49ecdc3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 51/72] fix: sorters with pointer stores release the items they
 hold when destroyed early or evacuated

---
 tpie/pipelining/store.h | 42 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/tpie/pipelining/store.h b/tpie/pipelining/store.h
index d4d7a37..e3a5ebe 100644
--- a/tpie/pipelining/store.h
+++ b/tpie/pipelining/store.h
@@ -103,20 +103,18 @@ struct explicit_tpie_pointer_store {
 	template <typename element_t>
 	struct specific {
 		typedef element_t element_type;
-		typedef element_t * store_type;
+		// The sorter owns the items it holds, so that they are released
+		// if it is destroyed before they have all been pulled.
+		typedef tpie::unique_ptr<element_t> store_type;
 		typedef element_t * outer_type;
 
 		static const size_t item_size = sizeof(element_t) + sizeof(store_type);
 
-		element_type store_to_element(const store_type e) {
-			element_type ans=*e;
-			tpie_delete(e);
-			return ans;
-		}
-		store_type element_to_store(const element_type & e) {return tpie_new<element_type>(e);}
-		static const element_type & store_as_element(const store_type e) {return *e;}
-		store_type outer_to_store(const outer_type & e) {return e;}
-		outer_type store_to_outer(const store_type & e) {return e;}
+		element_type store_to_element(store_type e) {return *e;}
+		store_type element_to_store(const element_type & e) {return tpie::make_unique<element_type>(e);}
+		static const element_type & store_as_element(const store_type & e) {return *e;}
+		store_type outer_to_store(const outer_type & e) {return store_type(e);}
+		outer_type store_to_outer(store_type e) {return e.release();}
 	};
 
 	template <typename element_t>
@@ -161,7 +159,7 @@ struct explicit_tpie_unique_pointer_store {
  * \brief Sort elements using pointer indirection.
  *
  * We sort elements of type T, they are push to us a T. But internally they are storred as
- * T *.
+ * tpie::unique_ptr<T>.
  */
 struct pointer_store {
 	template <typename outer_t>
@@ -172,24 +170,18 @@ struct pointer_store {
 	template <typename element_t>
 	struct specific {
 		typedef element_t element_type;
-		typedef element_t * store_type;
+		// The sorter owns the items it holds, so that they are released
+		// if it is destroyed before they have all been pulled.
+		typedef tpie::unique_ptr<element_t> store_type;
 		typedef element_t outer_type;
 
 		static const size_t item_size = sizeof(element_t) + sizeof(store_type);
 
-		element_type store_to_element(const store_type e) {
-			element_type ans=*e;
-			tpie_delete(e);
-			return ans;
-		}
-		store_type element_to_store(const element_type & e) {return tpie_new<element_type>(e);}
-		static const element_type & store_as_element(const store_type e) {return *e;}
-		store_type outer_to_store(const outer_type & e) {return tpie_new<element_type>(e);}
-		outer_type store_to_outer(const store_type & e) {
-			outer_type ans=*e;
-			tpie_delete(e);
-			return ans;
-		}
+		element_type store_to_element(store_type e) {return *e;}
+		store_type element_to_store(const element_type & e) {return tpie::make_unique<element_type>(e);}
+		static const element_type & store_as_element(const store_type & e) {return *e;}
+		store_type outer_to_store(const outer_type & e) {return tpie::make_unique<element_type>(e);}
+		outer_type store_to_outer(store_type e) {return *e;}
 	};
 
 	template <typename element_t>
-- 
2.43.0


From a86e9da912b9fa718d43441c86aaac49dcc55a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 52/72] fix: an uncompressed stream frees its file accessor

---
 tpie/file_stream_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/file_stream_base.h b/tpie/file_stream_base.h
index 939d565..8afb1da 100644
--- a/tpie/file_stream_base.h
+++ b/tpie/file_stream_base.h
@@ -85,6 +85,7 @@ protected:
 
 	inline ~file_stream_base() {
 		close();
+		delete m_fileAccessor;
 	}
 
 	void swap(file_stream_base & other) {
-- 
2.43.0


From 4ef019219c093cd456e13494d469aa3c658c5735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 53/72] fix: at least one job worker when the hardware
 concurrency is unknown

std::thread::hardware_concurrency() may return 0; no worker was started
then, and every join on a job waited forever.
---
 tpie/job.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/job.cpp b/tpie/job.cpp
index 3ee1ed6..ae55c89 100644
--- a/tpie/job.cpp
+++ b/tpie/job.cpp
@@ -114,6 +114,7 @@ private:
 memory_size_type default_worker_count() {
 	memory_size_type workers = std::thread::hardware_concurrency();
 	if (workers > 3) --workers; // spare a CPU for the UI
+	if (workers == 0) workers = 1; // the concurrency is unknown
 	return workers;
 }
 
-- 
2.43.0


From 979aa47aac7c7c08d88659cc6ff076608797a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 54/72] fix: a refused job stays idle, its state is guarded by
 the mutex

enqueue() set the state before it found that the job manager is shutting
down, so the job could never be enqueued again; it also read the state
without the lock while a worker may be writing it.
---
 tpie/job.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tpie/job.cpp b/tpie/job.cpp
index ae55c89..ad353bb 100644
--- a/tpie/job.cpp
+++ b/tpie/job.cpp
@@ -157,13 +157,11 @@ bool job::is_done() {
 }
 
 void job::enqueue(job * parent) {
+	std::unique_lock<std::mutex> lock(the_job_manager->jobs_mutex);
 	if (m_state != job_idle)
 		throw tpie::exception("Bad job state");
-
-	m_state = job_enqueued;
-
-	std::unique_lock<std::mutex> lock(the_job_manager->jobs_mutex);
 	if (the_job_manager->m_kill_job_pool) throw job_manager_exception();
+	m_state = job_enqueued;
 	m_parent = parent;
 	m_dependencies = 1;
 	if (m_parent) ++m_parent->m_dependencies;
@@ -177,13 +175,15 @@ void job::enqueue(job * parent) {
 }
 
 void job::run() {
+	std::unique_lock<std::mutex> lock(the_job_manager->jobs_mutex);
 	if (m_state != job_enqueued)
 		throw tpie::exception("Bad job state");
 
 	m_state = job_running;
+	lock.unlock();
 
 	(*this)();
-	std::lock_guard<std::mutex> lock(the_job_manager->jobs_mutex);
+	lock.lock();
 	done();
 }
 
-- 
2.43.0


From 2feb9b97d053ab77e3c627c3ba3daec2ae9f6915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 55/72] fix: nodes of a parallel section step a progress
 indicator of their own worker

---
 tpie/pipelining/node.cpp         |  2 ++
 tpie/pipelining/node.h           | 17 ++++++++++++++++
 tpie/pipelining/parallel/base.h  | 33 +++++++++++++++++++-------------
 tpie/pipelining/runtime.cpp      |  3 ++-
 tpie/progress_indicator_base.cpp |  3 +++
 5 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/tpie/pipelining/node.cpp b/tpie/pipelining/node.cpp
index c19838f..47666cb 100644
--- a/tpie/pipelining/node.cpp
+++ b/tpie/pipelining/node.cpp
@@ -82,6 +82,7 @@ node::node(node && other)
 	, m_buckets(std::move(other.m_buckets))
 	, m_stepsLeft(std::move(other.m_stepsLeft))
 	, m_pi(std::move(other.m_pi))
+	, m_ownProgress(other.m_ownProgress)
 	, m_state(std::move(other.m_state))
 	, m_plotOptions(std::move(other.m_plotOptions))
 {
@@ -96,6 +97,7 @@ node & node::operator=(node && other) {
 	m_buckets = std::move(other.m_buckets);
 	m_stepsLeft = std::move(other.m_stepsLeft);
 	m_pi = std::move(other.m_pi);
+	m_ownProgress = other.m_ownProgress;
 	m_state = std::move(other.m_state);
 	m_plotOptions = std::move(other.m_plotOptions);
 	return *this;
diff --git a/tpie/pipelining/node.h b/tpie/pipelining/node.h
index f241993..cd97372 100644
--- a/tpie/pipelining/node.h
+++ b/tpie/pipelining/node.h
@@ -408,6 +408,22 @@ public:
 		m_pi = pi;
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Used internally. Set a progress indicator which is used instead
+	/// of the progress indicator of the phase.
+	///////////////////////////////////////////////////////////////////////////
+	void set_own_progress_indicator(progress_indicator_base * pi) {
+		m_pi = pi;
+		m_ownProgress = true;
+	}
+
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Used internally. True when set_own_progress_indicator was called.
+	///////////////////////////////////////////////////////////////////////////
+	bool has_own_progress_indicator() const {
+		return m_ownProgress;
+	}
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Used internally. Get the progress indicator used.
 	///////////////////////////////////////////////////////////////////////////
@@ -807,6 +823,7 @@ private:
 	datastructuremap_t m_datastructures;
 	stream_size_type m_stepsLeft;
 	progress_indicator_base * m_pi;
+	bool m_ownProgress = false;
 	STATE m_state;
 	resource_type m_resourceBeingAssigned = NO_RESOURCE;
 	std::unique_ptr<progress_indicator_base> m_piProxy;
diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index cd538da..74b6956 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -76,7 +76,7 @@ protected:
 		}
 
 		virtual void init_node(node & r) override {
-			r.set_progress_indicator(t->m_progressIndicators.get(index));
+			r.set_own_progress_indicator(t->m_progressIndicators.get(index));
 		}
 
 		size_t index;
@@ -91,12 +91,12 @@ public:
 		return *m_dests[idx];
 	}
 
-	stream_size_type sum_steps() {
-		stream_size_type res = 0;
-		for (size_t i = 0; i < m_progressIndicators.size(); ++i) {
-			res += m_progressIndicators.get(i)->get_current();
-		}
-		return res;
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Number of steps reported in the given worker. Only to be called
+	/// when that worker is not processing.
+	///////////////////////////////////////////////////////////////////////////
+	stream_size_type get_steps(size_t idx) {
+		return m_progressIndicators.get(idx)->get_current();
 	}
 
 	virtual ~threads() {}
@@ -791,7 +791,8 @@ private:
 	size_t readyIdx;
 	std::shared_ptr<consumer<T2> > cons;
 	internal_queue<memory_size_type> m_outputOrder;
-	stream_size_type m_steps;
+	/** Steps propagated from each worker */
+	std::vector<stream_size_type> m_steps;
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief  Check if a worker is waiting for the main thread.
@@ -895,11 +896,17 @@ private:
 		// In effect, every time step() is called once in a single worker,
 		// we process this as if all workers called step().
 
-		stream_size_type steps = st->pipes->sum_steps();
-		if (steps != m_steps) {
-			this->get_progress_indicator()->step(st->opts.numJobs*(steps - m_steps));
-			m_steps = steps;
+		stream_size_type steps = 0;
+		for (size_t i = 0; i < st->opts.numJobs; ++i) {
+			// A worker that is processing may be stepping right now; its steps
+			// are propagated later.
+			if (st->get_state(i) == PROCESSING) continue;
+			stream_size_type current = st->pipes->get_steps(i);
+			steps += current - m_steps[i];
+			m_steps[i] = current;
 		}
+		if (steps != 0)
+			this->get_progress_indicator()->step(st->opts.numJobs*steps);
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -994,7 +1001,7 @@ public:
 		: st(st)
 		, written(0)
 		, cons(new consumer_t(std::move(cons)))
-		, m_steps(0)
+		, m_steps(st->opts.numJobs, 0)
 	{
 		for (size_t i = 0; i < st->opts.numJobs; ++i) {
 			this->add_push_destination(st->input(i));
diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 1c70d16..bc234c9 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1721,7 +1721,8 @@ void runtime::propagate_all(const graph<node *> & itemFlow) {
 void runtime::set_progress_indicators(const std::vector<node *> & phase,
 									  progress_indicator_base & pi) {
 	for (size_t i = 0; i < phase.size(); ++i)
-		phase[i]->set_progress_indicator(&pi);
+		if (!phase[i]->has_own_progress_indicator())
+			phase[i]->set_progress_indicator(&pi);
 }
 
 void runtime::go_initiators(const std::vector<node *> & phase) {
diff --git a/tpie/progress_indicator_base.cpp b/tpie/progress_indicator_base.cpp
index 89e7845..8e37b9f 100644
--- a/tpie/progress_indicator_base.cpp
+++ b/tpie/progress_indicator_base.cpp
@@ -31,6 +31,7 @@ struct progress_indicator_base::refresh_impl {
 progress_indicator_base::progress_indicator_base(stream_size_type range)
 	: m_range(range)
 	, m_current(0)
+	, m_remainingSteps(0)
 	, m_predictor(nullptr)
 {
 	m_refreshImpl = new progress_indicator_base::refresh_impl;
@@ -39,6 +40,7 @@ progress_indicator_base::progress_indicator_base(stream_size_type range)
 progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 	: m_range(o.m_range)
 	, m_current(o.m_current)
+	, m_remainingSteps(o.m_remainingSteps)
 	, m_predictor(o.m_predictor)
 	, m_refreshImpl(o.m_refreshImpl) {
 	o.m_predictor = nullptr;
@@ -48,6 +50,7 @@ progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 progress_indicator_base & progress_indicator_base::operator=(progress_indicator_base&& o) {
 	std::swap(m_range, o.m_range);
 	std::swap(m_current, o.m_current);
+	std::swap(m_remainingSteps, o.m_remainingSteps);
 	std::swap(m_predictor, o.m_predictor);
 	std::swap(m_refreshImpl, o.m_refreshImpl);
 	return *this;
-- 
2.43.0


From a0daebed7933d6d3b87a441ccf6be0ab432b6baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 56/72] fix: a parallel section that fails to begin stops the
 workers it started

---
 tpie/pipelining/parallel/base.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index 74b6956..4aed9ec 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -590,11 +590,14 @@ protected:
 	}
 
 	~before() {
-		state_base::lock_t lock(st.mutex);
+		{
+			state_base::lock_t lock(st.mutex);
 
-		auto s = st.get_state(parId);
-		tp_assert_release(s == INITIALIZING || s == DONE, "State should be INITIALIZING or DONE in before::~before");
+			auto s = st.get_state(parId);
+			tp_assert_release(s == INITIALIZING || s == DONE, "State should be INITIALIZING or DONE in before::~before");
+		}
 
+		// A worker that is only starting needs the mutex before it sees DONE.
 		if (m_worker.joinable())
 			m_worker.join();
 	}
@@ -665,6 +668,9 @@ private:
 	void worker() {
 		state_base::lock_t lock(st.mutex);
 
+		// The pipeline was stopped before this worker got to start.
+		if (st.get_state(parId) == DONE) return;
+
 		m_buffer.reset(new parallel_input_buffer<T>(st.opts));
 		m_inputBuffers[parId] = m_buffer.get();
 
@@ -935,8 +941,6 @@ private:
 	/// even if no exception has been thrown from the main thread.
 	///////////////////////////////////////////////////////////////////////////
 	void stop_workers(state_base::lock_t & lock) {
-		if (st->runningWorkers == 0) return;
-
 		bool done = false;
 		while (!done) {
 			// Force maintainOrder == false to avoid deadlock in case processor p
-- 
2.43.0


From 7904b34706f1775a3e2cab71106bee3dcf385a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:22 +0000
Subject: [PATCH 57/72] fix: reading or writing user data waits for the
 compressor thread to leave the file

---
 tpie/compressed/buffer.h        | 10 ++++++++++
 tpie/compressed/stream_base.cpp | 13 +++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index bfac8cf..8957c6c 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -344,6 +344,16 @@ public:
 		return m_buffers.empty();
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// Check if a request refers to one of the buffers.
+	/// \param own  The buffer (if any) that the caller refers to.
+	///////////////////////////////////////////////////////////////////////////
+	bool has_requests(const buffer_t & own) const {
+		for (const auto & i : m_buffers)
+			if (i.second.use_count() > (i.second == own ? 2 : 1)) return true;
+		return false;
+	}
+
 	void clean() {
 		buffermapit i = m_buffers.begin();
 		while (i != m_buffers.end()) {
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index b048e48..4f74d41 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -394,6 +394,17 @@ public:
 		}
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// Blocks to take the compressor lock.
+	///
+	/// Waits until the compressor thread no longer uses the file.
+	///////////////////////////////////////////////////////////////////////////
+	void wait_for_requests() {
+		compressor_thread_lock l(compressor());
+		while (m_buffers.has_requests(m_buffer))
+			compressor().wait_for_request_done(l);
+	}
+
 	compressor_thread & compressor() { return the_compressor_thread(); }
 
 	///////////////////////////////////////////////////////////////////////////
@@ -831,11 +842,13 @@ memory_size_type compressed_stream_base::block_size() const {
 
 memory_size_type compressed_stream_base::read_user_data(void * data, memory_size_type count) {
 	tp_assert(is_open(), "read_user_data: !is_open");
+	m_p->wait_for_requests();
 	return m_p->m_byteStreamAccessor.read_user_data(data, count);
 }
 
 void compressed_stream_base::write_user_data(const void * data, memory_size_type count) {
 	tp_assert(is_open(), "write_user_data: !is_open");
+	m_p->wait_for_requests();
 	m_p->m_byteStreamAccessor.write_user_data(data, count);
 }
 
-- 
2.43.0


From cc810cb01c48f60082cd57a90b325f6e0b7b83df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:22 +0000
Subject: [PATCH 58/72] fix: a block is read when its request is done, not an
 earlier write request

---
 tpie/compressed/stream_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 4f74d41..5399c72 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -657,7 +657,8 @@ public:
 		m_buffer->transition_state(compressor_buffer_state::dirty,
 								   compressor_buffer_state::reading);
 		compressor().request(r);
-		while (!m_response.done()) {
+		// m_response.done() may be about an earlier write request.
+		while (m_buffer->is_busy()) {
 			m_response.wait(lock);
 		}
 		if (m_response.read_error()) std::rethrow_exception(m_response.read_error());
-- 
2.43.0


From de84d83be9350a80fc727d957b121962f1da92f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:22 +0000
Subject: [PATCH 59/72] fix: the compressor thread runs again when the library
 is initialised again

---
 tpie/compressed/thread.cpp | 12 ++++++++++++
 tpie/compressed/thread.h   |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index 0bc1473..b112461 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -89,6 +89,10 @@ public:
 	{
 	}
 
+	void start(compressor_thread_lock & /*lock*/) {
+		m_done = false;
+	}
+
 	void stop(compressor_thread_lock & /*lock*/) {
 		m_done = true;
 		m_newRequest.notify_one();
@@ -344,6 +348,10 @@ void init_compressor() {
 		log_debug() << "Attempted to initiate compressor thread twice" << std::endl;
 		return;
 	}
+	{
+		compressor_thread_lock lock(the_compressor_thread());
+		the_compressor_thread().start(lock);
+	}
 	std::thread t(run_the_compressor_thread);
 	the_compressor_thread_handle.swap(t);
 	compressor_thread_already_finished = false;
@@ -393,6 +401,10 @@ void compressor_thread::wait_for_request_done(compressor_thread_lock & l) {
 	pimpl->wait_for_request_done(l);
 }
 
+void compressor_thread::start(compressor_thread_lock & lock) {
+	pimpl->start(lock);
+}
+
 void compressor_thread::stop(compressor_thread_lock & lock) {
 	pimpl->stop(lock);
 }
diff --git a/tpie/compressed/thread.h b/tpie/compressed/thread.h
index ce18034..a326b57 100644
--- a/tpie/compressed/thread.h
+++ b/tpie/compressed/thread.h
@@ -59,6 +59,11 @@ public:
 
 	void run();
 
+	///////////////////////////////////////////////////////////////////////////
+	/// Used by init_compressor; undoes stop.
+	///////////////////////////////////////////////////////////////////////////
+	void start(compressor_thread_lock & lock);
+
 	void stop(compressor_thread_lock & lock);
 
 	void set_preferred_compression(compressor_thread_lock &, compression_scheme::type);
-- 
2.43.0


From bd032ad4093bcc78d596f5d7929734a1cbbabd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:53 +0000
Subject: [PATCH 60/72] fix: the position after a full, rewritten last block is
 the end of the file, not its old end

---
 tpie/compressed/stream_base.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 5399c72..6b69341 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1185,13 +1185,16 @@ stream_position compressed_stream_base::get_position() {
 	case seek_state::beginning:
 		return stream_position(0, 0);
 	case seek_state::none:
-		if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
+		// A full dirty block ends the stream: m_nextReadOffset is either
+		// unknown (new block) or out of date (last block being rewritten).
+		if (m_p->buffer_block_number() != m_p->m_streamBlocks
+			&& !(m_nextItem == m_bufferEnd && m_p->m_bufferDirty)) {
 			if (m_nextItem == m_bufferEnd)
 				return stream_position(m_p->m_nextReadOffset, m_offset);
 			else
 				return stream_position(m_p->m_readOffset, m_offset);
 		}
-		// We are in a new block at the end of the stream.
+		// We are in a new or rewritten block at the end of the stream.
 		if (m_nextItem == m_bufferEnd) {
 			tp_assert(m_p->m_bufferDirty, "At end of buffer, but bufferDirty is false?");
 			// Make sure the position we get is not at the end of a block
-- 
2.43.0


From 4cc2ebf724485cf46ac40bfd7fc44dc4e79a413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:22 +0000
Subject: [PATCH 61/72] fix: blocks that truncate drops from a compressed
 stream are not written afterwards

---
 tpie/compressed/stream_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 6b69341..18ee17e 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -508,6 +508,8 @@ public:
 	
 		// We are truncating into the currently loaded block.
 		if (buffer_block_number() < m_streamBlocks) {
+			// Blocks that are dropped must not be written afterwards.
+			wait_for_requests();
 			m_streamBlocks = buffer_block_number() + 1;
 			m_lastBlockReadOffset = pos.read_offset();
 			m_currentFileSize = std::numeric_limits<stream_size_type>::max();
-- 
2.43.0


From 74c329d7f0f6bc9d7f84381a50c5bf4d655316c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:22 +0000
Subject: [PATCH 62/72] fix: the next item after truncating within a block of a
 compressed stream is in the buffer

---
 tpie/compressed/stream_base.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 18ee17e..c27534e 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -507,10 +507,11 @@ public:
 		}
 	
 		// We are truncating into the currently loaded block.
-		if (buffer_block_number() < m_streamBlocks) {
+		const stream_size_type bufferBlock = buffer_block_number();
+		if (bufferBlock < m_streamBlocks) {
 			// Blocks that are dropped must not be written afterwards.
 			wait_for_requests();
-			m_streamBlocks = buffer_block_number() + 1;
+			m_streamBlocks = bufferBlock + 1;
 			m_lastBlockReadOffset = pos.read_offset();
 			m_currentFileSize = std::numeric_limits<stream_size_type>::max();
 			compressor_thread_lock l(compressor());
@@ -521,7 +522,7 @@ public:
 		if (offset < m_o->m_offset) {
 			m_o->m_offset = offset;
 			memory_size_type blockItemIndex =
-				static_cast<memory_size_type>(offset - m_streamBlocks * m_blockItems);
+				static_cast<memory_size_type>(offset - bufferBlock * m_blockItems);
 			m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * blockItemIndex;
 		}
 		m_bufferDirty = true;
-- 
2.43.0


From fd002a680037957816e1ccb8cee1239d1255df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:22 +0000
Subject: [PATCH 63/72] fix: truncating a compressed stream to a block boundary
 leaves no empty last block

---
 tpie/compressed/stream_base.cpp | 43 +++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index c27534e..e3d7aac 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -495,11 +495,54 @@ public:
 		m_o->seek(std::min(currentOffset, offset));
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Truncate to the end of a block.
+	///
+	/// The stream must not end with an empty block.
+	///////////////////////////////////////////////////////////////////////////
+	void truncate_compressed_at_block(const stream_position & pos) {
+		stream_size_type offset = pos.offset();
+		if (m_buffer.get() != 0
+			&& buffer_block_number() == m_streamBlocks
+			&& block_number(offset) == m_streamBlocks)
+		{
+			// We are dropping a final block that has not been written yet.
+			m_o->m_nextItem = m_o->m_bufferBegin;
+			m_readOffset = pos.read_offset();
+			m_updateReadOffsetFromWrite = false;
+			m_o->m_offset = m_o->m_size = offset;
+			m_o->m_seekState = compressed_stream_base::seek_state::none;
+			m_bufferDirty = false;
+			return;
+		}
+
+		// Load the block before, which becomes the last one.
+		m_nextPosition = pos;
+		m_o->m_seekState = compressed_stream_base::seek_state::position;
+		perform_seek(read_direction::backward);
+		wait_for_requests();
+		m_byteStreamAccessor.truncate_bytes(pos.read_offset());
+		update_recorded_size();
+		m_response.clear_block_info();
+		m_streamBlocks = block_number(offset);
+		m_lastBlockReadOffset = m_readOffset;
+		m_currentFileSize = pos.read_offset();
+		m_o->m_size = offset;
+	}
+
 	void truncate_compressed(const stream_position & pos) {
 		tp_assert(use_compression(), "truncate_compressed called on uncompressed stream");
 	
 		stream_size_type offset = pos.offset();
+		if (offset > m_o->size())
+			throw stream_exception("truncate: Invalid position, offset > size");
 		stream_position finalDestination = (offset < m_o->offset()) ? pos : m_o->get_position();
+
+		if (block_item_index(offset) == 0) {
+			truncate_compressed_at_block(pos);
+			m_o->set_position(finalDestination);
+			return;
+		}
 	
 		if (m_buffer.get() == 0 || block_number(offset) != buffer_block_number()) {
 			m_o->set_position(pos);
-- 
2.43.0


From 008536d6d8b38062243fe3caf7ee02c2063ce6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:56 +0000
Subject: [PATCH 64/72] fix: ami::stream::read_array tells how many items were
 read

---
 tpie/stream.h     | 4 +++-
 tpie/stream_old.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tpie/stream.h b/tpie/stream.h
index facb3b1..817b1e3 100644
--- a/tpie/stream.h
+++ b/tpie/stream.h
@@ -112,7 +112,9 @@ public:
 			static_cast<stream_size_type>(len),
 			static_cast<stream_size_type>(m_stream.size() - m_stream.offset())));
 		m_stream.read(mm_space, mm_space+l);
-		return (l == len)?NO_ERROR:END_OF_STREAM;
+		err e = (l == len)?NO_ERROR:END_OF_STREAM;
+		len = l;
+		return e;
 	}
 
 	err write_array(const T *mm_space, memory_size_type len) {
diff --git a/tpie/stream_old.h b/tpie/stream_old.h
index eda84ac..e948a08 100644
--- a/tpie/stream_old.h
+++ b/tpie/stream_old.h
@@ -499,7 +499,9 @@ memory_size_type stream_old<T>::memory_usage(memory_size_type count) {
 			static_cast<stream_size_type>(len), 
 			static_cast<stream_size_type>(m_stream.size() - m_stream.offset())));
 		m_stream.read(mm_space, mm_space+l);
-		return (l == len)?NO_ERROR:END_OF_STREAM;
+		err e = (l == len)?NO_ERROR:END_OF_STREAM;
+		len = l;
+		return e;
 	}
 
 	template<class T>
-- 
2.43.0


From f5eadadce80922eee028801026c9070f4992bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:17 +0000
Subject: [PATCH 65/72] fix: ami::stream::sprint describes the stream, not only
 its first word

---
 tpie/stream.h     | 2 +-
 tpie/stream_old.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/stream.h b/tpie/stream.h
index 817b1e3..8e3d172 100644
--- a/tpie/stream.h
+++ b/tpie/stream.h
@@ -205,7 +205,7 @@ public:
 		static std::string buf;
 		std::stringstream ss;
 		ss << "STREAM " << name() <<  " " << static_cast<long>(stream_len());
-		ss >> buf;
+		buf = ss.str();
 		return buf;
 	}
 
diff --git a/tpie/stream_old.h b/tpie/stream_old.h
index e948a08..81eecd5 100644
--- a/tpie/stream_old.h
+++ b/tpie/stream_old.h
@@ -515,7 +515,7 @@ memory_size_type stream_old<T>::memory_usage(memory_size_type count) {
 	    static std::string buf;
 		std::stringstream ss;
 		ss << "STREAM " << name() <<  " " << static_cast<long>(stream_len());
-		ss >> buf;
+		buf = ss.str();
 	    return buf;
 	}
 
-- 
2.43.0


From 0162f2324bd5c86467a87e6b9bea0872b5b6572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:17 +0000
Subject: [PATCH 66/72] fix: ami_pull_input_stack pulls from an ami::stack

---
 tpie/pipelining/ami_glue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/ami_glue.h b/tpie/pipelining/ami_glue.h
index 8d45d70..83615a1 100644
--- a/tpie/pipelining/ami_glue.h
+++ b/tpie/pipelining/ami_glue.h
@@ -157,9 +157,9 @@ ami_input_stack(tpie::ami::stack<T> & input) {
 /// \param fs The ami::stack from which it reads items.
 ///////////////////////////////////////////////////////////////////////////////
 template<typename T>
-inline pullpipe_begin<termfactory<bits::pull_input_t<T>, tpie::ami::stack<T> &> > 
+inline pullpipe_begin<termfactory<bits::ami_pull_input_stack_t<T>, tpie::ami::stack<T> &> > 
 ami_pull_input_stack(tpie::ami::stack<T> & fs) {
-	return termfactory<bits::pull_input_t<T>, tpie::ami::stack<T> &>(fs);
+	return termfactory<bits::ami_pull_input_stack_t<T>, tpie::ami::stack<T> &>(fs);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 92b3f97dddb5383786548636b6a1e8ecbd1ba38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:03 +0000
Subject: [PATCH 67/72] fix: a value forwarded from a pipe reaches all nodes of
 the pipe

factory_base::init_common moved the value into the first node that the
factory initializes, and attached an empty value to the other nodes, so
sort().forward(...) and parallel(...).forward(...) made fetch() throw.
---
 tpie/pipelining/factory_base.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/factory_base.cpp b/tpie/pipelining/factory_base.cpp
index cf38d50..2b301d5 100644
--- a/tpie/pipelining/factory_base.cpp
+++ b/tpie/pipelining/factory_base.cpp
@@ -141,7 +141,16 @@ void factory_base::init_common(node & r) {
 	auto nodeMap = r.get_node_map()->find_authority();
 
 	for (auto &p : m_forwards) {
-		nodeMap->forward_from_pipe_base(r.get_id(), p.first, std::move(p.second));
+		// init_common is called for each of the nodes constructed by the factory,
+		// so the value must be kept for the next node, if it can be copied.
+		if (!p.second) continue;
+		any_noncopyable value;
+		try {
+			value = p.second.copy();
+		} catch (const bad_any_noncopyable_copy &) {
+			value = std::move(p.second);
+		}
+		nodeMap->forward_from_pipe_base(r.get_id(), p.first, std::move(value));
 	}
 }
 
-- 
2.43.0


From 0d1b7e43a3e65f05d94373568f9db24b286e6bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:44 +0000
Subject: [PATCH 68/72] fix: names, forwarded values and node sets attached to
 a buffer or reverser take effect

split_factory never initialized the nodes it constructs, so .name(),
.memory(), .forward(), .add_to_set() and .add_dependencies() on buffer(),
reverser() and the like were silently ignored.
---
 tpie/pipelining/factory_helpers.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tpie/pipelining/factory_helpers.h b/tpie/pipelining/factory_helpers.h
index 50c869d..1459f18 100644
--- a/tpie/pipelining/factory_helpers.h
+++ b/tpie/pipelining/factory_helpers.h
@@ -169,15 +169,21 @@ public:
 	using constructed_type = I<typename push_type<dest_t>::type>;
 
 	template <typename dest_t>
-	constructed_type<dest_t> construct(dest_t && dest) const {
+	constructed_type<dest_t> construct(dest_t && dest) {
 		node_token input_token;
 		typedef typename push_type<dest_t>::type item_type;
 		std::shared_ptr<OB> o = std::make_shared<O<dest_t> >(std::forward<dest_t>(dest), input_token);
-		return I<item_type>(input_token, std::move(o));
+		OB & output = *o;
+		I<item_type> input(input_token, std::move(o));
+		this->init_sub_node(output);
+		this->init_sub_node(input);
+		this->add_node_set_edges(output);
+		this->add_node_set_edges(input);
+		return input;
 	};
 
 	template <typename dest_t>
-	constructed_type<dest_t> construct_copy(dest_t && dest) const {
+	constructed_type<dest_t> construct_copy(dest_t && dest) {
 		return construct(std::forward<dest_t>(dest));
 	};
 };
-- 
2.43.0


From 81bf93ac943bc0d40a0fb523d0918403172c43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:29 +0000
Subject: [PATCH 69/72] fix: node sets attached to sort() and parallel() take
 effect

The factories of sort, serialization_sort, their passive forms and
parallel initialized their nodes but never added them to the node sets
or dependencies given with .add_to_set() and .add_dependencies(), which
were silently ignored.
---
 tpie/pipelining/parallel/factory.h   | 2 ++
 tpie/pipelining/serialization_sort.h | 6 ++++++
 tpie/pipelining/sort.h               | 6 ++++++
 3 files changed, 14 insertions(+)

diff --git a/tpie/pipelining/parallel/factory.h b/tpie/pipelining/parallel/factory.h
index 43015ce..dd7da3e 100644
--- a/tpie/pipelining/parallel/factory.h
+++ b/tpie/pipelining/parallel/factory.h
@@ -73,8 +73,10 @@ public:
 
 		consumer_t consumer(std::move(dest), st);
 		this->init_node(consumer);
+		this->add_node_set_edges(consumer);
 		producer_t producer(st, std::move(consumer));
 		this->init_node(producer);
+		this->add_node_set_edges(producer);
 		return producer;
 	}
 
diff --git a/tpie/pipelining/serialization_sort.h b/tpie/pipelining/serialization_sort.h
index 2cb9017..aa03df3 100644
--- a/tpie/pipelining/serialization_sort.h
+++ b/tpie/pipelining/serialization_sort.h
@@ -354,10 +354,13 @@ public:
 
 		sort_output_t<Traits, dest_t> output(std::move(dest), m_pred);
 		this->init_sub_node(output);
+		this->add_node_set_edges(output);
 		sort_calc_t<Traits> calc(std::move(output));
 		this->init_sub_node(calc);
+		this->add_node_set_edges(calc);
 		sort_input_t<Traits> input(std::move(calc));
 		this->init_sub_node(input);
+		this->add_node_set_edges(input);
 
 		return input;
 	}
@@ -406,8 +409,10 @@ public:
 	constructed_type construct() {
 		calc_t calc(std::move(m_sorter), m_calc_token);
 		this->init_node(calc);
+		this->add_node_set_edges(calc);
 		input_t input(std::move(calc));
 		this->init_node(input);
+		this->add_node_set_edges(input);
 		return input;
 	}
 
@@ -435,6 +440,7 @@ public:
 		constructed_type res(std::move(m_sorter));
 		res.add_calc_dependency(m_calc_token);
 		init_node(res);
+		add_node_set_edges(res);
 		return res;
 	}
 
diff --git a/tpie/pipelining/sort.h b/tpie/pipelining/sort.h
index c6b4a23..3c9ff53 100644
--- a/tpie/pipelining/sort.h
+++ b/tpie/pipelining/sort.h
@@ -405,10 +405,13 @@ public:
 				m_pred,
 				m_store));
 		this->init_sub_node(output);
+		this->add_node_set_edges(output);
 		sort_calc_t<item_type, pred_t, store_t> calc(std::move(output));
 		this->init_sub_node(calc);
+		this->add_node_set_edges(calc);
 		sort_input_t<item_type, pred_t, store_t> input(std::move(calc));
 		this->init_sub_node(input);
+		this->add_node_set_edges(input);
 		return input;
 	}
 
@@ -478,8 +481,10 @@ public:
 	constructed_type construct() {
 		calc_t calc(std::move(m_sorter), m_calc_token);
 		this->init_node(calc);
+		this->add_node_set_edges(calc);
 		input_t input(std::move(calc));
 		this->init_node(input);
+		this->add_node_set_edges(input);
 		return input;
 	}
 
@@ -507,6 +512,7 @@ public:
 		constructed_type res(std::move(m_sorter));
 		res.add_calc_dependency(m_calc_token);
 		init_node(res);
+		add_node_set_edges(res);
 		return res;
 	}
 private:
-- 
2.43.0


From b207fb71bb29190354ad963c75e1be57f9098738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:55 +0000
Subject: [PATCH 70/72] fix: file_log_target writes the whole message and
 nothing behind it

log() ignored the size it is given and wrote up to the first zero byte:
log_to_targets() on unterminated data read beyond its end, and text with
a zero byte was cut off.
---
 tpie/tpie_log.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpie/tpie_log.cpp b/tpie/tpie_log.cpp
index fd93c32..7ee65bf 100644
--- a/tpie/tpie_log.cpp
+++ b/tpie/tpie_log.cpp
@@ -32,16 +32,17 @@ tpie::file_log_target::file_log_target(log_level threshold): m_threshold(thresho
 	m_out.open(m_path.c_str(), std::ios::trunc | std::ios::out);
 }
 
-void tpie::file_log_target::log(log_level level, const char * message, size_t) {
+void tpie::file_log_target::log(log_level level, const char * message, size_t size) {
 	if (level > m_threshold) return;
 
 	if(LOG_DEBUG > level) { // print without indentation
-		m_out << message;
+		m_out.write(message, size);
 		m_out.flush();
 		return;
 	}
 
-	m_out << build_prefix(groups.size()) << " " << message;
+	m_out << build_prefix(groups.size()) << " ";
+	m_out.write(message, size);
 	m_out.flush();
 }
 
-- 
2.43.0


From 6dde8090807089a2bf58fb47653bcd71640d44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:55 +0000
Subject: [PATCH 71/72] fix: a log target added inside a log group survives the
 end of the group

end_group() took the top of an empty stack.
---
 tpie/tpie_log.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/tpie_log.cpp b/tpie/tpie_log.cpp
index 7ee65bf..73acbea 100644
--- a/tpie/tpie_log.cpp
+++ b/tpie/tpie_log.cpp
@@ -60,6 +60,7 @@ void tpie::file_log_target::begin_group(const std::string & name) {
 
 void tpie::file_log_target::end_group() {
 	if(LOG_DEBUG > m_threshold) return;
+	if(groups.empty()) return; // the group was entered before this target was added
 
 	m_out << build_prefix(groups.size()-1) << "x " << "Leaving " << groups.top() << std::endl;
 	groups.pop();
@@ -102,6 +103,7 @@ void tpie::stderr_log_target::begin_group(const std::string & name) {
 
 void tpie::stderr_log_target::end_group() {
 	if(LOG_DEBUG > m_threshold) return;
+	if(groups.empty()) return; // the group was entered before this target was added
 
 	std::string text = "Leaving " + groups.top() + "\n";
 	std::string prefix = build_prefix(groups.size()-1) + "x ";
-- 
2.43.0


From 9339cd115c2c53a303488af332364d738f9ea18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:54 +0000
Subject: [PATCH 72/72] fix: a progress indicator leaves its log group also in
 release builds

init() entered the log group in every build, done() left it only without
TPIE_NDEBUG: groups nested deeper and deeper.
---
 tpie/progress_indicator_subindicator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index 86310ef..cb3a192 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -163,10 +163,9 @@ void progress_indicator_subindicator::done() {
 	softassert(m_init_called);
 	softassert(!m_done_called);
 	m_done_called=true;
-
+#endif
 	if(m_logGroupMode == log_group_mode::enabled)
 		end_log_group();
-#endif
 	if (!m_crumb.empty() && m_parent) m_parent->pop_breadcrumb();
 	progress_indicator_base::done();
 	if (m_range == 0) m_range = 1; // Without any steps the work is still complete
-- 
2.43.0

