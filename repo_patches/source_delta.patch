From 5d08bf28ae612fc6bffc8b144c64e0b51a24daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 01/64] fix: exception specification of the containers' free
 swap()

---
 tpp/dense_map.hpp      | 4 ++--
 tpp/dense_multimap.hpp | 2 +-
 tpp/dense_multiset.hpp | 2 +-
 tpp/dense_set.hpp      | 4 ++--
 tpp/sparse_map.hpp     | 4 ++--
 tpp/sparse_set.hpp     | 4 ++--
 tpp/stable_map.hpp     | 4 ++--
 tpp/stable_set.hpp     | 4 ++--
 8 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index daeabe8..16e2510 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -622,7 +622,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1272,7 +1272,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 0f2e572..795d03d 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -456,7 +456,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename M, typename H, typename C, typename A>
-	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multimap<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index ce11f31..8bb8ff2 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -330,7 +330,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename H, typename C, typename A>
-	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multiset<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index b59cb2e..37a216d 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -331,7 +331,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -692,7 +692,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index 1a490d1..bd2968d 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -567,7 +567,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1162,7 +1162,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/sparse_set.hpp b/tpp/sparse_set.hpp
index 81be0b5..d730aca 100644
--- a/tpp/sparse_set.hpp
+++ b/tpp/sparse_set.hpp
@@ -303,7 +303,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	sparse_set(I, I, typename _detail::deduce_set_t<sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> sparse_set<Key, Hash, Cmp, Alloc>;
@@ -622,7 +622,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	ordered_sparse_set(I, I, typename _detail::deduce_set_t<ordered_sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> ordered_sparse_set<Key, Hash, Cmp, Alloc>;
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index c7dfeb0..8842d46 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -614,7 +614,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1256,7 +1256,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/stable_set.hpp b/tpp/stable_set.hpp
index ec64db6..711b810 100644
--- a/tpp/stable_set.hpp
+++ b/tpp/stable_set.hpp
@@ -317,7 +317,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -668,7 +668,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
-- 
2.43.0


From d76c80e90b380202059894c9aaf3c6d60c44044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 02/64] fix: emplace_hint() returns the iterator

---
 tpp/detail/dense_table.hpp | 2 +-
 tpp/detail/swiss_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 6e3b685..c3da2f9 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -401,7 +401,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 31d412d..c853846 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1025,7 +1025,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
-- 
2.43.0


From 856035af3a64c4041faf44765723cc7b2477cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 03/64] fix: emplace_or_replace() with a hint

---
 tpp/detail/dense_table.hpp | 2 +-
 tpp/detail/swiss_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index c3da2f9..89eec1d 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -411,7 +411,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename... Ks, typename... Args>
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index c853846..777b01b 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1035,7 +1035,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename U, typename... Args>
-- 
2.43.0


From 5aa1512c3e0cdcbf2b61a7526e359c2476823825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 04/64] fix: insertion of node handles with a hint

---
 tpp/detail/swiss_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 777b01b..e8ed4b2 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -973,7 +973,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 				return to_iter(target_pos);
 		}
@@ -1007,11 +1007,11 @@ namespace tpp::_detail
 			}
 		}
 		template<typename N>
-		iterator insert_or_assign_node(node_iterator hint, N &&node)
+		iterator insert_or_assign_node(const_iterator hint, N &&node)
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
-- 
2.43.0


From 24f6f9b3248ec3154d5c7bb7a65fea6c8acba674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 05/64] fix: swapping of ordered links that are adjacent or
 empty, or that are swapped within a table

---
 tpp/detail/table_common.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 20b3e50..394926a 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -164,16 +164,12 @@ namespace tpp::_detail
 
 		void swap(ordered_link &other) noexcept
 		{
-			std::swap(next, other.next);
-			std::swap(prev, other.prev);
-		}
-		friend void swap(ordered_link &a, ordered_link &b) noexcept
-		{
-			auto a_next = a.off(a.next), b_next = b.off(b.next);
-			auto a_prev = a.off(a.prev), b_prev = b.off(b.prev);
-			a.link(b_next, b_prev);
-			b.link(a_next, a_prev);
+			/* Offsets are relative to the link itself, so links must take each other's place within the list(s). */
+			auto tmp = std::move(other);
+			other = std::move(*this);
+			*this = std::move(tmp);
 		}
+		friend void swap(ordered_link &a, ordered_link &b) noexcept { a.swap(b); }
 
 		/* Offsets from `this` to next & previous links in bytes. */
 		std::ptrdiff_t next = 0; /* next_ptr - this */
-- 
2.43.0


From 0c20afb544a926284491fb8189a32b3dfff1f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:54 +0000
Subject: [PATCH 06/64] fix: try_emplace() of dense maps with a hint

---
 tpp/dense_map.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 16e2510..d384316 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -434,7 +434,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -446,7 +446,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -459,7 +459,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -471,7 +471,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1084,7 +1084,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1096,7 +1096,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1109,7 +1109,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1121,7 +1121,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-- 
2.43.0


From 63a18a1cc0eb0241d7ba0bf4b7de329c0e579109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:24 +0000
Subject: [PATCH 07/64] fix: erase() of a range

---
 tpp/detail/dense_table.hpp | 11 +++++++++--
 tpp/detail/swiss_table.hpp |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 89eec1d..21db7d5 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -434,8 +434,15 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
+			iterator result{to_underlying(last)};
+			if constexpr (is_ordered::value)
+			{
+				/* Ordered entries are moved by `erase`, which invalidates `last`. */
+				result = iterator{to_underlying(first)};
+				for (auto n = std::distance(first, last); n != 0; --n) result = erase(const_iterator{result});
+			}
+			else
+				while (last != first) result = erase(--last);
 			return result;
 		}
 
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index e8ed4b2..30187d7 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1069,8 +1069,8 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
+			iterator result{to_underlying(first)};
+			for (auto n = std::distance(first, last); n != 0; --n) result = erase(const_iterator{result});
 			return result;
 		}
 
-- 
2.43.0


From c6cbd6aeb29f43c17431c13977aacba0cfbe3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 08/64] fix: erase_if() of dense containers must not run past
 the end as elements are erased

---
 tpp/dense_map.hpp      | 4 ++--
 tpp/dense_multimap.hpp | 2 +-
 tpp/dense_multiset.hpp | 2 +-
 tpp/dense_set.hpp      | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index d384316..ddfd96e 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -630,7 +630,7 @@ namespace tpp
 	inline typename dense_map<K, M, H, C, A>::size_type erase_if(dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
@@ -1280,7 +1280,7 @@ namespace tpp
 	inline typename ordered_dense_map<K, M, H, C, A>::size_type erase_if(ordered_dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 795d03d..1cb1a92 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -464,7 +464,7 @@ namespace tpp
 	inline typename dense_multimap<Mk, M, H, C, A>::size_type erase_if(dense_multimap<Mk, M, H, C, A> &map, P pred)
 	{
 		typename dense_multimap<Mk, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index 8bb8ff2..a59b18b 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -338,7 +338,7 @@ namespace tpp
 	inline typename dense_multiset<Mk, H, C, A>::size_type erase_if(dense_multiset<Mk, H, C, A> &set, P pred)
 	{
 		typename dense_multiset<Mk, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index 37a216d..df08555 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -339,7 +339,7 @@ namespace tpp
 	inline typename dense_set<K, H, C, A>::size_type erase_if(dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
@@ -700,7 +700,7 @@ namespace tpp
 	inline typename ordered_dense_set<K, H, C, A>::size_type erase_if(ordered_dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
-- 
2.43.0


From 05d94462d7166fca9ccbb7d0f3eb5c286e678213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 09/64] fix: operator[] must not move from an lvalue key

---
 tpp/dense_map.hpp  | 8 ++++----
 tpp/sparse_map.hpp | 8 ++++----
 tpp/stable_map.hpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index ddfd96e..92fa84e 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -545,14 +545,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
@@ -1195,14 +1195,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index bd2968d..ebfc52e 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -514,14 +514,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1109,14 +1109,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index 8842d46..6025cf9 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -561,14 +561,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1203,14 +1203,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
-- 
2.43.0


From cb4459d20c681ea19e9a88c6cf8848d219d8ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:36 +0000
Subject: [PATCH 10/64] fix: erase() by key from a dense table without buckets

---
 tpp/detail/dense_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 21db7d5..ccdee38 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -746,7 +746,7 @@ namespace tpp::_detail
 		template<std::size_t J, typename T, std::size_t... Is>
 		iterator do_erase(std::index_sequence<Is...>, const T &key, std::size_t h)
 		{
-			for (auto *chain_idx = get_chain<J>(h); *chain_idx != npos;)
+			for (auto *chain_idx = get_chain<J>(h); chain_idx && *chain_idx != npos;)
 			{
 				const auto pos = *chain_idx;
 				auto node = m_dense + pos;
-- 
2.43.0


From f460475b809e0c46cfc09253edc3fe70f7e9654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 11/64] fix: erase() of entries with multiple keys

---
 tpp/detail/dense_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index ccdee38..4aa7ebd 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -735,7 +735,7 @@ namespace tpp::_detail
 			if (const auto end = end_node(); node == end)
 				return to_iter(end);
 
-			const auto slice = chain_slice{find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)...};
+			const auto slice = chain_slice{find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)...};
 			return erase_node<Is...>(pos, node, slice);
 		}
 		iterator do_erase(size_type pos, bucket_node *node)
@@ -754,7 +754,7 @@ namespace tpp::_detail
 				{
 					/* Grab other bucket indices that point to `pos`. */
 					chain_slice slice = {};
-					((slice[Is] = find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
+					((slice[Is] = find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
 					slice[J] = chain_idx;
 					return erase_node<J, Is...>(pos, node, slice);
 				}
-- 
2.43.0


From 4de552d9bc1d4a34ef5d1b23c18ab7d173abdebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:49 +0000
Subject: [PATCH 12/64] fix: erase() of ordered dense tables returns a valid
 iterator

---
 tpp/detail/dense_table.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 4aa7ebd..8c8db54 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -618,6 +618,10 @@ namespace tpp::_detail
 			{
 				(move_chain<Is>(end_pos, pos), ...);
 				node->move_from(m_dense[end_pos]);
+
+				/* The next ordered entry might have been the one that was moved. */
+				if constexpr (is_ordered::value)
+					if (next == to_address(m_dense + end_pos)) next = node;
 			}
 
 			pop_node();
-- 
2.43.0


From 82b3fa52374738a4822cf63293f3b8d5a24be3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:01 +0000
Subject: [PATCH 13/64] fix: insertion with a hint inserts before the hint

---
 tpp/detail/dense_table.hpp | 2 +-
 tpp/detail/swiss_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 8c8db54..c5659ac 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -586,7 +586,7 @@ namespace tpp::_detail
 		iterator commit_node(node_iterator hint, size_type pos, chain_slice slice, bucket_hash hashes, bucket_node *node)
 		{
 			/* Create the bucket and insertion order links. */
-			if constexpr (is_ordered::value) node->link(hint.link ? const_cast<bucket_link *>(hint.link) : back_node());
+			if constexpr (is_ordered::value) node->link(hint.link ? const_cast<bucket_link *>(hint.link->off(hint.link->prev)) : back_node());
 			((*slice[Is] = pos), ...); /* Node is always inserted at the end of the chain. */
 
 			((node->template hash<Is>() = hashes[Is]), ...);
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 30187d7..d550db6 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1257,7 +1257,7 @@ namespace tpp::_detail
 		{
 			if constexpr (is_ordered::value)
 			{
-				auto prev = hint.link ? const_cast<bucket_link *>(hint.link) : back_node();
+				auto prev = hint.link ? const_cast<bucket_link *>(hint.link->off(hint.link->prev)) : back_node();
 				node->link(prev);
 			}
 		}
-- 
2.43.0


From e39db67e0f99c64539715e12b6a9124ffcc1bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:06 +0000
Subject: [PATCH 14/64] fix: hints of dense tables must point to the same entry
 after the entries are relocated

---
 tpp/detail/dense_table.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index c5659ac..7a3b587 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -814,19 +814,29 @@ namespace tpp::_detail
 		{
 			if (m_dense_capacity == m_dense_size)
 			{
-				const auto old_dense = m_dense;
-				resize_data(m_dense_capacity ? m_dense_capacity * 2 : 1);
-
-				const auto off_bytes = (m_dense - old_dense) * sizeof(*m_dense);
+				const auto new_capacity = m_dense_capacity ? m_dense_capacity * 2 : 1;
 				if constexpr (is_ordered::value)
 				{
-					if (!hint.link) return;
-					hint.link += off_bytes / sizeof(bucket_link);
+					/* Header link is not a part of the dense buffer and thus is not relocated. */
+					if (!hint.link || hint.link == header_link())
+						resize_data(new_capacity);
+					else
+					{
+						const auto pos = &(*hint) - to_address(m_dense);
+						resize_data(new_capacity);
+						hint = node_iterator{to_address(m_dense + pos)};
+					}
 				}
 				else
 				{
-					if (!hint) return;
-					hint += off_bytes / sizeof(*m_dense);
+					if (!hint)
+						resize_data(new_capacity);
+					else
+					{
+						const auto pos = hint - m_dense;
+						resize_data(new_capacity);
+						hint = m_dense + pos;
+					}
 				}
 			}
 		}
-- 
2.43.0


From 72b99fcb909808d2281e06b0d74ff3f32b7ad1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:12 +0000
Subject: [PATCH 15/64] fix: dense tables must not keep an entry whose
 insertion failed with an exception

---
 tpp/detail/dense_table.hpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 7a3b587..3b4ae3f 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -556,9 +556,10 @@ namespace tpp::_detail
 		template<typename... Args>
 		auto push_node(Args &&...args) -> std::pair<size_type, bucket_node *>
 		{
-			const auto pos = m_dense_size++;
+			const auto pos = m_dense_size;
 			auto alloc = allocator_type{dense_alloc()};
 			m_dense[pos].construct(alloc, std::forward<Args>(args)...);
+			++m_dense_size;
 			return {pos, m_dense + pos};
 		}
 		void pop_node()
@@ -636,18 +637,27 @@ namespace tpp::_detail
 
 			/* Create a temporary object to check if it already exists within the table. */
 			const auto [pos, tmp] = push_node(std::forward<Args>(args)...);
-			const auto hs = bucket_hash{hash(tmp->template key<Is>())...};
-			const auto node_list = std::array{find_node<Is>(tmp->template key<Is>(), hs[Is])...};
-			for (auto [node, chain]: node_list)
-				if (chain && *chain != npos)
-				{
-					/* Found a conflict, return the existing node. */
-					pop_node();
-					return {to_iter(node), false};
-				}
+			try
+			{
+				const auto hs = bucket_hash{hash(tmp->template key<Is>())...};
+				const auto node_list = std::array{find_node<Is>(tmp->template key<Is>(), hs[Is])...};
+				for (auto [node, chain]: node_list)
+					if (chain && *chain != npos)
+					{
+						/* Found a conflict, return the existing node. */
+						pop_node();
+						return {to_iter(node), false};
+					}
 
-			/* No conflicts found, commit the node. */
-			return {commit_node<Is...>(hint, pos, {node_list[Is].second...}, hs, tmp), true};
+				/* No conflicts found, commit the node. */
+				return {commit_node<Is...>(hint, pos, {node_list[Is].second...}, hs, tmp), true};
+			}
+			catch (...)
+			{
+				/* The temporary node was not committed, it must not stay in the table. */
+				pop_node();
+				throw;
+			}
 		}
 		template<typename... Args>
 		std::pair<iterator, bool> do_emplace(node_iterator hint, Args &&...args)
-- 
2.43.0


From 2d2d87a30473b91760a0ad37dec95b03fd98a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:24 +0000
Subject: [PATCH 16/64] fix: dense tables must keep their buffer if
 reallocation of it fails

---
 tpp/detail/utility.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 83beb0f..6ad283a 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -234,8 +234,10 @@ namespace tpp::_detail
 	{
 		if (buff.second < new_size)
 		{
+			/* Allocate first, so that the old buffer is still valid if the allocation fails. */
+			const auto new_buff = std::allocator_traits<A>::allocate(alloc, new_size);
 			if (buff.first) std::allocator_traits<A>::deallocate(alloc, buff.first, buff.second);
-			buff.first = std::allocator_traits<A>::allocate(alloc, buff.second = new_size);
+			buff = {new_buff, new_size};
 		}
 		return buff;
 	}
-- 
2.43.0


From 7fa01cfb16adbd9bd8e4f88c184a173c2ba6a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 17/64] fix: reserve() and rehash() of dense tables must
 provide enough buckets

---
 tpp/detail/dense_table.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 3b4ae3f..53fd564 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -358,7 +358,7 @@ namespace tpp::_detail
 		void reserve(size_type n)
 		{
 			if (n > m_dense_capacity) resize_data(n);
-			rehash(static_cast<size_type>(static_cast<float>(n) / m_max_load_factor));
+			rehash(from_load_factor(n));
 		}
 
 		template<std::size_t J, typename T>
@@ -453,7 +453,7 @@ namespace tpp::_detail
 				return;
 
 			/* Adjust the capacity to be at least large enough to fit the current size. */
-			const auto new_cap = std::max(static_cast<size_type>(static_cast<float>(size()) / m_max_load_factor), n);
+			const auto new_cap = std::max(from_load_factor(size()), n);
 			if (!n || new_cap != m_sparse_size) do_rehash(new_cap);
 		}
 
@@ -486,6 +486,12 @@ namespace tpp::_detail
 
 	private:
 		[[nodiscard]] constexpr auto to_load_factor(size_type n) const noexcept { return static_cast<size_type>(static_cast<float>(n) * m_max_load_factor); }
+		/* Convert table size to minimum amount of buckets. */
+		[[nodiscard]] constexpr auto from_load_factor(size_type n) const noexcept
+		{
+			const auto result = static_cast<size_type>(static_cast<float>(n) / m_max_load_factor);
+			return to_load_factor(result) < n ? result + 1 : result;
+		}
 
 		[[nodiscard]] constexpr auto &sparse_alloc() noexcept { return sparse_alloc_base::value(); }
 		[[nodiscard]] constexpr auto &sparse_alloc() const noexcept { return sparse_alloc_base::value(); }
-- 
2.43.0


From f42ce6291534369e8669c38bcc5b44179d20c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 18/64] fix: failed construction of dense tables must not leak

---
 tpp/detail/dense_table.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 53fd564..27b84b6 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -219,7 +219,15 @@ namespace tpp::_detail
 			TPP_IF_LIKELY(bucket_count != 0)
 			{
 				m_dense = std::allocator_traits<dense_allocator>::allocate(dense_alloc(), m_dense_capacity = bucket_count);
-				m_sparse = std::allocator_traits<sparse_allocator>::allocate(sparse_alloc(), m_sparse_size = bucket_count);
+				try
+				{
+					m_sparse = std::allocator_traits<sparse_allocator>::allocate(sparse_alloc(), m_sparse_size = bucket_count);
+				}
+				catch (...)
+				{
+					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), m_dense, m_dense_capacity);
+					throw;
+				}
 				std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
 			}
 		}
@@ -227,12 +235,11 @@ namespace tpp::_detail
 		template<typename Iter>
 		dense_table(Iter first, Iter last, size_type bucket_count, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : dense_table(distance_or_n(first, last, bucket_count), hash, cmp, alloc) { insert(first, last); }
 
-		dense_table(const dense_table &other) : sparse_alloc_base(allocator_copy(other.sparse_alloc())), dense_alloc_base(allocator_copy(other.dense_alloc())), hash_base(other), cmp_base(other), link_base(other), m_max_load_factor(other.m_max_load_factor)
-		{
-			copy_data(other);
-		}
-		dense_table(const dense_table &other, const allocator_type &alloc) : sparse_alloc_base(alloc), dense_alloc_base(alloc), hash_base(other), cmp_base(other), link_base(other), m_max_load_factor(other.m_max_load_factor)
+		dense_table(const dense_table &other) : dense_table(other, allocator_type{allocator_copy(other.dense_alloc())}) {}
+		/* Delegate, so that the buffers & entries are destroyed if the copy fails with an exception. */
+		dense_table(const dense_table &other, const allocator_type &alloc) : dense_table(0, other.get_hash(), other.get_cmp(), alloc)
 		{
+			m_max_load_factor = other.m_max_load_factor;
 			copy_data(other);
 		}
 
-- 
2.43.0


From 97b8cebb5675ff139669d05da4849d02167c1ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 19/64] fix: assignment of dense tables must reset the buckets
 and the order of the replaced entries

---
 tpp/detail/dense_table.hpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 27b84b6..b262a64 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -244,12 +244,12 @@ namespace tpp::_detail
 		}
 
 		dense_table(dense_table &&other) noexcept(std::is_nothrow_move_constructible_v<sparse_allocator> && std::is_nothrow_move_constructible_v<dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: sparse_alloc_base(std::move(other)), dense_alloc_base(std::move(other)), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
+				: sparse_alloc_base(std::move(other)), dense_alloc_base(std::move(other)), hash_base(std::move(other)), cmp_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
 		{
 			move_from(other);
 		}
 		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
+				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
 		{
 			move_from(other);
 		}
@@ -258,12 +258,10 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(other);
+				clear();
 				hash_base::operator=(other);
 				cmp_base::operator=(other);
-
 				m_max_load_factor = other.m_max_load_factor;
-				clear_data();
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_copy_assignment::value)
 				{
@@ -276,7 +274,12 @@ namespace tpp::_detail
 					dense_alloc_base::operator=(other);
 				}
 
-				copy_data(other);
+				try { copy_data(other); }
+				catch (...)
+				{
+					clear();
+					throw;
+				}
 			}
 			return *this;
 		}
@@ -284,12 +287,10 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(std::move(other));
+				clear();
 				hash_base::operator=(std::move(other));
 				cmp_base::operator=(std::move(other));
-
 				m_max_load_factor = other.m_max_load_factor;
-				clear_data();
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value)
 				{
@@ -879,8 +880,8 @@ namespace tpp::_detail
 
 			/* (re)allocate the bucket & element buffers if needed. */
 			realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
-			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 
 			/* Copy & insert elements from the other table. */
 			auto alloc = allocator_type{dense_alloc()};
@@ -916,11 +917,14 @@ namespace tpp::_detail
 
 			/* (re)allocate the bucket & element buffers if needed. */
 			realloc_buffer(sparse_alloc(), m_sparse, m_sparse_size, other.m_sparse_size);
-			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
 			std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
+			realloc_buffer(dense_alloc(), m_dense, m_dense_capacity, other.m_dense_size);
+
+			/* Take the place of the other table's header link, entries are re-linked as they are moved. */
+			link_base::operator=(std::move(other));
 
 			/* Move & insert elements from the other table. */
-			auto alloc = allocator_type{dense_alloc()};
+			auto alloc = allocator_type{dense_alloc()}, other_alloc = allocator_type{other.dense_alloc()};
 			for (; m_dense_size < other.size(); ++m_dense_size)
 			{
 				auto &from = other.m_dense[m_dense_size];
@@ -951,7 +955,10 @@ namespace tpp::_detail
 		void move_from(dense_table &other)
 		{
 			if (allocator_eq(sparse_alloc(), other.sparse_alloc()) && allocator_eq(dense_alloc(), other.dense_alloc()))
+			{
+				link_base::operator=(std::move(other));
 				swap_buffers(other);
+			}
 			else
 				move_data(other);
 		}
-- 
2.43.0


From e6964e4c3decdd4ad6c7fa9075282cb71310c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 20/64] fix: dense tables must not deallocate buffers that were
 never allocated

---
 tpp/detail/dense_table.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index b262a64..ce681ee 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -265,12 +265,12 @@ namespace tpp::_detail
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_copy_assignment::value)
 				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+					if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
 					sparse_alloc_base::operator=(other);
 				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_copy_assignment::value)
 				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+					if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
 					dense_alloc_base::operator=(other);
 				}
 
@@ -294,12 +294,12 @@ namespace tpp::_detail
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value)
 				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+					if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
 					sparse_alloc_base::operator=(std::move(other));
 				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_move_assignment::value)
 				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+					if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
 					dense_alloc_base::operator=(std::move(other));
 				}
 
-- 
2.43.0


From 5f82a1c2f6e4ee355ec81eac0d21ed655d196084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:09 +0000
Subject: [PATCH 21/64] fix: dense tables must be valid after being moved from

---
 tpp/detail/dense_table.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index ce681ee..305c3a1 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -929,10 +929,11 @@ namespace tpp::_detail
 			{
 				auto &from = other.m_dense[m_dense_size];
 				auto &to = m_dense[m_dense_size];
-				to.relocate(alloc, alloc, from);
+				to.relocate(alloc, other_alloc, from);
 				(insert_node<Is>(to, m_dense_size), ...);
 			}
 			other.m_dense_size = 0;
+			std::fill_n(other.m_sparse, other.m_sparse_size, make_array<key_size>(npos));
 		}
 
 		void copy_data(const dense_table &other) { copy_data(std::make_index_sequence<key_size>{}, other); }
-- 
2.43.0


From 1cb67d05999485c51fa8745de52652521cb7f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 22/64] fix: exception specification of moves that might need
 to allocate

---
 tpp/detail/dense_table.hpp | 4 ++--
 tpp/detail/swiss_table.hpp | 4 ++--
 tpp/detail/utility.hpp     | 4 ++++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 305c3a1..70f0fc0 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -248,7 +248,7 @@ namespace tpp::_detail
 		{
 			move_from(other);
 		}
-		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
+		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
 		{
 			move_from(other);
@@ -283,7 +283,7 @@ namespace tpp::_detail
 			}
 			return *this;
 		}
-		dense_table &operator=(dense_table &&other) noexcept(std::is_nothrow_move_assignable_v<sparse_allocator> && std::is_nothrow_move_assignable_v<dense_allocator> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
+		dense_table &operator=(dense_table &&other) noexcept(is_nothrow_alloc_move_v<allocator_type> && std::is_nothrow_move_assignable_v<sparse_allocator> && std::is_nothrow_move_assignable_v<dense_allocator> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
 		{
 			if (this != &other)
 			{
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index d550db6..3f19667 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -850,7 +850,7 @@ namespace tpp::_detail
 
 		swiss_table(swiss_table &&other) noexcept(std::is_nothrow_move_constructible_v<buffer_type> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { move_from(other); }
-		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
+		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(alloc) { move_from(other); }
 
 		swiss_table &operator=(const swiss_table &other)
@@ -867,7 +867,7 @@ namespace tpp::_detail
 			}
 			return *this;
 		}
-		swiss_table &operator=(swiss_table &&other) noexcept(std::is_nothrow_move_assignable_v<buffer_type> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
+		swiss_table &operator=(swiss_table &&other) noexcept(is_nothrow_alloc_move_v<allocator_type> && std::is_nothrow_move_assignable_v<buffer_type> && std::is_nothrow_move_assignable_v<hasher> && std::is_nothrow_move_assignable_v<key_equal>)
 		{
 			if (this != &other)
 			{
diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 6ad283a..a893de8 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -214,6 +214,10 @@ namespace tpp::_detail
 		else
 			return true;
 	}
+	/* Elements are never moved to new memory on assignment if the allocator is propagated or is always equal. */
+	template<typename Alloc>
+	inline constexpr bool is_nothrow_alloc_move_v = std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value || std::allocator_traits<Alloc>::is_always_equal::value;
+
 	template<typename Alloc>
 	[[nodiscard]] inline auto allocator_copy(const Alloc &alloc) { return std::allocator_traits<Alloc>::select_on_container_copy_construction(alloc); }
 
-- 
2.43.0


From 8caf28703ee2ba2ca2764c35c70dcc97879c88d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:26 +0000
Subject: [PATCH 23/64] fix: failed replacement of a mapped value must not
 destroy the old value

---
 tpp/detail/table_common.hpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 394926a..7e6ec4a 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -245,12 +245,21 @@ namespace tpp::_detail
 		{
 			auto &target = mapped();
 			using mapped_t = std::remove_reference_t<decltype(target)>;
+			static_assert(std::is_constructible_v<mapped_t, Args...>);
 
-			if constexpr (!std::is_trivially_destructible_v<mapped_t>)
+			if constexpr (std::is_nothrow_move_constructible_v<mapped_t>)
+			{
+				/* Construct the new value first, so that the old one is left in place if that fails & may be referenced by the arguments. */
+				auto tmp = mapped_t(std::forward<Args>(args)...);
 				target.~mapped_t();
-
-			static_assert(std::is_constructible_v<mapped_t, Args...>);
-			new(&target) mapped_t(std::forward<Args>(args)...);
+				new(&target) mapped_t(std::move(tmp));
+			}
+			else
+			{
+				if constexpr (!std::is_trivially_destructible_v<mapped_t>)
+					target.~mapped_t();
+				new(&target) mapped_t(std::forward<Args>(args)...);
+			}
 		}
 		void destroy(A &alloc) { std::allocator_traits<allocator_type>::destroy(alloc, &value()); }
 
@@ -449,12 +458,21 @@ namespace tpp::_detail
 		{
 			auto &target = mapped();
 			using mapped_t = std::remove_reference_t<decltype(target)>;
+			static_assert(std::is_constructible_v<mapped_t, Args...>);
 
-			if constexpr (!std::is_trivially_destructible_v<mapped_t>)
+			if constexpr (std::is_nothrow_move_constructible_v<mapped_t>)
+			{
+				/* Construct the new value first, so that the old one is left in place if that fails & may be referenced by the arguments. */
+				auto tmp = mapped_t(std::forward<Args>(args)...);
 				target.~mapped_t();
-
-			static_assert(std::is_constructible_v<mapped_t, Args...>);
-			new(&target) mapped_t(std::forward<Args>(args)...);
+				new(&target) mapped_t(std::move(tmp));
+			}
+			else
+			{
+				if constexpr (!std::is_trivially_destructible_v<mapped_t>)
+					target.~mapped_t();
+				new(&target) mapped_t(std::forward<Args>(args)...);
+			}
 		}
 		void destroy(A &alloc)
 		{
-- 
2.43.0


From b2b0c9190ac8e5b7cc4d107f4131aae90624a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 24/64] fix: build without SIMD

---
 tpp/detail/swiss_table.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 3f19667..2da10ed 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -322,12 +322,8 @@ namespace tpp::_detail
 	std::size_t meta_block::count_available() const noexcept
 	{
 		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
-	}
-	std::size_t meta_block::count_available() const noexcept
-	{
-		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
+		const auto mask = (value | ~(value >> 7)) & lsb_mask;
+		return mask ? ctz(mask) >> 3 : sizeof(value);
 	}
 	meta_block meta_block::reset_occupied() const noexcept
 	{
-- 
2.43.0


From 63d578d3c8c904d381fe0f9dc9f2c952ba1d8f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 25/64] fix: construction of swiss tables with any number of
 buckets

---
 tpp/detail/swiss_table.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 2da10ed..cc8c666 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -507,6 +507,9 @@ namespace tpp::_detail
 		template<typename Alloc>
 		swiss_table_buffer(size_type capacity, const Alloc &alloc) : meta_alloc_base(alloc), node_alloc_base(alloc)
 		{
+			/* Nothing to allocate for an empty buffer. */
+			if (capacity == 0) return;
+
 			allocate(capacity);
 			fill_empty();
 		}
@@ -665,6 +668,9 @@ namespace tpp::_detail
 		template<typename Alloc>
 		swiss_table_buffer(size_type capacity, const Alloc &alloc) : empty_base<NodeAlloc>(alloc)
 		{
+			/* Nothing to allocate for an empty buffer. */
+			if (capacity == 0) return;
+
 			allocate(capacity);
 			fill_empty();
 		}
@@ -832,10 +838,9 @@ namespace tpp::_detail
 		swiss_table() = default;
 
 		swiss_table(const allocator_type &alloc) : m_buffer(alloc) {}
-		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(n, alloc)
+		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(n ? align_capacity(n) : 0, alloc)
 		{
-			TPP_ASSERT(((n + 1) & n) == 0, "Capacity must be a power of 2 - 1");
-			m_num_empty = capacity_to_max_size(n);
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
 		}
 
 		template<typename Iter>
-- 
2.43.0


From 33e445d73b8f38d2a9c17343d76b4e75789914a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 26/64] fix: swiss tables must not deallocate buffers that were
 never allocated

---
 tpp/detail/swiss_table.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index cc8c666..169d6fe 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -473,12 +473,12 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
+				if (m_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
+				if (m_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
@@ -489,12 +489,12 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
+				if (m_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
+				if (m_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
@@ -540,7 +540,7 @@ namespace tpp::_detail
 				throw;
 			}
 
-			if (capacity != 0)
+			if (n != 0)
 			{
 				relocate(tmp_metadata, tmp_nodes, n);
 				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), tmp_metadata, n + sizeof(meta_block));
@@ -570,6 +570,7 @@ namespace tpp::_detail
 		}
 		void deallocate()
 		{
+			if (capacity == 0) return;
 			std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
 			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
 			m_metadata = {};
@@ -644,7 +645,7 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				if (m_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 				empty_base<NodeAlloc>::operator=(other);
 				capacity = 0;
 				m_data = {};
@@ -655,7 +656,7 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				if (m_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 				empty_base<NodeAlloc>::operator=(other);
 				capacity = 0;
 				m_data = {};
@@ -690,8 +691,11 @@ namespace tpp::_detail
 			std::swap(tmp_data, m_data);
 			std::swap(n, capacity);
 
-			relocate(old_meta, old_nodes, n);
-			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
+			if (n != 0)
+			{
+				relocate(old_meta, old_nodes, n);
+				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
+			}
 		}
 
 		void allocate(size_type n)
@@ -710,6 +714,7 @@ namespace tpp::_detail
 		}
 		void deallocate()
 		{
+			if (capacity == 0) return;
 			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 			capacity = 0;
 			m_data = {};
-- 
2.43.0


From 575fa49ed0f45f02950ce053c47a3d1ca9256aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 27/64] fix: failed allocation of swiss table buffers must not
 leak

---
 tpp/detail/swiss_table.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 169d6fe..337e230 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -551,7 +551,15 @@ namespace tpp::_detail
 		void allocate(size_type n)
 		{
 			m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
-			m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
+			try
+			{
+				m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
+			}
+			catch (...)
+			{
+				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), n + sizeof(meta_block));
+				throw;
+			}
 			capacity = n;
 		}
 		void reallocate(size_type n)
-- 
2.43.0


From aa04336733c4489423e9c251b530ba17d1acd0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 28/64] fix: swiss tables must have the same capacity as the
 table whose entries are copied

---
 tpp/detail/swiss_table.hpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 337e230..1973a0f 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -564,16 +564,13 @@ namespace tpp::_detail
 		}
 		void reallocate(size_type n)
 		{
-			if (capacity < n)
+			/* Entries keep their position, so the capacity must be exactly the same. */
+			if (capacity != n)
 			{
-				if (capacity != 0)
-				{
-					std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
-					std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
-				}
-				m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
-				m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
-				capacity = n;
+				/* Allocate first, so that the old buffers are still valid if the allocation fails. */
+				auto tmp = swiss_table_buffer(n, node_alloc());
+				swap_data(tmp);
+				tmp.deallocate();
 			}
 		}
 		void deallocate()
@@ -713,11 +710,13 @@ namespace tpp::_detail
 		}
 		void reallocate(size_type n)
 		{
-			if (capacity < n)
+			/* Entries keep their position, so the capacity must be exactly the same. */
+			if (capacity != n)
 			{
-				if (capacity) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
-				m_data = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), buffer_size(n));
-				capacity = n;
+				/* Allocate first, so that the old buffer is still valid if the allocation fails. */
+				auto tmp = swiss_table_buffer(n, node_alloc());
+				swap_data(tmp);
+				tmp.deallocate();
 			}
 		}
 		void deallocate()
-- 
2.43.0


From 86836033cf608056d39b123d4e5f30b6ec6f3ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 29/64] fix: copies of swiss tables

---
 tpp/detail/swiss_table.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 1973a0f..433c24e 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -858,8 +858,9 @@ namespace tpp::_detail
 		template<typename Iter>
 		swiss_table(Iter first, Iter last, size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : swiss_table(distance_or_n(first, last, n), hash, cmp, alloc) { insert(first, last); }
 
-		swiss_table(const swiss_table &other) : hash_base(other), cmp_base(other), link_base(), m_buffer(other.m_buffer) { copy_data(other); }
-		swiss_table(const swiss_table &other, const allocator_type &alloc) : hash_base(other), cmp_base(other), link_base(), m_buffer(alloc) { copy_data(other); }
+		swiss_table(const swiss_table &other) : swiss_table(other, allocator_type{allocator_copy(other.get_allocator())}) {}
+		/* Delegate, so that the buffers & entries are destroyed if the copy fails with an exception. */
+		swiss_table(const swiss_table &other, const allocator_type &alloc) : swiss_table(0, other.get_hash(), other.get_cmp(), alloc) { copy_data(other); }
 
 		swiss_table(swiss_table &&other) noexcept(std::is_nothrow_move_constructible_v<buffer_type> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { move_from(other); }
@@ -870,13 +871,18 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(other);
+				clear();
 				hash_base::operator=(other);
 				cmp_base::operator=(other);
 
-				erase_nodes();
 				m_buffer = other.m_buffer;
-				copy_data(other);
+				if (m_buffer.capacity == 0) m_num_empty = 0;
+				try { copy_data(other); }
+				catch (...)
+				{
+					clear();
+					throw;
+				}
 			}
 			return *this;
 		}
@@ -1466,13 +1472,15 @@ namespace tpp::_detail
 			/* Ignore empty tables. */
 			TPP_IF_UNLIKELY(other.m_size == 0)
 			{
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
+				if (m_buffer.capacity) m_buffer.fill_empty();
+				m_num_empty = capacity_to_max_size(m_buffer.capacity);
 				return;
 			}
 
 			/* (re)allocate the metadata & node buffers if needed. */
 			m_buffer.reallocate(other.m_buffer.capacity);
 			m_buffer.fill_empty();
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
 
 			/* Copy elements from the other table. */
 			auto alloc = value_allocator{get_allocator()};
@@ -1483,9 +1491,9 @@ namespace tpp::_detail
 				{
 					nodes[i].construct(alloc, other_nodes[i]);
 					set_metadata(i, other_metadata[i]);
+					--m_num_empty;
+					++m_size;
 				}
-			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
 
 			/* If the node link is ordered, update header offsets to point to the copied data. */
 			if constexpr (is_ordered::value)
-- 
2.43.0


From 8e674e73874a939dac19ae71f6f661916830a377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 30/64] fix: swiss tables must be valid after being moved from,
 and must own the entries moved to them

---
 tpp/detail/swiss_table.hpp  | 55 +++++++++++++++++++++++++++----------
 tpp/detail/table_common.hpp | 16 ++++++++++-
 2 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 433c24e..bc3f3b5 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -863,9 +863,17 @@ namespace tpp::_detail
 		swiss_table(const swiss_table &other, const allocator_type &alloc) : swiss_table(0, other.get_hash(), other.get_cmp(), alloc) { copy_data(other); }
 
 		swiss_table(swiss_table &&other) noexcept(std::is_nothrow_move_constructible_v<buffer_type> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), m_buffer(std::move(other.m_buffer)) { move_from(other); }
 		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
-				: hash_base(std::move(other)), cmp_base(std::move(other)), link_base(std::move(other)), m_buffer(alloc) { move_from(other); }
+				: hash_base(std::move(other)), cmp_base(std::move(other)), m_buffer(alloc)
+		{
+			try { move_from(other); }
+			catch (...)
+			{
+				m_buffer.deallocate();
+				throw;
+			}
+		}
 
 		swiss_table &operator=(const swiss_table &other)
 		{
@@ -890,12 +898,12 @@ namespace tpp::_detail
 		{
 			if (this != &other)
 			{
-				link_base::operator=(std::move(other));
+				clear();
 				hash_base::operator=(std::move(other));
 				cmp_base::operator=(std::move(other));
 
-				erase_nodes();
 				m_buffer = std::move(other.m_buffer);
+				if (m_buffer.capacity == 0) m_num_empty = 0;
 				move_from(other);
 			}
 			return *this;
@@ -1512,28 +1520,42 @@ namespace tpp::_detail
 			/* Ignore empty tables. */
 			TPP_IF_UNLIKELY(other.m_size == 0)
 			{
-				m_size = 0;
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
+				if (m_buffer.capacity) m_buffer.fill_empty();
+				m_num_empty = capacity_to_max_size(m_buffer.capacity);
 				return;
 			}
 
 			/* (re)allocate the metadata & node buffers if needed. */
 			m_buffer.reallocate(other.m_buffer.capacity);
 			m_buffer.fill_empty();
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
+
+			/* Take the place of the other table's header link, entries are re-linked as they are moved. */
+			link_base::operator=(std::move(other));
 
 			/* Move elements from the other table. */
 			auto alloc = value_allocator{get_allocator()}, other_alloc = value_allocator{other.get_allocator()};
 			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
 			auto *other_metadata = other.m_buffer.meta();
-			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
-				if (is_occupied(other_metadata[i]))
-				{
-					auto *src_node = other_nodes + i, *dst_node = nodes + i;
-					dst_node->relocate(alloc, other_alloc, *src_node);
-					set_metadata(i, other_metadata[i]);
-				}
-			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
+			try
+			{
+				for (size_type i = 0; i != other.m_buffer.capacity; ++i)
+					if (is_occupied(other_metadata[i]))
+					{
+						auto *src_node = other_nodes + i, *dst_node = nodes + i;
+						dst_node->relocate(alloc, other_alloc, *src_node);
+						set_metadata(i, other_metadata[i]);
+						other.set_metadata(i, meta_byte::deleted);
+						--m_num_empty;
+						++m_size;
+					}
+			}
+			catch (...)
+			{
+				clear();
+				other.clear();
+				throw;
+			}
 
 			/* Reset the other table. */
 			other.m_size = 0;
@@ -1558,7 +1580,10 @@ namespace tpp::_detail
 		void move_from(swiss_table &other)
 		{
 			if (m_buffer.can_swap(other.m_buffer))
+			{
+				link_base::operator=(std::move(other));
 				swap_buffers(other);
+			}
 			else
 				move_data(other);
 		}
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 7e6ec4a..75ea642 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -445,7 +445,21 @@ namespace tpp::_detail
 		}
 
 		template<typename U>
-		void relocate(U &, U &, stable_node &other) { move_from(other); }
+		void relocate(U &alloc_dst, U &alloc_src, stable_node &other)
+		{
+			if (allocator_eq(alloc_dst, alloc_src))
+				move_from(other);
+			else
+			{
+				/* The value must be owned by the allocator of its table. */
+				auto conv_alloc_dst = allocator_type{alloc_dst};
+				auto conv_alloc_src = allocator_type{alloc_src};
+				construct(conv_alloc_dst, std::move(other.value()));
+				link_base::operator=(std::move(other));
+				m_hash = other.m_hash;
+				other.destroy(conv_alloc_src);
+			}
+		}
 
 		template<typename... Args, typename = std::enable_if_t<std::is_constructible_v<V, Args...>>>
 		void construct(allocator_type &alloc, Args &&...args)
-- 
2.43.0


From f75d94fd1479c2fb4873641ab0a01aa16ae119b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 31/64] fix: swap() of swiss tables must propagate the
 allocators

---
 tpp/detail/swiss_table.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index bc3f3b5..f3dcd26 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -597,6 +597,7 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<MetaAlloc> && std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_swap::value)
 				swap(meta_alloc(), other.meta_alloc());
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
@@ -740,6 +741,7 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
 			swap_data(other);
@@ -1169,7 +1171,10 @@ namespace tpp::_detail
 			link_base::swap(other);
 			hash_base::swap(other);
 			cmp_base::swap(other);
-			swap_buffers(other);
+
+			std::swap(m_size, other.m_size);
+			std::swap(m_num_empty, other.m_num_empty);
+			m_buffer.swap(other.m_buffer);
 		}
 
 	private:
-- 
2.43.0


From 4768f0c22af496f1d6975c6c52f6e1c167b84985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 32/64] fix: rehash() of swiss tables must keep enough buckets
 for the entries

---
 tpp/detail/swiss_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index f3dcd26..9400b55 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1155,7 +1155,7 @@ namespace tpp::_detail
 			/* Skip rehash if table is empty and requested size is 0. */
 			TPP_IF_UNLIKELY(!n && !m_size) return;
 
-			const auto new_cap = align_capacity(n | size_to_min_capacity(n));
+			const auto new_cap = align_capacity(n | size_to_min_capacity(std::max(n, m_size)));
 			if (!n || new_cap > m_buffer.capacity) do_rehash(new_cap);
 		}
 
-- 
2.43.0


From 57fedac0924f987060d74537cf6f312df5462e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 33/64] fix: hints of swiss tables must point to the same entry
 after the entries are relocated

---
 tpp/detail/swiss_table.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9400b55..5e6c1fe 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1285,6 +1285,26 @@ namespace tpp::_detail
 			metadata[pos] = value;
 		}
 
+		/* Convert insertion hint to its offset from the end & back, since entries are relocated on rehash. */
+		[[nodiscard]] size_type hint_to_offset(node_iterator hint) const noexcept
+		{
+			size_type off = 0;
+			if constexpr (is_ordered::value)
+				for (auto *link = hint.link; link && link != header_link(); link = link->off(link->next)) ++off;
+			return off;
+		}
+		[[nodiscard]] node_iterator offset_to_hint(size_type off) const noexcept
+		{
+			if constexpr (is_ordered::value)
+			{
+				auto *link = header_link();
+				for (; off != 0; --off) link = link->off(link->prev);
+				return node_iterator{static_cast<bucket_node *>(link)};
+			}
+			else
+				return {};
+		}
+
 		void insert_link(node_iterator hint, bucket_node *node) noexcept
 		{
 			if constexpr (is_ordered::value)
@@ -1310,10 +1330,12 @@ namespace tpp::_detail
 					 * https://github.com/abseil/abseil-cpp/blob/f7affaf32a6a396465507dd10520a3fe183d4e40/absl/container/internal/raw_hash_set.cc#L97
 					 *
 					 * NOTE: Reclaiming deleted entries may leave blocks partially empty. */
+					const auto hint_off = hint_to_offset(hint);
 					if (m_buffer.capacity > sizeof(meta_block) && static_cast<std::uint64_t>(m_size) * 32 <= static_cast<std::uint64_t>(m_buffer.capacity) * 25)
 						rehash_deleted();
 					else
 						do_rehash((m_buffer.capacity + 1) * 2 - 1);
+					hint = offset_to_hint(hint_off);
 					target_pos = find_available(h);
 				}
 			}
-- 
2.43.0


From 3bf28d1921ef6773a04af8e527b9dd5c1ab1ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 34/64] fix: merge() of ordered tables must transfer every
 entry, in order

---
 tpp/detail/swiss_table.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 5e6c1fe..d8598c9 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1128,17 +1128,14 @@ namespace tpp::_detail
 			reserve(m_size + other.size());
 
 			/* Extract nodes from other and insert into this. */
-			/* Iterate backwards for ordered links, since the ordered iterators are invalidated on erase. */
-			const auto transfer = [&](const const_iterator &pos) noexcept
+			/* Advance the iterator first, since the ordered iterators are invalidated on erase. */
+			const auto transfer = [&](const const_iterator &pos)
 			{
 				const auto &key = ValueTraits::get_key(*pos);
 				const auto h = hash(key);
 				if (find_node(key, h) == m_buffer.capacity) emplace_node({}, h, other.extract(pos));
 			};
-			if constexpr (!is_ordered::value)
-				for (auto pos = other.begin(), last = other.end(); pos != last; ++pos) transfer(pos);
-			else
-				for (auto pos = other.end(), last = other.begin(); --pos != last;) transfer(pos);
+			for (auto pos = other.begin(), last = other.end(); pos != last;) transfer(pos++);
 		}
 		template<typename Kh2, typename Kc2>
 		void merge(swiss_table<I, V, K, Kh2, Kc2, Alloc, ValueTraits> &&other) { merge(other); }
-- 
2.43.0


From 2a7d7012e20de9b06b335a62764338fcbffe39ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 35/64] fix: failed emplacement must not leak the temporary
 entry

---
 tpp/detail/swiss_table.hpp  | 14 +++++++++++---
 tpp/detail/table_common.hpp | 10 +++++++++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index d8598c9..0a0f3de 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1373,10 +1373,18 @@ namespace tpp::_detail
 			auto tmp = bucket_node{};
 
 			tmp.construct(alloc, std::forward<Args>(args)...);
-			auto result = do_insert(hint, tmp.key(), std::move(tmp));
-			tmp.destroy(alloc);
+			try
+			{
+				auto result = do_insert(hint, tmp.key(), std::move(tmp));
+				tmp.destroy(alloc);
 
-			return result;
+				return result;
+			}
+			catch (...)
+			{
+				tmp.destroy(alloc);
+				throw;
+			}
 		}
 		template<typename T, typename... Args>
 		std::pair<iterator, bool> do_try_emplace(node_iterator hint, T &&key, Args &&...args)
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 75ea642..b655b07 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -465,7 +465,15 @@ namespace tpp::_detail
 		void construct(allocator_type &alloc, Args &&...args)
 		{
 			m_ptr = std::allocator_traits<allocator_type>::allocate(alloc, 1);
-			std::allocator_traits<allocator_type>::construct(alloc, m_ptr, std::forward<Args>(args)...);
+			try
+			{
+				std::allocator_traits<allocator_type>::construct(alloc, m_ptr, std::forward<Args>(args)...);
+			}
+			catch (...)
+			{
+				std::allocator_traits<allocator_type>::deallocate(alloc, std::exchange(m_ptr, value_ptr{}), 1);
+				throw;
+			}
 		}
 		template<typename... Args>
 		void replace(Args &&...args)
-- 
2.43.0


From 0a9ec1912000a1e24825f70e8a55981c2dfca12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 36/64] fix: node handle must not be destroyed twice after its
 value was moved to another allocator

---
 tpp/detail/table_common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index b655b07..a9063bd 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -386,6 +386,7 @@ namespace tpp::_detail
 				{
 					std::allocator_traits<allocator_type>::destroy(alloc(), m_ptr);
 					std::allocator_traits<allocator_type>::deallocate(alloc(), m_ptr, 1);
+					m_ptr = value_ptr{};
 				}
 			}
 
-- 
2.43.0


From ce7640ea831d4e0028ae13fd7de1541ffb652c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:40 +0000
Subject: [PATCH 37/64] fix: failed replacement of a node must not destroy the
 old node

---
 tpp/detail/swiss_table.hpp  | 6 ++----
 tpp/detail/table_common.hpp | 8 ++++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 0a0f3de..b334241 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1030,8 +1030,7 @@ namespace tpp::_detail
 			{
 				auto alloc = value_allocator{get_allocator()};
 				auto &target = m_buffer.nodes()[target_pos];
-				target.destroy(alloc);
-				target.construct(alloc, std::forward<N>(node));
+				target.assign(alloc, std::forward<N>(node));
 				return {to_iter(target_pos), false};
 			}
 		}
@@ -1045,8 +1044,7 @@ namespace tpp::_detail
 			{
 				auto alloc = value_allocator{get_allocator()};
 				auto &target = m_buffer.nodes()[target_pos];
-				target.destroy(alloc);
-				target.construct(alloc, std::forward<N>(node));
+				target.assign(alloc, std::forward<N>(node));
 				return to_iter(target_pos);
 			}
 		}
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index a9063bd..538cc8a 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -438,6 +438,14 @@ namespace tpp::_detail
 				other.do_destroy();
 			}
 		}
+		/* Replaces the value, the old one is left in place if that fails. */
+		void assign(allocator_type &alloc, extracted_type &&other)
+		{
+			auto tmp = stable_node{};
+			tmp.construct(alloc, std::move(other));
+			destroy(alloc);
+			m_ptr = std::exchange(tmp.m_ptr, value_ptr{});
+		}
 		void move_from(stable_node &other)
 		{
 			link_base::operator=(std::move(other));
-- 
2.43.0


From 40e20535f5f0aebfc9da8c79f6a783ed4f6b4249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 38/64] fix: random access operators of iterators

---
 tpp/detail/table_common.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 538cc8a..808753b 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -648,14 +648,22 @@ namespace tpp::_detail
 	template<typename I, typename T>
 	struct random_access_iterator_base<I, T, std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, typename T::iterator_category>>>
 	{
-		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept { return iter() += n; }
-		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept { return iter() -= n; }
+		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() += n;
+			return static_cast<I &>(*this);
+		}
+		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() -= n;
+			return static_cast<I &>(*this);
+		}
 
 		[[nodiscard]] constexpr I operator+(typename iter_diff<T>::type n) const noexcept { return I{iter() + n}; }
 		[[nodiscard]] constexpr I operator-(typename iter_diff<T>::type n) const noexcept { return I{iter() - n}; }
 		[[nodiscard]] constexpr typename iter_diff<T>::type operator-(const I &other) const noexcept { return iter() - other.m_iter; }
 
-		[[nodiscard]] constexpr auto &operator[](typename iter_diff<T>::type i) const noexcept { return *operator+(i); }
+		[[nodiscard]] constexpr decltype(auto) operator[](typename iter_diff<T>::type i) const noexcept { return *operator+(i); }
 
 	private:
 		[[nodiscard]] constexpr auto &iter() noexcept { return static_cast<I *>(this)->m_iter; }
-- 
2.43.0


From 6e825770d753fa9355ffc3c99b7eb6234eab5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 39/64] fix: moved node handles must take the allocator of the
 other handle

---
 tpp/detail/table_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 808753b..51f84ea 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -332,7 +332,7 @@ namespace tpp::_detail
 		public:
 			constexpr extracted_type() noexcept = default;
 
-			extracted_type(extracted_type &&other) noexcept : alloc_base(std::move(other)), m_ptr(std::exchange(other.m_ptr, {})) { assert_alloc(other); }
+			extracted_type(extracted_type &&other) noexcept : alloc_base(std::move(other.alloc())), m_ptr(std::exchange(other.m_ptr, {})) { assert_alloc(other); }
 			extracted_type(allocator_type &&alloc, stable_node &&other) noexcept : alloc_base(std::move(alloc)), m_ptr(std::exchange(other.m_ptr, {})) {}
 
 			extracted_type &operator=(extracted_type &&other) noexcept
-- 
2.43.0


From 0fc43eb91f7fe8d75ab678dd57b49e55295edc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 40/64] fix: copies of swiss tables must keep the probe
 sequences of the elements intact

---
 tpp/detail/swiss_table.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index b334241..a9392ae 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1532,6 +1532,12 @@ namespace tpp::_detail
 					--m_num_empty;
 					++m_size;
 				}
+				else if (other_metadata[i] == meta_byte::deleted)
+				{
+					/* Probes for the copied elements must not stop at deleted entries. */
+					set_metadata(i, meta_byte::deleted);
+					--m_num_empty;
+				}
 
 			/* If the node link is ordered, update header offsets to point to the copied data. */
 			if constexpr (is_ordered::value)
@@ -1579,6 +1585,12 @@ namespace tpp::_detail
 						--m_num_empty;
 						++m_size;
 					}
+					else if (other_metadata[i] == meta_byte::deleted)
+					{
+						/* Probes for the moved elements must not stop at deleted entries. */
+						set_metadata(i, meta_byte::deleted);
+						--m_num_empty;
+					}
 			}
 			catch (...)
 			{
-- 
2.43.0


From e66d527495a3380959b162552c33d1a129dd064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 41/64] fix: max_size() of dense tables must not overflow

---
 tpp/detail/dense_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 70f0fc0..a912538 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -339,7 +339,7 @@ namespace tpp::_detail
 		[[nodiscard]] const_reference back() const noexcept { return *to_iter(back_node()); }
 
 		[[nodiscard]] constexpr size_type size() const noexcept { return m_dense_size; }
-		[[nodiscard]] constexpr size_type max_size() const noexcept { return to_load_factor(max_bucket_count()); }
+		[[nodiscard]] constexpr size_type max_size() const noexcept { return max_load_factor() < 1.0f ? to_load_factor(max_bucket_count()) : max_bucket_count(); }
 		[[nodiscard]] constexpr size_type capacity() const noexcept { return to_load_factor(bucket_count()); }
 		[[nodiscard]] constexpr float load_factor() const noexcept { return static_cast<float>(size()) / static_cast<float>(bucket_count()); }
 
-- 
2.43.0


From 829d3463128b5ba7d9b0b2f5c18bd5690f581a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 42/64] fix: failed move of ordered swiss tables must not leave
 the header linked with entries of the other table

---
 tpp/detail/swiss_table.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index a9392ae..46599df 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1594,6 +1594,8 @@ namespace tpp::_detail
 			}
 			catch (...)
 			{
+				/* The header might already be linked with entries of the other table. */
+				if constexpr (is_ordered::value) *header_link() = {};
 				clear();
 				other.clear();
 				throw;
-- 
2.43.0


From a357bec12849efc0ed0890ff0c26097ba2d57a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:23 +0000
Subject: [PATCH 43/64] fix: failed move of dense tables must not leak

---
 tpp/detail/dense_table.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index a912538..b7ac4e3 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -251,7 +251,13 @@ namespace tpp::_detail
 		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
 		{
-			move_from(other);
+			try { move_from(other); }
+			catch (...)
+			{
+				if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), m_sparse, m_sparse_size);
+				if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), m_dense, m_dense_capacity);
+				throw;
+			}
 		}
 
 		dense_table &operator=(const dense_table &other)
-- 
2.43.0


From 20b44ce50bc20c0b31732439515b7e96c6142a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 44/64] fix: distances between order links must not rely on
 pointer arithmetic across objects

---
 tpp/detail/table_common.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 51f84ea..2d4ca57 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -102,19 +102,19 @@ namespace tpp::_detail
 	/* Node link used for ordered tables. */
 	struct ordered_link
 	{
+		/* Linked objects are unrelated, so the distance between them is calculated with integers, since
+		 * compilers may assume that pointer arithmetic never leaves the object it started from. */
 		[[nodiscard]] static std::ptrdiff_t byte_diff(const void *a, const void *b) noexcept
 		{
-			const auto a_bytes = static_cast<const std::uint8_t *>(a);
-			const auto b_bytes = static_cast<const std::uint8_t *>(b);
-			return a_bytes - b_bytes;
+			return static_cast<std::ptrdiff_t>(reinterpret_cast<std::uintptr_t>(a) - reinterpret_cast<std::uintptr_t>(b));
 		}
 		[[nodiscard]] static const void *byte_off(const void *p, std::ptrdiff_t n) noexcept
 		{
-			return static_cast<const std::uint8_t *>(p) + n;
+			return reinterpret_cast<const void *>(reinterpret_cast<std::uintptr_t>(p) + static_cast<std::uintptr_t>(n));
 		}
 		[[nodiscard]] static void *byte_off(void *p, std::ptrdiff_t n) noexcept
 		{
-			return static_cast<std::uint8_t *>(p) + n;
+			return reinterpret_cast<void *>(reinterpret_cast<std::uintptr_t>(p) + static_cast<std::uintptr_t>(n));
 		}
 
 		ordered_link() noexcept = default;
-- 
2.43.0


From 4291bd78ef7133994a3b61b1402df9f674811a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 45/64] fix: swap() of tables that propagate unequal allocators

---
 tpp/detail/dense_table.hpp | 4 ++--
 tpp/detail/swiss_table.hpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index b7ac4e3..5e8a7ab 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -491,8 +491,8 @@ namespace tpp::_detail
 			if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_swap::value)
 				swap(dense_alloc(), other.dense_alloc());
 
-			TPP_ASSERT(allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
-			TPP_ASSERT(allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
+			TPP_ASSERT(std::allocator_traits<sparse_allocator>::propagate_on_container_swap::value || allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
+			TPP_ASSERT(std::allocator_traits<dense_allocator>::propagate_on_container_swap::value || allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
 
 			swap_buffers(other);
 			swap(m_max_load_factor, other.m_max_load_factor);
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 46599df..1752382 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -588,7 +588,8 @@ namespace tpp::_detail
 
 		void swap_data(swiss_table_buffer &other) noexcept
 		{
-			TPP_ASSERT(allocator_eq(meta_alloc(), other.meta_alloc()) && allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
+			TPP_ASSERT(std::allocator_traits<MetaAlloc>::propagate_on_container_swap::value || allocator_eq(meta_alloc(), other.meta_alloc()), "Swapped allocators must be equal");
+			TPP_ASSERT(std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value || allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
 
 			using std::swap;
 			swap(capacity, other.capacity);
@@ -733,7 +734,7 @@ namespace tpp::_detail
 
 		void swap_data(swiss_table_buffer &other) noexcept
 		{
-			TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
+			TPP_ASSERT(std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value || allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
 
 			using std::swap;
 			swap(capacity, other.capacity);
-- 
2.43.0


From 37f6a092ea495531b5d5455004670c426cb5e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 46/64] fix: no rethrow from moves that cannot throw

---
 tpp/detail/dense_table.hpp | 3 ++-
 tpp/detail/swiss_table.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 5e8a7ab..3afbaee 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -251,7 +251,8 @@ namespace tpp::_detail
 		dense_table(dense_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_constructible_v<sparse_allocator, sparse_allocator> && std::is_nothrow_constructible_v<dense_allocator, dense_allocator> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: sparse_alloc_base(sparse_allocator{alloc}), dense_alloc_base(dense_allocator{alloc}), hash_base(std::move(other)), cmp_base(std::move(other)), m_max_load_factor(other.m_max_load_factor)
 		{
-			try { move_from(other); }
+			if constexpr (std::allocator_traits<allocator_type>::is_always_equal::value) move_from(other);
+			else try { move_from(other); }
 			catch (...)
 			{
 				if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), m_sparse, m_sparse_size);
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 1752382..9e1337b 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -870,7 +870,8 @@ namespace tpp::_detail
 		swiss_table(swiss_table &&other, const allocator_type &alloc) noexcept(std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_constructible_v<buffer_type, const allocator_type &> && std::is_nothrow_move_constructible_v<hasher> && std::is_nothrow_move_constructible_v<key_equal>)
 				: hash_base(std::move(other)), cmp_base(std::move(other)), m_buffer(alloc)
 		{
-			try { move_from(other); }
+			if constexpr (std::allocator_traits<allocator_type>::is_always_equal::value) move_from(other);
+			else try { move_from(other); }
 			catch (...)
 			{
 				m_buffer.deallocate();
-- 
2.43.0


From f8262261e6938bd0e7e64b6f79216610f08bf321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 47/64] fix: dense_multimap::try_emplace(key_type &&) moved
 from keys it did not insert

---
 tpp/dense_multimap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 1cb1a92..c311143 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -262,7 +262,8 @@ namespace tpp
 		template<typename... Args>
 		std::pair<iterator, bool> try_emplace(key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(std::move(key), std::forward<Args>(args)...);
+			/* Pass the keys by reference, they must not be moved from if they are not inserted. */
+			return std::apply([&](auto &...ks) { return m_table.try_emplace(std::forward_as_tuple(std::move(ks)...), std::forward<Args>(args)...); }, key);
 		}
 		/** @copydoc try_emplace
 		 * @note This overload is available only if the hash & compare functors are transparent. */
@@ -293,7 +294,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return std::apply([&](auto &...ks) { return m_table.try_emplace(hint, std::forward_as_tuple(std::move(ks)...), std::forward<Args>(args)...); }, key);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
-- 
2.43.0


From 25202dc2a222d5b9b96c7c911dcd28021266fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:00 +0000
Subject: [PATCH 48/64] fix: swap of node handles depends on itself and does
 not compile

---
 tpp/detail/table_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 2d4ca57..fbcc48d 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -370,7 +370,7 @@ namespace tpp::_detail
 				assert_alloc(other);
 				swap(m_ptr, other.m_ptr);
 			}
-			friend void swap(extracted_type &a, extracted_type &b) noexcept(std::is_nothrow_swappable_v<extracted_type>) { a.swap(b); }
+			friend void swap(extracted_type &a, extracted_type &b) noexcept(std::is_nothrow_swappable_v<A>) { a.swap(b); }
 
 		private:
 			[[nodiscard]] constexpr auto &alloc() noexcept { return alloc_base::value(); }
-- 
2.43.0


From a9b6385944c67b0cfcd17d3af599b2c2c4beeb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:31 +0000
Subject: [PATCH 49/64] fix: assigning to or swapping with an empty node handle
 demands equal allocators

---
 tpp/detail/table_common.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index fbcc48d..015393e 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -341,11 +341,9 @@ namespace tpp::_detail
 				{
 					do_destroy();
 
-					if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value)
-						alloc_base::operator=(std::move(other));
-
+					/* An empty node has no use for an allocator, take the one of the other node. */
+					replace_alloc(other.alloc());
 					m_ptr = std::exchange(other.m_ptr, value_ptr{});
-					assert_alloc(other);
 				}
 				return *this;
 			}
@@ -366,8 +364,14 @@ namespace tpp::_detail
 				using std::swap;
 				if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_swap::value)
 					swap(alloc(), other.alloc());
-
-				assert_alloc(other);
+				else if (!m_ptr || !other.m_ptr)
+				{
+					const auto tmp = alloc();
+					replace_alloc(other.alloc());
+					other.replace_alloc(tmp);
+				}
+				else
+					assert_alloc(other);
 				swap(m_ptr, other.m_ptr);
 			}
 			friend void swap(extracted_type &a, extracted_type &b) noexcept(std::is_nothrow_swappable_v<A>) { a.swap(b); }
@@ -380,6 +384,16 @@ namespace tpp::_detail
 			{
 				TPP_ASSERT(allocator_eq(alloc(), other.alloc()), "Node allocators must compare equal");
 			}
+			void replace_alloc([[maybe_unused]] const allocator_type &other) noexcept
+			{
+				if constexpr (std::is_copy_assignable_v<allocator_type>)
+					alloc() = other;
+				else if (std::addressof(alloc()) != std::addressof(other))
+				{
+					alloc().~allocator_type();
+					new(std::addressof(alloc())) allocator_type(other);
+				}
+			}
 			void do_destroy()
 			{
 				if (m_ptr)
-- 
2.43.0


From b33074b6f9b155c47d186f8e93693ec480a0b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:56 +0000
Subject: [PATCH 50/64] fix: the maximum load factor of dense tables is
 exceeded by insertions

---
 tpp/detail/dense_table.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 3afbaee..0ada961 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -816,10 +816,12 @@ namespace tpp::_detail
 		void do_rehash(size_type new_cap) { do_rehash(std::make_index_sequence<key_size>{}, new_cap); }
 		void maybe_rehash()
 		{
+			/* Account for the inserted entry, so that the maximum load factor is not exceeded. */
+			const auto min_cap = from_load_factor(size() + 1);
 			TPP_IF_UNLIKELY(bucket_count() == 0)
-				rehash(8);
-			else if (load_factor() >= m_max_load_factor)
-				rehash(bucket_count() * 2);
+				rehash(std::max<size_type>(8, min_cap));
+			else if (min_cap > bucket_count())
+				rehash(std::max(bucket_count() * 2, min_cap));
 		}
 
 		void resize_data(size_type capacity)
-- 
2.43.0


From ff01da0a893907a508fa113dd28116fd27806ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:28 +0000
Subject: [PATCH 51/64] fix: growth of tables destroys or leaks elements if one
 of them can not be moved

---
 tpp/detail/dense_table.hpp  | 24 ++++++++++++++++-
 tpp/detail/swiss_table.hpp  | 54 +++++++++++++++++++++++++++++++++++--
 tpp/detail/table_common.hpp | 11 ++++++++
 3 files changed, 86 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 0ada961..77cccb0 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -831,7 +831,29 @@ namespace tpp::_detail
 
 			try
 			{
-				relocate(alloc, m_dense, m_dense + m_dense_size, alloc, tmp_dense, relocate_node{});
+				if constexpr (bucket_node::is_nothrow_relocatable)
+					relocate(alloc, m_dense, m_dense + m_dense_size, alloc, tmp_dense, relocate_node{});
+				else
+				{
+					/* Old entries are left in place until all of them have been copied, since relocation may fail. */
+					auto value_alloc = allocator_type{alloc};
+					size_type n = 0;
+					try
+					{
+						for (; n != m_dense_size; ++n) tmp_dense[n].construct_from(value_alloc, m_dense[n]);
+					}
+					catch (...)
+					{
+						while (n != 0) tmp_dense[--n].destroy(value_alloc);
+						throw;
+					}
+					for (n = 0; n != m_dense_size; ++n)
+					{
+						static_cast<bucket_link &>(tmp_dense[n]) = std::move(static_cast<bucket_link &>(m_dense[n]));
+						tmp_dense[n].next = m_dense[n].next;
+						m_dense[n].destroy(value_alloc);
+					}
+				}
 				std::swap(m_dense_capacity, capacity);
 				std::swap(m_dense, tmp_dense);
 
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9e1337b..7e7498f 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1329,7 +1329,13 @@ namespace tpp::_detail
 					 * NOTE: Reclaiming deleted entries may leave blocks partially empty. */
 					const auto hint_off = hint_to_offset(hint);
 					if (m_buffer.capacity > sizeof(meta_block) && static_cast<std::uint64_t>(m_size) * 32 <= static_cast<std::uint64_t>(m_buffer.capacity) * 25)
-						rehash_deleted();
+					{
+						/* Entries can not be moved around within the table if that may fail. */
+						if constexpr (bucket_node::is_nothrow_relocatable)
+							rehash_deleted();
+						else
+							do_rehash(m_buffer.capacity);
+					}
 					else
 						do_rehash((m_buffer.capacity + 1) * 2 - 1);
 					hint = offset_to_hint(hint_off);
@@ -1432,9 +1438,53 @@ namespace tpp::_detail
 			return node;
 		}
 
+		/* Old entries are left in place until all of them have been copied, since relocation may fail. */
+		void copy_rehash(size_type capacity)
+		{
+			auto alloc = value_allocator{get_allocator()};
+			auto tmp = buffer_type(capacity, get_allocator());
+			[[maybe_unused]] auto header = bucket_link{};
+
+			const auto copy_node = [&](bucket_node &src)
+			{
+				const auto target_pos = find_available(src.hash());
+				auto *target = m_buffer.nodes() + target_pos;
+				target->construct_from(alloc, src);
+				if constexpr (is_ordered::value) target->link(header.off(header.prev));
+				set_metadata(target_pos, decompose_hash(src.hash()).second);
+			};
+			const auto destroy_nodes = [&](auto &buffer)
+			{
+				for (size_type i = 0; i < buffer.capacity; ++i)
+					if (is_occupied(buffer.meta()[i])) buffer.nodes()[i].destroy(alloc);
+				buffer.deallocate();
+			};
+
+			m_buffer.swap_data(tmp);
+			try
+			{
+				if constexpr (is_ordered::value)
+					for (auto *link = header_link()->off(header_link()->next); link != header_link(); link = link->off(link->next))
+						copy_node(*static_cast<bucket_node *>(link));
+				else
+					for (size_type i = 0; i < tmp.capacity; ++i)
+						if (is_occupied(tmp.meta()[i])) copy_node(tmp.nodes()[i]);
+			}
+			catch (...)
+			{
+				m_buffer.swap_data(tmp);
+				destroy_nodes(tmp);
+				throw;
+			}
+
+			destroy_nodes(tmp);
+			if constexpr (is_ordered::value) header_link()->relink_from(header);
+		}
 		void do_rehash(size_type capacity)
 		{
-			m_buffer.resize(capacity, [&](auto src_meta, auto src_nodes, size_type src_cap)
+			if constexpr (!bucket_node::is_nothrow_relocatable)
+				copy_rehash(capacity);
+			else m_buffer.resize(capacity, [&](auto src_meta, auto src_nodes, size_type src_cap)
 			{
 				/* Relocate occupied entries from the old buffers to the new buffers. */
 				auto alloc = node_allocator{get_allocator()};
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 015393e..1fb79d4 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -214,6 +214,9 @@ namespace tpp::_detail
 	public:
 		using allocator_type = typename std::allocator_traits<A>::template rebind_alloc<V>;
 
+		/* Entries can be relocated one by one only if that can not fail half way. */
+		static constexpr bool is_nothrow_relocatable = std::is_nothrow_move_constructible_v<V> && std::is_nothrow_swappable_v<V>;
+
 		packed_node() noexcept {}
 		~packed_node() {}
 
@@ -234,6 +237,12 @@ namespace tpp::_detail
 			construct(alloc, std::move(other.value()));
 			hash() = other.hash();
 		}
+		/* Constructs the value of a new entry that will replace the other one, links are not affected. */
+		void construct_from(allocator_type &alloc, packed_node &other)
+		{
+			construct(alloc, std::move_if_noexcept(other.value()));
+			hash() = other.hash();
+		}
 		void move_from(packed_node &other)
 		{
 			link_base::operator=(std::move(other));
@@ -319,6 +328,8 @@ namespace tpp::_detail
 		using allocator_type = typename std::allocator_traits<A>::template rebind_alloc<V>;
 		using is_extractable = std::true_type;
 
+		static constexpr bool is_nothrow_relocatable = true;
+
 	private:
 		using value_ptr = typename std::allocator_traits<allocator_type>::pointer;
 
-- 
2.43.0


From 10df5bbd6faf3c865b7f7263faf5cec557877e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:34 +0000
Subject: [PATCH 52/64] fix: failed replacement of mapped values leaves a
 destroyed object

---
 tpp/detail/table_common.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 1fb79d4..7a3a1bb 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -263,6 +263,8 @@ namespace tpp::_detail
 				target.~mapped_t();
 				new(&target) mapped_t(std::move(tmp));
 			}
+			else if constexpr (std::is_move_assignable_v<mapped_t>)
+				target = mapped_t(std::forward<Args>(args)...);
 			else
 			{
 				if constexpr (!std::is_trivially_destructible_v<mapped_t>)
@@ -523,6 +525,8 @@ namespace tpp::_detail
 				target.~mapped_t();
 				new(&target) mapped_t(std::move(tmp));
 			}
+			else if constexpr (std::is_move_assignable_v<mapped_t>)
+				target = mapped_t(std::forward<Args>(args)...);
 			else
 			{
 				if constexpr (!std::is_trivially_destructible_v<mapped_t>)
-- 
2.43.0


From 72fc5083e8fb44c3a8d2036bd19086489968e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:14 +0000
Subject: [PATCH 53/64] fix: failed move of dense tables with unequal
 allocators destroys elements twice

---
 tpp/detail/dense_table.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 77cccb0..53201d3 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -956,12 +956,24 @@ namespace tpp::_detail
 
 			/* Move & insert elements from the other table. */
 			auto alloc = allocator_type{dense_alloc()}, other_alloc = allocator_type{other.dense_alloc()};
-			for (; m_dense_size < other.size(); ++m_dense_size)
+			try
 			{
-				auto &from = other.m_dense[m_dense_size];
-				auto &to = m_dense[m_dense_size];
-				to.relocate(alloc, other_alloc, from);
-				(insert_node<Is>(to, m_dense_size), ...);
+				for (; m_dense_size < other.size(); ++m_dense_size)
+				{
+					auto &from = other.m_dense[m_dense_size];
+					auto &to = m_dense[m_dense_size];
+					to.relocate(alloc, other_alloc, from);
+					(insert_node<Is>(to, m_dense_size), ...);
+				}
+			}
+			catch (...)
+			{
+				/* Entries that were already moved are owned by this table, the header might be linked with both. */
+				for (auto i = m_dense_size; i < other.size(); ++i) other.m_dense[i].destroy(other_alloc);
+				other.m_dense_size = 0;
+				other.clear();
+				clear();
+				throw;
 			}
 			other.m_dense_size = 0;
 			std::fill_n(other.m_sparse, other.m_sparse_size, make_array<key_size>(npos));
-- 
2.43.0


From 727e0b9aa11db57cb2d2d42c8e42b6a0bbcfb27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:21 +0000
Subject: [PATCH 54/64] fix: stable maps of keys that can not be copied do not
 compile

---
 tpp/detail/table_common.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 7a3a1bb..6d721a3 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -461,10 +461,31 @@ namespace tpp::_detail
 				m_ptr = std::exchange(other.m_ptr, value_ptr{});
 			else
 			{
-				construct(alloc, std::move(other.value()));
+				construct_moved(alloc, other.value());
 				other.do_destroy();
 			}
 		}
+		/* Allocates a new value & moves the other one to it, which will be destroyed. */
+		void construct_moved(allocator_type &alloc, V &other)
+		{
+			using key_t = std::remove_const_t<std::remove_reference_t<decltype(Traits::get_key(other))>>;
+			using mapped_t = std::remove_reference_t<decltype(Traits::get_mapped(other))>;
+
+			if constexpr (std::is_constructible_v<V, V &&>)
+				construct(alloc, std::move(other));
+			else if constexpr (!std::is_same_v<key_t, V> && std::is_move_constructible_v<key_t> && std::is_move_constructible_v<mapped_t>)
+			{
+				/* Keys that can not be copied are moved. */
+				construct(alloc, std::piecewise_construct,
+				          std::forward_as_tuple(std::move(const_cast<key_t &>(Traits::get_key(other)))),
+				          std::forward_as_tuple(std::move(Traits::get_mapped(other))));
+			}
+			else
+			{
+				TPP_ASSERT(false, "Elements that can not be moved require equal allocators");
+				std::terminate();
+			}
+		}
 		/* Replaces the value, the old one is left in place if that fails. */
 		void assign(allocator_type &alloc, extracted_type &&other)
 		{
@@ -490,7 +511,7 @@ namespace tpp::_detail
 				/* The value must be owned by the allocator of its table. */
 				auto conv_alloc_dst = allocator_type{alloc_dst};
 				auto conv_alloc_src = allocator_type{alloc_src};
-				construct(conv_alloc_dst, std::move(other.value()));
+				construct_moved(conv_alloc_dst, other.value());
 				link_base::operator=(std::move(other));
 				m_hash = other.m_hash;
 				other.destroy(conv_alloc_src);
-- 
2.43.0


From a700b83452140071904702a9c51be3b2f910d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:55 +0000
Subject: [PATCH 55/64] fix: rvalue keys are copied by try_emplace,
 insert_or_assign & emplace_or_replace

---
 tpp/detail/dense_table.hpp | 4 ++--
 tpp/detail/swiss_table.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 53201d3..eb03308 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -409,9 +409,9 @@ namespace tpp::_detail
 		}
 
 		template<typename T, typename U>
-		std::pair<iterator, bool> insert_or_assign(const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, key, std::forward<U>(value)); }
+		std::pair<iterator, bool> insert_or_assign(T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, std::forward<T>(key), std::forward<U>(value)); }
 		template<typename T, typename U>
-		iterator insert_or_assign(const_iterator hint, const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), key, std::forward<U>(value)).first; }
+		iterator insert_or_assign(const_iterator hint, T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), std::forward<T>(key), std::forward<U>(value)).first; }
 
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 7e7498f..ea93599 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1018,9 +1018,9 @@ namespace tpp::_detail
 		}
 
 		template<typename T, typename U>
-		std::pair<iterator, bool> insert_or_assign(const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, key, std::forward<U>(value)); }
+		std::pair<iterator, bool> insert_or_assign(T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign({}, std::forward<T>(key), std::forward<U>(value)); }
 		template<typename T, typename U>
-		iterator insert_or_assign(const_iterator hint, const T &key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), key, std::forward<U>(value)).first; }
+		iterator insert_or_assign(const_iterator hint, T &&key, U &&value) TPP_REQUIRES((std::is_constructible_v<V, T, U>)) { return do_insert_or_assign(to_underlying(hint), std::forward<T>(key), std::forward<U>(value)).first; }
 
 		template<typename N>
 		std::pair<iterator, bool> insert_or_assign_node(N &&node)
@@ -1397,7 +1397,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(key);
 			if (auto target_pos = find_node(key, h); target_pos == m_buffer.capacity)
-				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...)), true};
+				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(std::forward<T>(key)), std::forward_as_tuple(std::forward<Args>(args)...)), true};
 			else
 				return {to_iter(target_pos), false};
 		}
@@ -1415,7 +1415,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(key);
 			if (auto target_pos = find_node(key, h); target_pos == m_buffer.capacity)
-				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...)), true};
+				return {emplace_node(hint, h, std::piecewise_construct, std::forward_as_tuple(std::forward<T>(key)), std::forward_as_tuple(std::forward<Args>(args)...)), true};
 			else
 			{
 				m_buffer.nodes()[target_pos].replace(std::forward<Args>(args)...);
-- 
2.43.0


From d01c92b0d7cca2d8a2f9b30236eb518c9c0f309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:03 +0000
Subject: [PATCH 56/64] fix: rvalue keys are copied by operator[]

---
 tpp/dense_map.hpp  | 8 ++++----
 tpp/sparse_map.hpp | 8 ++++----
 tpp/stable_map.hpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 92fa84e..6693000 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -545,14 +545,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
@@ -1195,14 +1195,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index ebfc52e..b418249 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -514,14 +514,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1109,14 +1109,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index 6025cf9..6c7204b 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -561,14 +561,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1203,14 +1203,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::move(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(key).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
-- 
2.43.0


From e20bd9716a57d37b6cab237193ff78d4fdbde196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:36 +0000
Subject: [PATCH 57/64] fix: insertions into dense tables use keys of their own
 elements after growth destroyed them

---
 tpp/detail/dense_table.hpp | 43 +++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index eb03308..8331290 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -653,8 +653,7 @@ namespace tpp::_detail
 		template<typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_emplace(std::index_sequence<Is...>, node_iterator hint, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
+			maybe_grow(hint);
 
 			/* Create a temporary object to check if it already exists within the table. */
 			const auto [pos, tmp] = push_node(std::forward<Args>(args)...);
@@ -690,19 +689,19 @@ namespace tpp::_detail
 		template<typename... Ks, typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_try_emplace(std::index_sequence<Is...>, node_iterator hint, std::tuple<Ks...> ks, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
-			const auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
+			auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
 			for (auto [node, chain]: node_list)
-				if (*chain != npos)
+				if (chain && *chain != npos)
 				{
 					/* Found a conflict, return the existing node. */
 					return {to_iter(node), false};
 				}
 
+			/* The table is grown only now, since keys of existing entries may be passed by reference. */
+			if (maybe_grow(hint)) node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
+
 			/* No conflicts found, proceed with insertion. */
 			return {emplace_node<Is...>(hint, {node_list[Is].second...}, hs, std::piecewise_construct, std::move(ks),
 			                            std::forward_as_tuple(std::forward<Args>(args)...)), true};
@@ -716,12 +715,9 @@ namespace tpp::_detail
 		template<typename... Ks, typename... Args, std::size_t... Is>
 		std::pair<iterator, bool> do_insert(std::index_sequence<Is...>, node_iterator hint, const std::tuple<Ks...> &ks, Args &&...args)
 		{
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, do nothing. Otherwise, emplace a new entry. */
 			const auto hs = bucket_hash{hash(std::get<Is>(ks))...};
-			const auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
+			auto node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
 			for (auto [node, chain]: node_list)
 				if (chain && *chain != npos)
 				{
@@ -729,6 +725,9 @@ namespace tpp::_detail
 					return {to_iter(node), false};
 				}
 
+			/* The table is grown only now, since keys of existing entries may be passed by reference. */
+			if (maybe_grow(hint)) node_list = std::array{find_node<Is>(std::get<Is>(ks), hs[Is])...};
+
 			/* No conflicts found, proceed with insertion. */
 			return {emplace_node<Is...>(hint, {node_list[Is].second...}, hs, std::forward<Args>(args)...), true};
 		}
@@ -744,13 +743,12 @@ namespace tpp::_detail
 		{
 			static_assert(key_size == 1, "insert_or_assign is only available for keys of size 1");
 
-			maybe_resize(hint);
-			maybe_rehash();
-
 			/* If a candidate was found, replace the entry. Otherwise, emplace a new entry. */
 			const auto h = hash(key);
-			if (const auto [candidate, chain_idx] = find_node<0>(key, h); chain_idx && *chain_idx == npos)
+			if (auto [candidate, chain_idx] = find_node<0>(key, h); !chain_idx || *chain_idx == npos)
 			{
+				/* The table is grown only now, since existing entries may be passed by reference. */
+				if (maybe_grow(hint)) chain_idx = find_node<0>(key, h).second;
 				return {emplace_node<0>(hint, {chain_idx}, {h},
 				                        std::piecewise_construct,
 				                        std::forward_as_tuple(std::forward<T>(key)),
@@ -814,7 +812,7 @@ namespace tpp::_detail
 			for (size_type i = 0; i < size(); ++i) (insert_node<Is>(m_dense[i], i), ...);
 		}
 		void do_rehash(size_type new_cap) { do_rehash(std::make_index_sequence<key_size>{}, new_cap); }
-		void maybe_rehash()
+		bool maybe_rehash()
 		{
 			/* Account for the inserted entry, so that the maximum load factor is not exceeded. */
 			const auto min_cap = from_load_factor(size() + 1);
@@ -822,6 +820,9 @@ namespace tpp::_detail
 				rehash(std::max<size_type>(8, min_cap));
 			else if (min_cap > bucket_count())
 				rehash(std::max(bucket_count() * 2, min_cap));
+			else
+				return false;
+			return true;
 		}
 
 		void resize_data(size_type capacity)
@@ -865,7 +866,7 @@ namespace tpp::_detail
 				throw;
 			}
 		}
-		void maybe_resize(node_iterator &hint)
+		bool maybe_resize(node_iterator &hint)
 		{
 			if (m_dense_capacity == m_dense_size)
 			{
@@ -893,7 +894,15 @@ namespace tpp::_detail
 						hint = m_dense + pos;
 					}
 				}
+				return true;
 			}
+			return false;
+		}
+		/* Makes room for a new entry, returns true if entries or chains might have been moved. */
+		bool maybe_grow(node_iterator &hint)
+		{
+			const auto resized = maybe_resize(hint);
+			return maybe_rehash() || resized;
 		}
 
 		template<std::size_t... Is>
-- 
2.43.0


From d3fc7756e20de1f1a610f3d6d27d3665f8ce1a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:06 +0000
Subject: [PATCH 58/64] fix: stable sets with different hash or compare
 functors cannot be merged

---
 tpp/stable_set.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpp/stable_set.hpp b/tpp/stable_set.hpp
index 711b810..0249389 100644
--- a/tpp/stable_set.hpp
+++ b/tpp/stable_set.hpp
@@ -22,6 +22,9 @@ namespace tpp
 	template<typename Key, typename KeyHash = std::hash<Key>, typename KeyCmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	class stable_set
 	{
+		template<typename, typename, typename, typename>
+		friend class stable_set;
+
 		using traits_t = _detail::stable_value_traits<Key, _detail::empty_link>;
 		using table_t = _detail::swiss_table<Key, Key, Key, KeyHash, KeyCmp, Alloc, traits_t>;
 
@@ -369,6 +372,9 @@ namespace tpp
 	template<typename Key, typename KeyHash = std::hash<Key>, typename KeyCmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	class ordered_stable_set
 	{
+		template<typename, typename, typename, typename>
+		friend class ordered_stable_set;
+
 		using traits_t = _detail::stable_value_traits<Key, _detail::ordered_link>;
 		using table_t = _detail::swiss_table<Key, Key, Key, KeyHash, KeyCmp, Alloc, traits_t>;
 
-- 
2.43.0


From 0d3832cb668bb992342fc522745bfe4f6d1222de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:20 +0000
Subject: [PATCH 59/64] fix: merging into an empty stable table replaces its
 hash & compare functors

---
 tpp/detail/swiss_table.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index ea93599..aa6cd6c 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1141,10 +1141,14 @@ namespace tpp::_detail
 		void merge(swiss_table<I, V, K, Kh2, Kc2, Alloc, ValueTraits> &&other) { merge(other); }
 		void merge(swiss_table &&other)
 		{
-			if (m_size == 0)
-				operator=(std::move(other));
-			else
-				merge(other);
+			/* The other buffer can be taken over only if that does not replace the hash & compare functors. */
+			if constexpr (std::is_empty_v<hasher> && std::is_empty_v<key_equal>)
+				if (m_size == 0)
+				{
+					operator=(std::move(other));
+					return;
+				}
+			merge(other);
 		}
 
 		void rehash(size_type n)
-- 
2.43.0


From d7d30aa57f34bfe6f9a5ab6bd6b08ca0f846a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:32 +0000
Subject: [PATCH 60/64] fix: local iterators and bucket_size of dense tables do
 not compile

---
 tpp/detail/dense_table.hpp | 64 ++++++++++----------------------------
 1 file changed, 17 insertions(+), 47 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 8331290..c2dd1fc 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -116,48 +116,20 @@ namespace tpp::_detail
 		template<typename N>
 		class bucket_iterator
 		{
+			static_assert(key_size == 1, "Buckets can be iterated only in tables with a single key");
+
 			template<typename>
 			friend class bucket_iterator;
 
-			using value_pointer = std::conditional_t<std::is_const_v<N>, typename ValueTraits::const_pointer, typename ValueTraits::pointer>;
-			using value_reference = std::conditional_t<std::is_const_v<N>, typename ValueTraits::const_reference, typename ValueTraits::reference>;
-			using node_ptr = typename std::allocator_traits<Alloc>::template rebind_traits<N>::pointer;
+			using node_ptr = typename std::pointer_traits<dense_ptr>::template rebind<N>;
 
 		public:
 			using value_type = V;
+			using pointer = std::conditional_t<std::is_const_v<N>, typename ValueTraits::const_pointer, typename ValueTraits::pointer>;
+			using reference = std::conditional_t<std::is_const_v<N>, typename ValueTraits::const_reference, typename ValueTraits::reference>;
 
-			using reference = std::conditional_t<key_size == 1, value_reference, std::array<value_reference, key_size>>;
-			struct pointer
-			{
-				friend class bucket_iterator;
-
-				constexpr pointer(std::array<value_pointer, key_size> ptr) noexcept : m_ptr(ptr) {}
-
-			public:
-				pointer() = delete;
-
-				constexpr pointer(const pointer &) noexcept = default;
-				constexpr pointer &operator=(const pointer &) noexcept = default;
-				constexpr pointer(pointer &&) noexcept = default;
-				constexpr pointer &operator=(pointer &&) noexcept = default;
-
-				[[nodiscard]] reference operator->() const noexcept { return get(std::make_index_sequence<key_size>{}); }
-
-			private:
-				template<std::size_t J, std::size_t... Js>
-				[[nodiscard]] reference get(std::index_sequence<J, Js...>) const noexcept
-				{
-					if constexpr (sizeof...(Js) != 0)
-						return reference{*m_ptr[Js]...};
-					else
-						return reference{*m_ptr[J]};
-				}
-
-				std::array<value_pointer, key_size> m_ptr = {};
-			};
-
-			using size_type = typename bucket_node::size_type;
-			using difference_type = typename bucket_node::difference_type;
+			using size_type = typename traits_t::size_type;
+			using difference_type = typename std::pointer_traits<dense_ptr>::difference_type;
 			using iterator_category = std::forward_iterator_tag;
 
 		public:
@@ -165,36 +137,34 @@ namespace tpp::_detail
 			template<typename U, typename = std::enable_if_t<!std::is_same_v<N, U> && std::is_constructible_v<node_ptr, typename bucket_iterator<U>::node_ptr>>>
 			constexpr bucket_iterator(const bucket_iterator<U> &other) noexcept : m_base(other.m_base), m_pos(other.m_pos) {}
 
-			constexpr explicit bucket_iterator(node_ptr base, bucket_pos pos) noexcept : m_base(base), m_pos(pos) {}
+			constexpr explicit bucket_iterator(node_ptr base, size_type pos) noexcept : m_base(base), m_pos(pos) {}
 
 			constexpr bucket_iterator operator++(int) noexcept
 			{
 				auto tmp = *this;
-				increment(std::make_index_sequence<key_size>{});
+				operator++();
 				return tmp;
 			}
 			constexpr bucket_iterator &operator++() noexcept
 			{
-				increment(std::make_index_sequence<key_size>{});
+				m_pos = node()->next[0];
 				return *this;
 			}
 
 			[[nodiscard]] constexpr pointer operator->() const noexcept { return pointer{&node()->value()}; }
-			[[nodiscard]] reference operator*() const noexcept { return *operator->(); }
+			[[nodiscard]] constexpr reference operator*() const noexcept { return *operator->(); }
 
-			[[nodiscard]] constexpr bool operator==(const bucket_iterator &other) const noexcept { return m_base == other.m_base && m_pos == other.m_pos; }
+			/* Only the position is compared, since end iterators do not refer to a node. */
+			[[nodiscard]] constexpr bool operator==(const bucket_iterator &other) const noexcept { return m_pos == other.m_pos; }
 #if (__cplusplus < 202002L && (!defined(_MSVC_LANG) || _MSVC_LANG < 202002L))
-			[[nodiscard]] constexpr bool operator!=(const bucket_iterator &other) const noexcept { return m_base != other.m_base || m_pos != other.m_pos; }
+			[[nodiscard]] constexpr bool operator!=(const bucket_iterator &other) const noexcept { return m_pos != other.m_pos; }
 #endif
 
 		private:
 			[[nodiscard]] constexpr node_ptr node() const noexcept { return m_base + m_pos; }
 
-			template<std::size_t... Is>
-			constexpr void increment(std::index_sequence<Is...>) noexcept { ((m_pos[Is] = node()->next[Is]), ...); }
-
 			node_ptr m_base = {};
-			bucket_pos m_pos = 0;
+			size_type m_pos = npos;
 		};
 
 	public:
@@ -350,8 +320,8 @@ namespace tpp::_detail
 		[[nodiscard]] constexpr size_type capacity() const noexcept { return to_load_factor(bucket_count()); }
 		[[nodiscard]] constexpr float load_factor() const noexcept { return static_cast<float>(size()) / static_cast<float>(bucket_count()); }
 
-		[[nodiscard]] local_iterator begin(size_type n) noexcept { return local_iterator{m_dense, m_sparse[n]}; }
-		[[nodiscard]] const_local_iterator begin(size_type n) const noexcept { return const_local_iterator{m_dense, m_sparse[n]}; }
+		[[nodiscard]] local_iterator begin(size_type n) noexcept { return local_iterator{m_dense, m_sparse[n][0]}; }
+		[[nodiscard]] const_local_iterator begin(size_type n) const noexcept { return const_local_iterator{m_dense, m_sparse[n][0]}; }
 		[[nodiscard]] local_iterator end(size_type) noexcept { return local_iterator{}; }
 		[[nodiscard]] const_local_iterator end(size_type) const noexcept { return const_local_iterator{}; }
 
-- 
2.43.0


From bb2b84b339859d8d93767f0041743ecfa0ffe279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:47 +0000
Subject: [PATCH 61/64] fix: map element references are ordered wrongly, or not
 at all

---
 tpp/detail/table_common.hpp | 17 ++++++++++-------
 tpp/detail/utility.hpp      |  6 +++---
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 6d721a3..7b56dfc 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -859,20 +859,23 @@ namespace tpp::_detail
 
 #if (__cplusplus < 202002L && (!defined(_MSVC_LANG) || _MSVC_LANG < 202002L))
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first && noexcept(second == other.second)))  { return first == other.first && second == other.second; }
+		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first) && noexcept(second == other.second)) { return first == other.first && second == other.second; }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator!=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first != other.first && noexcept(second != other.second))) { return first != other.first || second != other.second; }
+		[[nodiscard]] constexpr bool operator!=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first != other.first) && noexcept(second != other.second)) { return first != other.first || second != other.second; }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator>=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first >= other.first && noexcept(second >= other.second)))  { return first >= other.first && second >= other.second; }
+		[[nodiscard]] constexpr bool operator<(const packed_map_ref<U, V> &other) const noexcept(noexcept(first < other.first) && noexcept(other.first < first) && noexcept(second < other.second))
+		{
+			return first < other.first || (!(other.first < first) && second < other.second);
+		}
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator<=(const packed_map_ref<U, V> &other) const noexcept(noexcept(first <= other.first && noexcept(second <= other.second)))  { return first <= other.first && second <= other.second; }
+		[[nodiscard]] constexpr bool operator>=(const packed_map_ref<U, V> &other) const noexcept(noexcept(*this < other)) { return !(*this < other); }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator>(const packed_map_ref<U, V> &other) const noexcept(noexcept(first > other.first && noexcept(second > other.second)))  { return first > other.first && second > other.second; }
+		[[nodiscard]] constexpr bool operator>(const packed_map_ref<U, V> &other) const noexcept(noexcept(other < *this)) { return other < *this; }
 		template<typename U, typename V>
-		[[nodiscard]] constexpr bool operator<(const packed_map_ref<U, V> &other) const noexcept(noexcept(first < other.first && noexcept(second < other.second))) { return first < other.first && second < other.second; }
+		[[nodiscard]] constexpr bool operator<=(const packed_map_ref<U, V> &other) const noexcept(noexcept(other < *this)) { return !(other < *this); }
 #else
 		template<typename U, typename V> requires std::equality_comparable_with<K, U> && std::equality_comparable_with<M, V>
-		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first && noexcept(second == other.second)))  { return first == other.first && second == other.second; }
+		[[nodiscard]] constexpr bool operator==(const packed_map_ref<U, V> &other) const noexcept(noexcept(first == other.first) && noexcept(second == other.second)) { return first == other.first && second == other.second; }
 		template<typename U, typename V> requires(requires (const K &k, const M &m, const U &u, const V &v) { synth_three_way(k, u); synth_three_way(m, v); })
 		[[nodiscard]] constexpr auto operator<=>(const packed_map_ref<U, V> &other) const noexcept(noexcept(synth_three_way(first, other.first)) && noexcept(synth_three_way(second, other.second))) -> std::common_comparison_category_t<synth_three_way_result<K, U>, synth_three_way_result<M, V>>
 		{
diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index a893de8..c863a64 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -265,9 +265,9 @@ namespace tpp::_detail
 
 #if (__cplusplus >= 202002L || (defined(_MSVC_LANG) && _MSVC_LANG >= 202002L))
 	template<typename T, typename U> requires std::three_way_comparable_with<T, U>
-	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const T &u) noexcept(noexcept(t <=> u)) { return t <=> u; }
-	template<typename T, typename U> requires(!std::three_way_comparable_with<T, U> && requires(const T &t, const T &u) { { t < u } -> std::convertible_to<bool>; { u < t } -> std::convertible_to<bool>; })
-	[[nodiscard]] constexpr decltype(auto) synth_three_way(const T &t, const T &u) noexcept(noexcept(t < u) && noexcept(u < t))
+	[[nodiscard]] constexpr auto synth_three_way(const T &t, const U &u) noexcept(noexcept(t <=> u)) { return t <=> u; }
+	template<typename T, typename U> requires(!std::three_way_comparable_with<T, U> && requires(const T &t, const U &u) { { t < u } -> std::convertible_to<bool>; { u < t } -> std::convertible_to<bool>; })
+	[[nodiscard]] constexpr auto synth_three_way(const T &t, const U &u) noexcept(noexcept(t < u) && noexcept(u < t))
 	{
 		if (t < u)
 			return std::weak_ordering::less;
-- 
2.43.0


From a107c1acae0ec79d5af600e3f95fd1782c294810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:29 +0000
Subject: [PATCH 62/64] fix: headers do not include <algorithm> in release
 builds

---
 tpp/detail/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index c863a64..adae787 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <iterator>
 #include <cstring>
 #include <memory>
 #include <array>
@@ -16,8 +18,6 @@
 
 #if defined(TPP_DEBUG)
 
-#include <algorithm>
-#include <iterator>
 #include <cstdlib>
 #include <cstdio>
 
-- 
2.43.0


From e93357b7e1118827e076f889b7a57ab3795f2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:10 +0000
Subject: [PATCH 63/64] fix: capacity of dense tables of more than 2^24
 elements is rounded

---
 tpp/detail/dense_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index c2dd1fc..d1aa899 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -470,11 +470,11 @@ namespace tpp::_detail
 		}
 
 	private:
-		[[nodiscard]] constexpr auto to_load_factor(size_type n) const noexcept { return static_cast<size_type>(static_cast<float>(n) * m_max_load_factor); }
+		[[nodiscard]] constexpr auto to_load_factor(size_type n) const noexcept { return static_cast<size_type>(static_cast<double>(n) * static_cast<double>(m_max_load_factor)); }
 		/* Convert table size to minimum amount of buckets. */
 		[[nodiscard]] constexpr auto from_load_factor(size_type n) const noexcept
 		{
-			const auto result = static_cast<size_type>(static_cast<float>(n) / m_max_load_factor);
+			const auto result = static_cast<size_type>(static_cast<double>(n) / static_cast<double>(m_max_load_factor));
 			return to_load_factor(result) < n ? result + 1 : result;
 		}
 
-- 
2.43.0


From 64ff95850e87fdc0806c30f1d373f9ec19c6a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:29 +0000
Subject: [PATCH 64/64] fix: requests for more buckets than can be represented
 allocate too little memory in combined buffers

---
 tpp/detail/swiss_table.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index aa6cd6c..18c3249 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -632,8 +632,9 @@ namespace tpp::_detail
 		}
 		[[nodiscard]] static constexpr size_type buffer_size(size_type n) noexcept
 		{
-			/* Total size = aligned metadata + nodes */
-			return nodes_start(n) + n;
+			/* Total size = aligned metadata + nodes, sizes that can not be represented are left to the allocator to reject. */
+			const auto start = nodes_start(n);
+			return n <= std::numeric_limits<size_type>::max() - start ? start + n : std::numeric_limits<size_type>::max();
 		}
 
 		static void fill_empty(meta_ptr meta, size_type n) noexcept
-- 
2.43.0

