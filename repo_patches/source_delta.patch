From 5088fe62eaf1ae6d331c1ad7ec35e0157a9ba5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 01/93] fix: flat_map range insertion calls the handlers on the
 right elements and survives exceptions

---
 include/blockTensor/flat_map.h | 157 ++++++++++-----------------------
 1 file changed, 45 insertions(+), 112 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 9f1e87e..1013197 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -332,12 +332,25 @@ class flat_map
 	void insert(InputIt first, InputIt last, Collision &&collision)
 	{
 		static_assert(!std::is_convertible_v<InputIt, const_iterator>, "Don't try to bypass the enable if");
-		content.insert(content.end(), const_iterator(first).base_reference(),const_iterator(last).base_reference());
-		sort();
-		auto l = filter_unique(
-		    content.begin(), content.end(),
-		    std::forward<Collision>(collision)); // pack the unique element at the begining, mainting order
-		content.resize(l - content.begin());             // l is the new end pointer.
+		content_t added(const_iterator(first).base_reference(), const_iterator(last).base_reference(), get_allocator());
+		std::stable_sort(added.begin(), added.end(), comp);
+		auto kept = added.begin(); // the elements before that one are those that must be added.
+		for (auto &x : added)
+		{
+			auto it = std::lower_bound(content.begin(), content.end(), x, comp);
+			if (it != content.end() and !comp(x, *it))
+				collision(*it, x);
+			else if (kept != added.begin() and !comp(*(kept - 1), x))
+				collision(*(kept - 1), x);
+			else
+			{
+				if (&*kept != &x)
+					*kept = std::move(x);
+				++kept;
+			}
+		}
+		added.erase(kept, added.end());
+		add_sorted(std::move(added));
 	}
 	template <class Collision>
 	void insert(const_iterator first, const_iterator last, Collision &&collision)
@@ -350,78 +363,19 @@ class flat_map
 	template <class Collision, class NoCollision>
 	void insert(const_iterator first, const_iterator last, Collision &&collision, NoCollision &&nocollision)
 	{
-		auto look = begin();
-		{
-			auto n1 = std::distance(first, last); // n1 is the number of element to be copied.
-			// in first approxiamtion, it's the number of element in the input
-			// detect collisions between content and the input iterators.
-			for (auto i = first; i != last; ++i)
-			{
-				look = std::lower_bound(look, end(), *i, comp);
-				if (look == end())
-					break;
-				if (!comp(*i, *look))
-				{
-					--n1; // correct it by counting all the collisions.
-				}
-			}
-			content.resize(content.size() +
-			               n1); // potentially invalidates iterators. could be more time efficient if we need to
-			                    // reallocate, at the cost of holding the previous memory space  abit longer
-			// Copy the stuff from the input that has a larger key than the largest key in this.
-			look = end() - n1;    // the pointer past the end of the original, to be moved, elements
-		}                         // pop n1 from the stack
-		auto move_to_end = end(); // for copy backward
-		// potential optimization: if move_to_end==look at this point, all new elements are colliding.
-		while (look != begin() and last != first)
+		// The new elements are prepared on the side. If anything throws, the map keeps its keys and its order.
+		content_t added(get_allocator());
+		auto look = content.begin();
+		for (; first != last; ++first)
 		{
-			decltype(first - last) found_collision;
-			// part A: copy element in [first,last[ larger than *(look-1) at move_to_end.
-			{
-				auto la = std::lower_bound(first, last, *(look - 1), comp);
-				found_collision = la != last and !comp(*(look - 1), *la); // checked wether the lowest on the range to copy is colliding
-				std::copy_backward(la + found_collision, last, move_to_end); //we don't copy the colliding element
-				auto old_move_to_end = move_to_end;
-				auto move_shift = last - (la + found_collision);
-				move_to_end -= move_shift ;
-				std::for_each(move_to_end, old_move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
-				if (found_collision)
-				{
-					--move_to_end;
-					--look;
-					if(move_to_end != look) *move_to_end = std::move( *(look));
-					collision(move_to_end->second,la->second);//can be called on a parallel thread, the tensor will not be touched again.
-				}
-				last = la;
-			} // pop la from the stack
-			// part B: move the elements in [begin,look[ that are greater than *(last-1) to move_to_end
-			if (last == first)
-				break; // we've copied everything, there's nothing to move. //ignore collision on the first elements...
-			{
-				auto lb = std::lower_bound(begin(), look, *(last - 1), comp);
-				if (move_to_end != look)
-					std::move_backward(lb, look,
-					                   move_to_end); // we don't have to do anything here if move_to_end == look. plus
-					                                 // move_backward behavior is undefined in that case (depends on the implementation of the element's move).
-				// if (found_collision)
-				// 	collision((move_to_end - 1)->second,
-				// 	          last->second); // if we move the collision treatment here, we allow parallelism.
-				move_to_end -= look - lb;
-				look = lb;
-			} // pop lb from the stack
-			found_collision = last != first and !comp(*(last - 1), *move_to_end);
-			if (found_collision)
-				collision(move_to_end->second,
-				          (last - 1)->second); // if we move collision treatment here, to allow parallelism
-			last -= found_collision;
+			look = std::lower_bound(look, content.end(), *first, comp);
+			if (look != content.end() and !comp(*first, *look))
+				collision(look->second, first->second);
+			else
+				added.push_back(*first);
 		}
-		auto lastmfirst = last-first;
-		auto movembegin = move_to_end - begin();
-		assert(
-		    lastmfirst == 0 or
-		    movembegin == lastmfirst); // we've copied everything, or we still have some stuff to copy and the room necessary
-		std::copy_backward(first, last, move_to_end);
-		std::for_each(begin(), move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
+		std::for_each(added.begin(), added.end(), [&nocollision](auto &&x) { nocollision(std::get<1>(x)); });
+		add_sorted(std::move(added));
 	}
 
 	template <class M>
@@ -620,26 +574,8 @@ class flat_map
 	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
 	           NoCollision &&nocollision)
 	{
-		if (source.capacity() >= source.size() + size()) // reuse source's resources if it avoid doing an allocation.
-		{
-			std::swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
-			insert(
-			    source.begin(), source.end(),
-			    [collision](auto &a, auto &b) {
-				    // b is const in the context that call this lambda function.
-				    // But in this present context, we know it's actually a reference to a non-const value.
-				    // Casting away const in order to change a value should almost never be used.
-				    auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
-				    std::swap(a, c);
-				    collision(a, c);
-			    },
-			    std::forward<NoCollision>(nocollision));
-		}
-		else
-		{
-			insert(source.begin(), source.end(), std::forward<Collision>(collision),
-			       std::forward<NoCollision>(nocollision));
-		}
+		insert(source.begin(), source.end(), std::forward<Collision>(collision),
+		       std::forward<NoCollision>(nocollision));
 	}
 	template <class C2>
 	void merge(const flat_map<key_type, mapped_type, C2, allocator_type> &source)
@@ -650,22 +586,7 @@ class flat_map
 	template <class C2>
 	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source)
 	{
-		if (source.capacity() >= source.size() + size())
-		{
-			swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
-			insert(source.begin(), source.end(), [](auto &a, const auto &b) {
-				// b is const in the context that call this lambda function.
-				// But in this present context, we know it's actually a reference to a non-const value.
-				// Casting away const in order to change a value should almost never be used.
-				auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
-				using std::swap;
-				swap(a, c);
-			});
-		}
-		else
-		{
-			insert(source.begin(), source.end());
-		}
+		insert(source.begin(), source.end());
 	}
 	//TODO: figure out what went wrong with previous implementation of find. It used the flat_map iterator instead of the content iterator.
 	// Suggest a bug in either comp or the iterators.
@@ -744,6 +665,18 @@ class flat_map
   private:
 	content_t content;
 	void sort(typename content_t::iterator first, typename content_t::iterator last) { std::sort(first, last, comp); }
+	/**
+	 * @brief add elements to the map. They must be sorted, unique, and their keys absent from the map.
+	 *
+	 * Has no effect on the map if it throws, provided the elements can be moved without throwing.
+	 */
+	void add_sorted(content_t &&added)
+	{
+		const auto n = static_cast<difference_type>(content.size());
+		content.reserve(content.size() + added.size());
+		content.insert(content.end(), std::make_move_iterator(added.begin()), std::make_move_iterator(added.end()));
+		std::inplace_merge(content.begin(), content.begin() + n, content.end(), comp);
+	}
 	// void remove_collisions(iterator first = begin(), iterator last = end())
 	// { //assume a sorted array
 	// 	auto beg = first while (first != last)
-- 
2.43.0


From fdb21bf86d9ef9bb921a54e1089a2465fb7eee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 02/93] fix: flat_map hinted insertion searched the wrong side
 of the hint

---
 include/blockTensor/flat_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 1013197..1ddcd45 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -474,6 +474,8 @@ class flat_map
 			it.it = content.emplace(hint.it, std::move(val));
 			success = true;
 		}
+		else
+			it = erase(hint, hint); // convert the const_iterator in an iterator
 		return std::make_pair(it, success);
 	}
 	template <class... Args>
@@ -690,7 +692,7 @@ class flat_map
 		bool is_end = hint == cend();
 		hint = hint - 1*is_end;// avoid dereferencing the end iterator, which isn't a valid value. It an acceptable hint.
 		const_iterator first = comp(*hint, key) ? hint : cbegin();
-		const_iterator last = comp(key, *hint) ? cend() : hint + 1;
+		const_iterator last = comp(key, *hint) ? hint + 1 : cend();
 		return std::make_pair(first, last);
 	}
 	std::pair<iterator, iterator> use_hint(iterator hint,const key_type &key)
-- 
2.43.0


From d6f87f0858f90c58fe17f098b2cbcfb5d8b39b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 03/93] fix: flat_map copy assignment that fails must leave a
 valid map

---
 include/blockTensor/flat_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 1ddcd45..7e045a0 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -197,7 +197,8 @@ class flat_map
 	// assigment
 	flat_map &operator=(const flat_map &other)
 	{
-		content = other.content;
+		content_t copy(other.content); // an assignment that fails midway would leave the elements out of order.
+		content = std::move(copy);
 		comp = other.comp;
 		return *this;
 	}
-- 
2.43.0


From 06671efdb558ebdcd06a9e5c96752b4e711043b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 04/93] fix: flat_map lookups and erasure of absent keys

---
 include/blockTensor/flat_map.h | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 7e045a0..7c5faec 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -542,7 +542,7 @@ class flat_map
 	size_type erase(const key_type &k)
 	{
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
+		if (it == end() or comp(k, *it))
 		{
 			return 0;
 		}
@@ -616,31 +616,19 @@ class flat_map
 	}
 	iterator lower_bound(const key_type &k)
 	{
-		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
+		return std::lower_bound(begin(), end(), k, comp);
 	}
 	const_iterator lower_bound(const key_type &k) const
 	{
-		auto it = std::lower_bound(cbegin(), cend(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
+		return std::lower_bound(cbegin(), cend(), k, comp);
 	}
 	iterator upper_bound(const key_type &k)
 	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
+		return std::upper_bound(begin(), end(), k, comp);
 	}
 	const_iterator upper_bound(const key_type &k) const
 	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
+		return std::upper_bound(begin(), end(), k, comp);
 	}
 
 	key_compare key_comp() const { return comp.comp; }
-- 
2.43.0


From 7bacd02429ed1252e891e3a9eb476fc6f0231dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 05/93] fix: scalar divided by a btensor wrote past the end of
 an empty block list

---
 sources/btensor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 186e177..26fe181 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3158,10 +3158,13 @@ std::tuple<btensor::index_list, btensor::index_list> btensor::element_index_deco
 }
 btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
-	auto out = quantit::sparse_zeros_like(B);
+	// the division of integers promotes to floating point, so the type of the result is the one torch gives.
+	auto out = quantit::sparse_zeros_like(B, (A / torch::ones({}, B.options())).options());
 	out.reserve_space_(std::distance(B.begin(), B.end()));
-	std::transform(B.begin(), B.end(), out.begin(),
-	               [&A](const auto &in) { return std::make_pair(in.first, A / in.second); });
+	for (const auto &in : B)
+	{
+		out.block(in.first) = A / in.second;
+	}
 	return out;
 }
 /**
-- 
2.43.0


From 1e71e1c60bc706ec5000c753b95f02e98178cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 06/93] fix: btensor::block left an undefined tensor in the
 block list and ignored a wrong rank

---
 sources/btensor.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 26fe181..4a751c7 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -373,10 +373,9 @@ bool btensor::block_conservation_rule_test(index_list block_index) const
 torch::Tensor &btensor::block_at(const index_list &block_index) { return blocks_list.at(block_index); }
 
 /**
- * @brief This function always return something (exception such as out-of-memory are possible). It can return an
- * uninitialized tensor, if the block index is too large in any direction or is not allowed by the selection rule.
- * If you do an in-place operation on the returned tensor and its' block_index is allowed, the change will be performed
- * within the block tensor.
+ * @brief Access a block of the tensor, a block that isn't stored yet is created and filled with zeros.
+ * Throws if the block index has the wrong size, is too large in any direction or isn't allowed by the selection rule.
+ * In-place operations on the returned tensor are performed within the block tensor.
  *
  *
  * @param block_index the block you wish to access
@@ -386,14 +385,27 @@ torch::Tensor &btensor::block(const index_list &block_index) // create the block
                                                              // freestanding sparrse tensor of zeros.
 {
 	if (block_index.size() != rank)
-		std::invalid_argument(fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+		throw std::invalid_argument(
+		    fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+	for (size_t i = 0; i < rank; ++i)
+	{
+		if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])
+			throw std::invalid_argument(fmt::format("block index {} is outside of the tensor", block_index));
+	}
 	if (!block_conservation_rule_test(block_index))
 	{
 		auto message = fmt::format("block index {} not allowed by selection rule. {} != {}", block_index,
 		                           fmt::join(block_quantities(block_index), "*"), selection_rule.value);
 		throw std::invalid_argument(message);
 	}
-	return blocks_list[block_index];
+	auto it = blocks_list.find(block_index);
+	if (it == blocks_list.end())
+	{
+		auto size_view = block_sizes(block_index);
+		std::vector<int64_t> size(size_view.begin(), size_view.end());
+		it = std::get<0>(blocks_list.insert({block_index, torch::zeros(size, _options)}));
+	}
+	return it->second;
 }
 
 void btensor::throw_bad_tensor(const btensor &T)
-- 
2.43.0


From 8a89db5c1eb0eaeafa8790fb7004b01b5d87f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 07/93] fix: btensor::sum kept the selection rule of the summed
 tensor on a rank 0 result

---
 sources/btensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 4a751c7..1160911 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1510,7 +1510,8 @@ btensor btensor::bmm(const btensor &mat) const
 
 btensor btensor::sum() const
 {
-	auto out = btensor({}, selection_rule.value, this->options());
+	// a tensor without dimensions can only hold a value under the neutral selection rule.
+	auto out = btensor({}, selection_rule->neutral(), this->options());
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
 	torch::Tensor out_val = torch::zeros({}, options());
 	for (auto &a : list)
-- 
2.43.0


From 85e847be227cdd892cfcb4002a06593eebe37711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 08/93] fix: cval_shift_ shifted the selection rule in the
 wrong direction

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1160911..0334f20 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2193,7 +2193,7 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
 {
 	shift_impl(shift, dim);
-	selection_rule.value *= shift.inverse();
+	selection_rule.value *= shift; // the blocks of the shifted dimension must remain allowed.
 	return *this;
 }
 
-- 
2.43.0


From 9aa4291184da91f8a2895b06f7518ca7de4dd7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 09/93] fix: btensor::any returned an undefined tensor for a
 btensor without blocks

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0334f20..5767b3b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3116,7 +3116,7 @@ torch::Tensor btensor::any() const
 {
 	auto it = this->begin();
 	if (it == this->end())
-		return torch::Tensor();
+		return torch::zeros({}, _options.merge_in(torch::kBool));
 	auto out = std::get<1>(*it).any();
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
-- 
2.43.0


From d4dd0706acf684286704e667daf7390289d4fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 10/93] fix: in-place pow with a btensor exponent had its
 in-place and out-of-place variants swapped

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 5767b3b..6a00287 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1757,8 +1757,8 @@ btensor btensor::pow(const btensor &exponent) const
 btensor &btensor::pow_(const btensor &exponent)
 {
 	return broadcast_operation_(
-	    exponent, [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); },
-	    [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); });
+	    exponent, [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); },
+	    [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); });
 }
 btensor btensor::mul(const btensor &other) const
 {
-- 
2.43.0


From 10c900916c6652036a5b59f957fd89bb3e892569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 11/93] fix: basic_create_view kept blocks that are outside of
 a selected trailing dimension

---
 sources/btensor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 6a00287..9b74ea9 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -687,13 +687,16 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		bool keep = true;
 		auto out_it = out_index.begin();
 		auto filter_it = filter.begin();
-		for (auto index_it = index_in.begin(); index_it != index_in.end() and out_it != out_index.end() and keep;
+		for (auto index_it = index_in.begin(); index_it != index_in.end() and keep;
 		     ++index_it, ++filter_it)
 		{
-			*out_it = *index_it;
 			auto sliced = *filter_it == -1;
 			keep &= sliced or *index_it == *filter_it;
-			out_it += sliced;
+			if (sliced)
+			{
+				*out_it = *index_it;
+				++out_it;
+			}
 		}
 		return std::make_tuple(keep, out_index);
 	};
-- 
2.43.0


From 2b67a3931d50dce40028f0737656f3bd42b3c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 12/93] fix: squeeze of every unit dimension refused tensors
 whose unit dimensions carry a quantity

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 9b74ea9..fc69631 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2155,7 +2155,7 @@ btensor &btensor::squeeze_()
 	{
 		res[dim] *= !(section_number(dim) == 1 and section_size(dim, 0) == 1);
 	}
-	*this = reshape_as(shape_from(res));
+	*this = basic_create_view(res); // takes the quantities of the dropped dimensions out of the selection rule.
 	return *this;
 }
 btensor btensor::squeeze() const
-- 
2.43.0


From 061b0a731522f56a5b16f63fff407da1a8cfb931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 13/93] fix: conversions between rank 0 btensors and tensors

---
 sources/btensor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index fc69631..0f05c29 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2512,6 +2512,11 @@ torch::Tensor btensor::to_dense() const
 	{
 		auto &index = std::get<0>(index_block);
 		auto &tens = std::get<1>(index_block);
+		if (rank == 0) // torch doesn't accept an empty list of slices
+		{
+			out.copy_(tens);
+			continue;
+		}
 		auto Slices = full_slice(*this, index);
 		out.index_put_(Slices, tens);
 	}
@@ -2531,7 +2536,8 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 		{
 			auto shape_view = out.block_sizes(index);
 			auto S = btensor::full_slice(out, index);
-			auto block = values.index(torch::ArrayRef(S));
+			// torch doesn't accept an empty list of slices
+			auto block = out.dim() ? values.index(torch::ArrayRef(S)) : values;
 			if ((torch::linalg::vector_norm(block.flatten().to(torch::promote_types(
 			                                    torch::kFloat, torch::typeMetaToScalarType(block.options().dtype()))),
 			                                2, {}, false, {}) > cutoff)
-- 
2.43.0


From 099ecd7fc388415641655d97349a8c67ed9539ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 14/93] fix: adding an expiring btensor modified the left
 operand

---
 sources/btensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0f05c29..2a9b9ff 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2711,6 +2711,10 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
+	for (auto &a : out) // the copy shares its blocks with *this
+	{
+		std::get<1>(a) = std::get<1>(a).clone();
+	}
 	out.blocks_list.merge(
 	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
 	                       // with that variant. torch::tensor do shallow copy by default anyway, so it doesn't
@@ -2728,7 +2732,8 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
-	out._options = std::get<1>(*out.begin()).options();
+	if (out.begin() != out.end())
+		out._options = std::get<1>(*out.begin()).options();
 	return out;
 }
 /*!
-- 
2.43.0


From 966ee31cae124e40000541dffe28983162630da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 15/93] fix: shape comparison of btensors ignored how the
 sections are split between dimensions

---
 sources/btensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2a9b9ff..b1eef74 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2238,7 +2238,8 @@ void btensor::shift_impl(any_quantity_cref shift, int64_t dim)
 
 bool btensor::test_same_shape(const btensor &a, const btensor &b)
 {
-	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes))
+	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes) or
+	    !(a.sections_by_dim == b.sections_by_dim))
 		return false;
 	return true;
 }
@@ -2249,7 +2250,7 @@ void btensor::add_tensor_check(const btensor &a, const btensor &b)
 		throw non_matching_cvals("The conserved quantities of the tensors must be a perfect match");
 	if (!(a.selection_rule == b.selection_rule))
 		throw bad_selection_rule("The selection rules of the tensors must be the same");
-	if (!(a.sections_sizes == b.sections_sizes))
+	if (!(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))
 		throw non_matching_sizes("The blocks of the tensors must have the same dimensions");
 }
 
-- 
2.43.0


From 41f1c5a3543fbf956573939376682966c851f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 16/93] fix: in-place broadcasting with an operand of larger
 rank

---
 sources/btensor.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b1eef74..c6e1222 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1228,11 +1228,14 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 	// rank for the inplace case. This is a bit of a silly decision on torch's part, since it allow reallocation if the
 	// tensor has a large enough rank.
 
-	const auto &smaller_rank = std::min(rank, other.rank);
-	const auto &larger_rank = std::max(rank, other.rank);
-	const btensor &larger_tensor = rank == larger_rank ? *this : other;
-	const btensor &smaller_tensor = other.rank == smaller_rank ? other : *this;
-	bool this_is_large = rank == larger_rank;
+	if (rank < other.rank)
+		throw std::invalid_argument(fmt::format(
+		    "in-place broadcasting of a rank {} tensor with a larger rank {} tensor isn't possible", rank, other.rank));
+	const auto &smaller_rank = other.rank;
+	const auto &larger_rank = rank;
+	const btensor &larger_tensor = *this;
+	const btensor &smaller_tensor = other;
+	constexpr bool this_is_large = true;
 	auto [comp_mask, new_sections_by_dim, new_sections_sizes, new_cvals, out_selr] =
 	    mul_helpers::shape_compute(this_is_large, smaller_rank, larger_rank, smaller_tensor, larger_tensor);
 
@@ -1256,15 +1259,9 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 	// to restore exactly the same behavior as torch would be to store the block list and other properties in a shared
 	// structure.
 
-	bool can_do_inplace =
-	    std::none_of(comp_mask.begin(), comp_mask.end(),
-	                 [this_is_large](auto &&x)
-	                 {
-		                 bool out = (x >> this_is_large) & 1; // whether the current dimensions is 1 in this.
-		                 out ^= ((x >> !this_is_large) & 1) &&
-		                        out; // exclusive or with the value in the other if it's currently true.
-		                 return out;
-	                 });
+	// the result has the shape of this only if none of its size 1 dimensions (bit 1 of the mask) is matched with a larger
+	// dimension of the other (bit 0 not set).
+	bool can_do_inplace = std::none_of(comp_mask.begin(), comp_mask.end(), [](auto &&x) { return x == 2; });
 
 	// when there are no broadcast, there's no need for nested loop, we can increment the two iterator in lockstep
 	// When there are broadcast, there's a more complicated, shorter loop. But it probably trigger many more rollback
-- 
2.43.0


From 705a2b235629756d90346d729f14dd19614aed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 17/93] fix: broadcasting of a unit dimension against a single
 larger section

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c6e1222..9a3d0af 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1052,14 +1052,14 @@ struct mul_helpers
 				--it;
 				--larger_sec;
 				--smaller_sec;
-				if (*larger_sec > *smaller_sec) // one of them is one
+				if (*it & 1) // the smaller tensor has a unit dimension
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    larger_tensor.section_sizes_cqtts(larger_rank - n);
 					std::tie(short_cval_start, short_cval_end) =
 					    smaller_tensor.section_conserved_qtt_range(smaller_rank - n);
 				}
-				else // or they are equal
+				else // or they are equal, or the larger tensor has the unit dimension
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    smaller_tensor.section_sizes_cqtts(smaller_rank - n);
-- 
2.43.0


From 8d389b85e85f5413d858c425ca34e8d2698a5fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 18/93] fix: tensordot with a rank 0 operand never ended

---
 sources/btensor.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 9a3d0af..d3260f5 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2045,6 +2045,12 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		}
 		return std::make_tuple(a_beg, b_beg);
 	};
+	auto find_next_column = [&next_index](const auto &iterator, const auto &end, const auto &less)
+	{
+		if (std::get<0>(*iterator).empty()) // rank 0 tensors have a single block.
+			return end;
+		return std::lower_bound(iterator, end, next_index(iterator), less);
+	};
 	std::vector<int64_t> out_block_index(out_btens.rank);
 	std::vector<int64_t> size_vector(out_btens.rank);
 	auto cpt_output_block = [dim_l, &out_block_index](auto this_current_block_iter, auto other_current_block_iter)
@@ -2072,12 +2078,11 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		{
 			// assert(out_list_it != out_list.end());
 			auto other_curr_block = t2.begin();
-			auto this_col_end = std::lower_bound(this_col_start, t1.end(), next_index(this_col_start),
-			                                     less); // also the next column start if it's not the end.
+			auto this_col_end = find_next_column(this_col_start, t1.end(), less); // also the next column start if it's not the end.
 			while (other_curr_block != t2.end() and out_list_it != out_list.end()) // loop over all the columns of other
 			{
 				auto this_curr_block = this_col_start;
-				auto other_col_end = std::lower_bound(other_curr_block, t2.end(), next_index(other_curr_block), less);
+				auto other_col_end = find_next_column(other_curr_block, t2.end(), less);
 				cpt_output_block(this_curr_block, other_curr_block); // side effect: update out_block_index
 				// if (!out_btens.block_conservation_rule_test(out_block_index))// not worth it with 50 site heisenber
 				// model dmrg
-- 
2.43.0


From 6e4acbe73627c161d8d76ce2b779768fbc8c3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 19/93] fix: views and index assignment of rank 0 read past the
 end of empty lists

---
 sources/btensor.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d3260f5..39d1827 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -706,8 +706,9 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		auto [keep, out_index] = filter(std::get<0>(index_block), blocks);
 		if (keep)
 		{
-			out_tensor.blocks_list.insert(out_tensor.blocks_list.end(),
-			                              {out_index, std::get<1>(index_block).index(element)});
+			// torch doesn't accept an empty list of slices
+			auto block = element.empty() ? std::get<1>(index_block).alias() : std::get<1>(index_block).index(element);
+			out_tensor.blocks_list.insert(out_tensor.blocks_list.end(), {out_index, std::move(block)});
 		}
 	}
 	if (preserve_rank)
@@ -733,9 +734,11 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		auto itv = value_index.begin();
 		for (auto ito = out.begin(); ito != out.end(); ++ito)
 		{
-			bool isNegative1 = (*ito) == -1;
-			*ito = (*itv) * isNegative1 + (!isNegative1) * (*ito);
-			itv += isNegative1;
+			if ((*ito) == -1)
+			{
+				*ito = *itv;
+				++itv;
+			}
 		}
 		return out;
 	};
@@ -751,7 +754,10 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 			                          size_view.end()); // because torch factories don't accept iterator pairs.
 			this->blocks_list.insert({out_ind, torch::zeros(size, options())});
 		}
-		this->blocks_list.at(out_ind).index_put_(element, block);
+		if (element.empty()) // torch doesn't accept an empty list of slices
+			this->blocks_list.at(out_ind).copy_(block);
+		else
+			this->blocks_list.at(out_ind).index_put_(element, block);
 	}
 	return *this;
 }
-- 
2.43.0


From 09804146e557eb8d44f18fd22cc1c9b22fab1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 20/93] fix: product and division of a btensor by a scalar
 reported a type that isn't the one of its blocks

---
 sources/btensor.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 39d1827..d5f367f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -923,11 +923,12 @@ btensor btensor::mul(Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = promote_types(_options.dtype(), other.type());
+	// a scalar never promotes a tensor within the same category of types, unlike another tensor.
+	auto out_opt = torch::empty({}, _options).mul(other).options();
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other),
-	               out_dtype);
+	               out_opt);
 }
 btensor btensor::le(btensor::Scalar other) const
 {
@@ -989,11 +990,12 @@ btensor btensor::div(btensor::Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = promote_types(_options.dtype(), other.type());
+	// a scalar never promotes a tensor within the same category of types, unlike another tensor.
+	auto out_opt = torch::empty({}, _options).div(other).options();
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other),
-	               out_dtype);
+	               out_opt);
 }
 struct mul_helpers
 {
-- 
2.43.0


From 0cd01f57156fdebe5b86b5b96d7fe4bf73a4d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 21/93] fix: btensor::any only looked at the first block

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d5f367f..40c3289 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3146,7 +3146,7 @@ torch::Tensor btensor::any() const
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
 	{
-		out &= std::get<1>(*it).any();
+		out |= std::get<1>(*it).any();
 		++it;
 	}
 	return out;
-- 
2.43.0


From 6495a5bea211939b9f61a0f4557bf9a8b1f762a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 22/93] fix: bmm reported the default type instead of the type
 of its operands

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 40c3289..0aa6168 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1342,7 +1342,7 @@ btensor btensor::bmm(const btensor &mat) const
 	mat_inds.back() = -1;
 	auto [comp_mask, new_sections_by_dim, new_sections_sizes, new_cvals, out_selr] = mul_helpers::shape_compute(
 	    false, rank - 2, rank - 2, this->shape_from(batch_shape_inds), mat.shape_from(batch_shape_inds));
-	btensor batch_shape(new_sections_by_dim, new_cvals, new_sections_sizes, selection_rule->neutral());
+	btensor batch_shape(new_sections_by_dim, new_cvals, new_sections_sizes, selection_rule->neutral(), options());
 	auto out = quantit::shape_from(
 	    batch_shape, this->shape_from(this_inds),
 	    mat.shape_from(mat_inds)); // ambiguity because of the in-class context lifted by the QuantiT namespace;
-- 
2.43.0


From df69368251cd2ec0872216a26f2acb1f2714328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 23/93] fix: C<N> built from a negative multiple of N other
 than -N was out of range

---
 include/Conserved/quantity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 76ed977..cecb905 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -93,7 +93,7 @@ class C
 	 *
 	 *
 	 */
-	constexpr C(int16_t _val) noexcept : val(  (_val != -N)*(_val < 0) * N + (_val % N) )
+	constexpr C(int16_t _val) noexcept : val((_val % N < 0) * N + (_val % N))
 	{
 		/*
 		 * A quick explanation of the init line for val:
-- 
2.43.0


From e1f2017457c09d8db878075eca0008c9579b6c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 24/93] fix: any_quantity_vector built from an expiring
 quantity_vector was empty

---
 include/Conserved/Composite/quantity_vector.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 9fa4640..4880ecb 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -63,10 +63,7 @@ public:
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
 	any_quantity_vector(const quantity_vector<Conc_cgroup, Allocator>& other) : ptr(other.clone()) {}
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
-	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>())
-	{
-		*ptr = std::move(other);
-	}
+	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>(std::move(other))) {}
 
 	any_quantity_vector& operator=(any_quantity_vector other)
 	{
-- 
2.43.0


From 43fb6320f1d9a8db9312a772c6c42c25819d8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 25/93] fix: assignment of an any_quantity could not change the
 underlying type

---
 include/Conserved/Composite/cquantity.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/cquantity.h b/include/Conserved/Composite/cquantity.h
index 47cb85e..009b427 100644
--- a/include/Conserved/Composite/cquantity.h
+++ b/include/Conserved/Composite/cquantity.h
@@ -239,7 +239,8 @@ inline any_quantity any_quantity::inverse() &&
 }
 inline any_quantity_ref any_quantity::operator=(const any_quantity &other)
 {
-	*impl = *other.impl;
+	if (this != &other)
+		any_quantity(other).swap(*this);
 	return *this;
 }
 inline void any_quantity::swap(any_quantity_ref other) { impl->swap(other); }
-- 
2.43.0


From 1058c2bfbc539de30477eb3cc322809047305761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 26/93] fix: copy, comparison and queries of a default
 constructed any_quantity_vector

---
 include/Conserved/Composite/quantity_vector.h    | 16 ++++++++++------
 .../Conserved/Composite/quantity_vector_impl.h   |  8 +++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 4880ecb..7b2306f 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -42,7 +42,7 @@ public:
 
 	any_quantity_vector(std::unique_ptr<vquantity_vector>&& _ptr) : ptr(std::move(_ptr)) {}
 	any_quantity_vector() = default;
-	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr->clone()) {}
+	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr ? other.ptr->clone() : nullptr) {}
 	any_quantity_vector(any_quantity_vector&& other) : ptr(std::move(other.ptr)) {}
 	any_quantity_vector(size_t cnt, any_quantity_cref val) : ptr(val.make_vector(cnt)) {}
 	/**
@@ -73,7 +73,9 @@ public:
 
 	bool operator==(const any_quantity_vector& other) const
 	{
-		return ptr and *ptr == *(other.ptr);
+		if (not ptr or not other.ptr)
+			return not ptr and not other.ptr;
+		return *ptr == *(other.ptr);
 	}
 	bool operator!=(const any_quantity_vector& other) const
 	{
@@ -82,6 +84,7 @@ public:
 
 	reference operator[](size_t n)
 	{
+		if (not ptr) throw std::runtime_error( fmt::format("{} cannot be called with unitialized any_quantity_vector.",__func__ ) );
 		return any_quantity_ref((*ptr)[n]);
 	}
 	const_reference operator[](size_t n) const
@@ -134,23 +137,24 @@ public:
 	// capacity
 	[[nodiscard]] bool empty() const
 	{
-		return ptr->empty();
+		return not ptr or ptr->empty();
 	}
 	[[nodiscard]] size_t size() const
 	{
-		return ptr->size();
+		return ptr ? ptr->size() : 0;
 	}
 	[[nodiscard]] size_t max_size() const
 	{
-		return ptr->max_size();
+		return ptr ? ptr->max_size() : 0;
 	}
 	void reserve(size_t n)
 	{
+		if (not ptr) throw std::runtime_error( fmt::format("{} cannot be called with unitialized any_quantity_vector.",__func__ ) );
 		ptr->reserve(n);
 	}
 	[[nodiscard]] size_t capacity() const
 	{
-		return ptr->capacity();
+		return ptr ? ptr->capacity() : 0;
 	}
 	void shrink_to_fit()
 	{
diff --git a/include/Conserved/Composite/quantity_vector_impl.h b/include/Conserved/Composite/quantity_vector_impl.h
index 35dda66..694037d 100644
--- a/include/Conserved/Composite/quantity_vector_impl.h
+++ b/include/Conserved/Composite/quantity_vector_impl.h
@@ -130,7 +130,13 @@ struct cgroup_iterator
 	                                                       any_quantity, any_quantity_ref, vquantity *, std::ptrdiff_t>;
 	any_quantity_ref operator*() const { return *it; }
 	vquantity *operator->() const { return it; }
-	base_type::difference_type operator-(cgroup_iterator rhs) { return ar->ptr_diff(it, rhs.it); }
+	base_type::difference_type operator-(cgroup_iterator rhs)
+	{
+		if (ar)
+			return ar->ptr_diff(it, rhs.it);
+		else
+			return 0;
+	}
 	cgroup_iterator &operator+=(base_type::difference_type n)
 	{
 		it = ar->ptr_add(it, n);
-- 
2.43.0


From b9af0f465f04afcf892b6bb1430a0b433fd1b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 27/93] fix: reverse of a list of dimensions had twice its
 length

---
 sources/dimension_manip.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index ff1e253..d93ff7b 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -49,9 +49,7 @@ int64_t prod(torch::IntArrayRef dims, size_t start, size_t n)
 
 std::vector<int64_t> reverse(torch::IntArrayRef dims)
 {
-	std::vector<int64_t> out(dims.size());
-	out.insert(out.begin(),dims.rbegin(),dims.rend());
-	return out;
+	return std::vector<int64_t>(dims.rbegin(),dims.rend());
 }
 
 
-- 
2.43.0


From 0e7201050e8ec8f08814a45269e90a8aeaa72740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 28/93] fix: compute_first_index_ascending read past the end
 and ignored its minimum size and tolerance

---
 sources/LinearAlgebra.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 6bafc72..5704ab5 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -31,15 +31,20 @@ int64_t compute_first_index_ascending(torch::Tensor d, torch::Scalar tol, torch:
 	auto Last_dim_size = d.sizes()[d.sizes().size() - 1];
 	// auto last_index = Last_dim_size-1;
 	int64_t first_index = 0;
-	auto trunc_val = d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
-	auto min_index = Last_dim_size - min_size;
-	auto max_index = Last_dim_size - max_size;
-	while (first_index <= min_index)
+	if (Last_dim_size == 0)
+		return first_index;
+	const auto toln = std::pow(tol.toDouble(), pow.toDouble());
+	auto trunc_val = d.index({Ellipsis, first_index}).abs().pow_(pow);
+	// first index allowed by the minimum size, and by the maximum size.
+	const auto min_index = Last_dim_size - static_cast<int64_t>(std::min<size_t>(min_size, Last_dim_size));
+	const auto max_index = Last_dim_size - static_cast<int64_t>(std::min<size_t>(max_size, Last_dim_size));
+	while (first_index < min_index)
 	{
-		if (  (trunc_val > tol).any().item().to<bool>() and first_index >= max_index)
+		if (  (trunc_val > toln).any().item().to<bool>() and first_index >= max_index)
 			break;
 		++first_index;
-		trunc_val += d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
+		if (first_index < Last_dim_size)
+			trunc_val += d.index({Ellipsis, first_index}).abs().pow_(pow);
 	}
 	return first_index;
 }
-- 
2.43.0


From 34f5111e95ba477a6b6c2ccb8169a019a98456bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 29/93] fix: compute_last_index never ended with a minimum size
 of zero

---
 sources/LinearAlgebra.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 5704ab5..be7a77e 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -11,6 +11,7 @@
  * Licensed under GPL v3
  */
 
+#include <cmath>
 #include <exception>
 #include <limits>
 #include "LinearAlgebra.h"
@@ -66,15 +67,18 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
 	// not trying to optimize based on underlying type of the tensors. might be necessary, but will require significant efforts.
 	using namespace torch::indexing;
 	auto Last_dim_size = d.sizes()[d.sizes().size()-1];
-	auto toln = torch::pow(torch::ones({})*tol,pow);
+	const auto toln = std::pow(tol.toDouble(),pow.toDouble());
 	int64_t last_index = Last_dim_size-1;
+	if (last_index < 0)
+		return last_index;
 	auto trunc_val = d.index({Ellipsis,last_index}).abs().pow(pow);// will have to test to make sure we're not doing the abs and pow in place in d
-	while (last_index >= min_size)
+	while (last_index >= 0 and static_cast<size_t>(last_index) >= min_size)
 	{
-		if (  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)
+		if (  (  trunc_val > toln).any().item().to<bool>() and static_cast<size_t>(last_index) < max_size)
 			break;
 		--last_index;
-		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
+		if (last_index >= 0)
+			trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
 	}
 	return last_index;
 }
-- 
2.43.0


From 7ed7d27c9f79fe064c9d2531b7e034e9dd88d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 30/93] fix: truncated eigenvalue decomposition truncated the
 wrong tensor and kept the smallest eigenvalues

---
 sources/LinearAlgebra.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index be7a77e..2f61692 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -95,8 +95,8 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,t
 
 std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size, size_t max_size, torch::Scalar pow)
 {	
-	auto& [d,u] = tensors;
-	return truncate(u,d,tol,min_size,max_size,pow);
+	auto& [u,e] = tensors;
+	return truncate(u,e,tol,min_size,max_size,pow);
 }
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {	
@@ -104,7 +104,7 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch:
 	return truncate(u,d,v,tol,min_size,max_size,pow);
 }
 
-std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor e,torch::Tensor u, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
+std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
 	using namespace torch::indexing;
 	auto last_index = compute_last_index(e,tol,pow,min_size,max_size);
@@ -165,7 +165,11 @@ std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch
 
 std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
-	return truncate(quantit::eigh(A,split),tol,min_size,max_size,pow);
+	auto [e,u] = quantit::eigh(A,split);
+	// eigh sorts the eigenvalues in ascending order, truncate rejects the last ones.
+	auto order = e.abs().argsort(-1,true);
+	std::tie(u,e) = truncate(u.index_select(-1,order),e.index_select(-1,order),tol,min_size,max_size,pow);
+	return std::make_tuple(e,u);
 }
 
 std::tuple<torch::Tensor,torch::Tensor> eig(torch::Tensor A, size_t split)
-- 
2.43.0


From d969a26d52879f3ebd890637676cec709fc3a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 31/93] fix: truncate was declared with an argument type it is
 not defined with

---
 include/LinearAlgebra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LinearAlgebra.h b/include/LinearAlgebra.h
index 0cb4cee..c28768a 100644
--- a/include/LinearAlgebra.h
+++ b/include/LinearAlgebra.h
@@ -68,7 +68,7 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
  * Output is in the same order as input
  */
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor d, torch::Tensor v, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
-std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
+std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
 
 /**
  * truncate the input tensors according to the small values of e.
@@ -92,7 +92,7 @@ std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e
  * @param pow power in the computation of the truncation error
  * @return std::tuple<torch::Tensor,torch::Tensor> 
  */
-std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
+std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
 
 /**
  * perform the singular value decomposition of the rank N tensor A. 
-- 
2.43.0


From b84068cc9304c7f4417e9a496f17c54ecdcadc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 32/93] fix: decomposition of a block tensor without any block

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1dd5886..bb0a677 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -232,7 +232,7 @@ compact_dense(const btensor &tensor)
 	out_type out_tensors(compact_tensor_count(block_list, rank_greater_than_2, rank, equal_index, equal_c_vals));
 	// create the list of <tensorIndex, bloc_position> pairs for all the sections involved.
 	auto it1 = block_list.begin();
-	auto it2 = block_list.begin() + 1;
+	auto it2 = block_list.begin() + (it1 != block_list.end());
 	auto out_it = out_tensors.begin();
 	auto block_list_l = std::distance(it1, block_list.end());
 	auto out_l = std::distance(out_it, out_tensors.end());
-- 
2.43.0


From 378576640f0e043e08b347621c9abcbb6b3fc109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 33/93] fix: block decompositions lost the element type of the
 tensor and mixed up columns

---
 sources/btensor_linalg.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index bb0a677..ca49d12 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -131,7 +131,15 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
-	auto out_tensor = torch::zeros(tensor_size);
+	// the columns are listed in increasing order, but were encountered in an arbitrary one.
+	col_acc = 0;
+	for (auto &[col, slice] : encountered_block_col)
+	{
+		auto slice_end = col_acc + (slice.stop() - slice.start());
+		slice = torch::indexing::Slice(col_acc, slice_end);
+		col_acc = slice_end;
+	}
+	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
 	{
-- 
2.43.0


From 3c60e991e70d3e1c78400d2516e50aad10d15cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 34/93] fix: endless recursion of the block eigenvalue
 decomposition

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index ca49d12..05750a2 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -379,7 +379,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// reshape according to split
 	auto rtensor = tensor.reshape({static_cast<int64_t>(split)});
 	// call batched SVD
-	auto [d, rU] = eigh(rtensor, true); // we want the eigenvectors.
+	auto [d, rU] = eigh(rtensor, BOOL(false)); // BOOL: a bool would be taken for the split index of this very function.
 	// undo reshape
 	std::vector<int64_t> U_shape(tensor.dim(), -1);
 	{
-- 
2.43.0


From fd6dc65af0cd6e47a9779ccc18c9f8f91e8a3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 35/93] fix: selection rule of the block eigenvectors

---
 sources/btensor_linalg.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 05750a2..6e0f59b 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -333,9 +333,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape)
-	                           .shift_selection_rule_(tensor.section_conserved_qtt(tensor.dim() - 1, 0).inverse()),
-	                       rightD_shape);
+	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
-- 
2.43.0


From 000b5ac582d146630a9c88d5fbea78274ad411b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 36/93] fix: singular values and eigenvalues of a complex block
 tensor claimed to be complex

---
 sources/btensor_linalg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 6e0f59b..2b23b5c 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -330,6 +330,8 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	// the eigenvalues of a complex matrix are real.
+	d = d.to(d.options().dtype(c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype()))));
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
@@ -442,6 +444,8 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	//  where D always has the neutral selection rule therefor, all the conserved quantities of d must be the neutral
 	//  element.
 	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	// the singular values of a complex matrix are real.
+	d = d.to(d.options().dtype(c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype()))));
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-- 
2.43.0


From 972b420d6418d502b35f4903bd62f0ef987da41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 37/93] fix: truncated block decompositions kept too few or the
 wrong values, with blocks of the others left behind

---
 sources/btensor_linalg.cpp | 76 +++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 2b23b5c..4a6d189 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -680,53 +680,45 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	{
 		auto &tens = std::get<1>(block);
 		auto l = tens.sizes()[0];
-		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens); // bug here.
+		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens.abs().to(vd.options()));
 		n += l;
 	}
 	// quantit::print(vd);
-	vd = std::get<0>(
-	    vd.sort(-1, true)); // sort the last (only) dimension in descending order //no inplace sort in torch...
-	// vd is now sorted in ascending order.
-	auto smallest_value = vd.index({torch::indexing::Ellipsis, compute_last_index(vd, tol, pow, min, max)});
-	smallest_value -=
-	    2 * smallest_value * epsilon(d.options().dtype()); // Better chance to preserve degenerate multiplets that way.
-	// fmt::print("epsilon {}\n",epsilon(smallest_value).toDouble());
-	// for each block trio, we can remove all the values smaller than the one in smallest_value
-	// without inducing an error larger than the tol.
+	// sort the last (only) dimension in descending order of magnitude //no inplace sort in torch...
+	torch::Tensor order;
+	std::tie(vd, order) = vd.sort(-1, true);
+	auto n_kept = compute_last_index(vd, tol, pow, min, max) + 1;
+	if (n_kept > 0)
+	{
+		// Better chance to preserve degenerate multiplets that way.
+		auto smallest_value = vd[n_kept - 1].item().toDouble();
+		smallest_value -= 2 * smallest_value * epsilon(d.options().dtype()).toDouble();
+		while (smallest_value > 0 and n_kept < L and vd[n_kept].item().toDouble() >= smallest_value) ++n_kept;
+	}
+	// whether each value is kept, in the order of the blocks of d.
+	auto kept = torch::zeros({L}, torch::device(torch::kCPU).dtype(torch::kBool));
+	kept.index_fill_(0, order.slice(0, 0, n_kept), true);
 	auto d_it = d.end();
-	std::vector<btensor::index_list> to_remove;
-	to_remove.reserve(std::distance(d.begin(), d.end()));
 	auto remove_unit_blocks = [](btensor &unitary, const auto &d_ind)
 	{
-		auto U_src = unitary.begin();
-		auto U_dest = unitary.begin();
-		while (U_dest != unitary.end())
+		for (auto U_it = unitary.begin(); U_it != unitary.end();)
 		{
-			auto &src_ind = std::get<0>(*U_src);
-			auto &dest_ind = std::get<0>(*U_dest);
-			U_dest += (dest_ind.back() == d_ind.back());
-			if (U_dest != U_src and U_dest != unitary.end())
-			{
-				swap(*U_dest, *U_src);
-			}
-			U_dest += U_dest != unitary.end(); // stop incrementing if we reached the end
-			++U_src;
+			if (std::get<0>(*U_it).back() == d_ind.back())
+				U_it = unitary.blocks_list.erase(U_it);
+			else
+				++U_it;
 		}
-		unitary.blocks_list.resize(
-		    unitary.blocks_list.size() -
-		    std::distance(U_src, U_dest)); // the unwanted blocks are pushed to the end, resizing down destroy them.
 	};
-	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto last_index)
+	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto &to_keep)
 	{
-		U.sections_sizes[U.sections_sizes.size() - (d.sections_sizes.size() - d_ind.back())] = last_index;
-		using namespace torch::indexing;
+		U.sections_sizes[U.sections_sizes.size() - (d.sections_sizes.size() - d_ind.back())] = to_keep.sizes()[0];
 		auto U_it = U.begin();
 		while (U_it != U.end())
 		{
 			auto &U_ind = std::get<0>(*U_it);
 			auto &Ub = std::get<1>(*U_it);
 			if (U_ind.back() == d_ind.back())
-				Ub = Ub.index({Ellipsis, Slice(0, last_index)});
+				Ub = Ub.index_select(-1, to_keep);
 			++U_it;
 		}
 	};
@@ -735,11 +727,9 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		--d_it;
 		auto &d_ind = std::get<0>(*d_it);
 		auto &db = std::get<1>(*d_it);
-		using namespace torch::indexing;
-		// fmt::print("last_index! {}\n\n", db > smallest_value);
-		// fmt::print("last_index other order because of implicit casts!! {}\n\n",  smallest_value < db);
-		auto last_index = lower_bound(db, smallest_value.item());
-		if (last_index == 0)
+		n -= db.sizes()[0];
+		auto to_keep = kept.slice(0, n, n + db.sizes()[0]).nonzero().flatten().to(db.device());
+		if (to_keep.sizes()[0] == 0)
 		{ // remove the whole block...
 			// i think, out of laziness and lack of advantages to the converse, i will only erase the blocks without
 			// changing the shape of the blocktensor. This mean the resulting tensor will have extra structure, with no
@@ -749,16 +739,16 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 			// Correctly evaluating the bond dimension of a MPS becomes a bit more involved. But the induced extra
 			// structure should disapear as DMRG nears convergence
 			for_each(unitaries, [&d_ind, &remove_unit_blocks](btensor &U) { return remove_unit_blocks(U, d_ind); });
-			d.blocks_list.erase(d_it);
+			d_it = d.blocks_list.erase(d_it);
 		}
-		else
+		else if (to_keep.sizes()[0] < db.sizes()[0])
 		{ // truncate d
-			db = db.index({Slice(0, last_index)});
+			db = db.index_select(0, to_keep);
 			// adjust the section sizes
-			d.sections_sizes[d_ind.back()] = last_index;
+			d.sections_sizes[d_ind.back()] = to_keep.sizes()[0];
 			// truncate all the blocks in U on the section matching with the current d block.
-			for_each(unitaries, [&d_ind, &last_index, &trunc_unit_block](btensor &U)
-			         { return trunc_unit_block(U, d_ind, last_index); });
+			for_each(unitaries, [&d_ind, &to_keep, &trunc_unit_block](btensor &U)
+			         { return trunc_unit_block(U, d_ind, to_keep); });
 		}
 	}
 	return std::make_tuple(std::move(d), std::move(unitaries));
@@ -797,7 +787,7 @@ std::tuple<btensor, btensor> truncate(std::tuple<btensor, btensor> &&e_S, size_t
                                       btensor::Scalar pow)
 {
 	auto [d, unit] =
-	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<0>(e_S))), max, min, tol, pow);
+	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<1>(e_S))), max, min, tol, pow);
 	return std::make_tuple(std::move(d), std::move(std::get<0>(unit)));
 }
 std::tuple<btensor, btensor, btensor> truncate(btensor &&U, btensor &&e, btensor &&S, size_t max, size_t min,
-- 
2.43.0


From 98ae60d23631e543e34d979985209b6b199b703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 38/93] fix: shape_from and reshape_as of a tensor with a
 dimension without any section

---
 sources/btensor.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0aa6168..c91cfc4 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -551,9 +551,8 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 			// fail silently if the index is too large. require a check earlier on.
 		}
 		block_ind -= std::distance(sec_sizes_beg, sec_sizes_end);
-		out_sel_rule.op(
-		    section_conserved_qtt(i, block_ind).inverse(),
-		    not is_slice); // when el_index is negative, block_ind should be 0 and !is_slice false, which is always ok.
+		if (not is_slice)
+			out_sel_rule *= section_conserved_qtt(i, block_ind).inverse();
 		++i;
 	}
 	out_sections_by_dim.resize(out_rank);
@@ -2982,6 +2981,13 @@ bool compatible_sections_by_dim(const btensor::index_list &lhs_sections_by_dim,
 bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 {
 	bool out = true;
+	auto no_section = [](const btensor &x)
+	{
+		auto n = x.section_numbers();
+		return std::any_of(n.begin(), n.end(), [](auto &&s) { return s == 0; });
+	};
+	if (no_section(lhs) or no_section(rhs))
+		return no_section(lhs) == no_section(rhs); // there isn't any block to compare.
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
 	auto increment = [](btensor::index_list &index, torch::IntArrayRef max_index, size_t rank)
-- 
2.43.0


From 4d4c37612abd3276ceb2d608ff2c79509fcee8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 39/93] fix: reshapes of a tensor with a dimension without any
 section

---
 sources/btensor.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c91cfc4..8b7a8e5 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2840,6 +2840,8 @@ T reshape_block_prop(torch::IntArrayRef index_groups, const T &block_values, con
 		// fmt::print("index bundle [{}, {}[\n", *index_start, *(index_start+1));
 		auto size_j = torch::ArrayRef(in_sections_by_dims.data() + *index_start, rank);
 		// fmt::print("sizes {}\n", size_j);
+		if (std::any_of(size_j.begin(), size_j.end(), [](auto &&s) { return s == 0; }))
+			continue; // no section in this group
 		do
 		{
 			// fmt::print("	j {}\n",j);
@@ -2978,16 +2980,19 @@ bool compatible_sections_by_dim(const btensor::index_list &lhs_sections_by_dim,
 }
 // each of those possible block have the same associated flux. (product of all the conserved quantity associated
 // with the block)
+/**
+ * @brief whether a dimension of the tensor has no section at all, in which case no block can exist.
+ */
+bool without_sections(const btensor &x)
+{
+	const auto &n = x.section_numbers();
+	return std::any_of(n.begin(), n.end(), [](auto &&s) { return s == 0; });
+}
 bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 {
 	bool out = true;
-	auto no_section = [](const btensor &x)
-	{
-		auto n = x.section_numbers();
-		return std::any_of(n.begin(), n.end(), [](auto &&s) { return s == 0; });
-	};
-	if (no_section(lhs) or no_section(rhs))
-		return no_section(lhs) == no_section(rhs); // there isn't any block to compare.
+	if (without_sections(lhs) or without_sections(rhs))
+		return without_sections(lhs) == without_sections(rhs);
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
 	auto increment = [](btensor::index_list &index, torch::IntArrayRef max_index, size_t rank)
@@ -3010,6 +3015,8 @@ bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 bool compatible_block_size(const btensor &lhs, const btensor &rhs)
 {
 	bool out = true;
+	if (without_sections(lhs) or without_sections(rhs))
+		return without_sections(lhs) == without_sections(rhs);
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
 	auto increment = [](btensor::index_list &index, torch::IntArrayRef max_index, size_t rank)
-- 
2.43.0


From 6b4d5e21191ab989852e3066a4be28db01682656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 40/93] fix: bmm over a matrix dimension without any section
 dereferenced its missing conserved quantity

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 8b7a8e5..8491d99 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1203,7 +1203,7 @@ struct mul_helpers
 			auto [a_start, a_end] = a.section_conserved_qtt_range(a.rank - 1);
 			auto [b_start, b_end] = b.section_conserved_qtt_range(a.rank - 2);
 
-			auto neutral = a_start->neutral();
+			auto neutral = a.selection_rule->neutral();
 			for (size_t i = 0; a_start != a_end; ++a_start, ++b_start, ++i)
 			{
 				if ((*a_start) * (*b_start) != neutral)
-- 
2.43.0


From 2d7a5e2e4a95fe8d7e965f2b19957e5295a88f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 41/93] fix: bmm over dimensions without any section

---
 sources/btensor.cpp | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 8491d99..eca3bd4 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1332,19 +1332,30 @@ btensor btensor::bmm(const btensor &mat) const
 		return new_this.bmm(new_mat).squeeze_(0);
 	}
 	mul_helpers::check_bmm_compatibility(*this, mat);
-	auto batch_shape_inds = std::vector<int64_t>(dim(), -1);
-	batch_shape_inds.back() = 0;
-	*(batch_shape_inds.end() - 2) = 0;
-	auto this_inds = std::vector<int64_t>(mat.dim(), 0);
-	*(this_inds.end() - 2) = -1;
-	auto mat_inds = std::vector<int64_t>(mat.dim(), 0);
-	mat_inds.back() = -1;
-	auto [comp_mask, new_sections_by_dim, new_sections_sizes, new_cvals, out_selr] = mul_helpers::shape_compute(
-	    false, rank - 2, rank - 2, this->shape_from(batch_shape_inds), mat.shape_from(batch_shape_inds));
-	btensor batch_shape(new_sections_by_dim, new_cvals, new_sections_sizes, selection_rule->neutral(), options());
-	auto out = quantit::shape_from(
-	    batch_shape, this->shape_from(this_inds),
-	    mat.shape_from(mat_inds)); // ambiguity because of the in-class context lifted by the QuantiT namespace;
+	// the batch and row dimensions are those of this, the column dimension is the one of mat. Built section by section,
+	// because a dimension without any section has no element a view could be made of.
+	auto [col_size_begin, col_size_end, col_cval_begin, col_cval_end] = mat.section_sizes_cqtts(rank - 1);
+	const auto n_kept = std::distance(sections_sizes.cbegin(), std::get<0>(section_sizes(rank - 1)));
+	const auto n_batch = std::distance(sections_sizes.cbegin(), std::get<0>(section_sizes(rank - 2)));
+	auto new_sections_by_dim = sections_by_dim;
+	new_sections_by_dim.back() = mat.sections_by_dim.back();
+	index_list new_sections_sizes(sections_sizes.begin(), sections_sizes.begin() + n_kept);
+	new_sections_sizes.insert(new_sections_sizes.end(), col_size_begin, col_size_end);
+	any_quantity_vector new_cvals(new_sections_sizes.size(), selection_rule->neutral());
+	{
+		auto out_it = new_cvals.begin();
+		auto this_it = c_vals.begin();
+		auto mat_it = mat.c_vals.begin();
+		for (auto i = 0 * n_kept; i < n_kept; ++i, ++this_it, ++out_it)
+		{
+			*out_it = *this_it;
+			if (i < n_batch)
+				*out_it *= *(mat_it + i);
+		}
+		for (; col_cval_begin != col_cval_end; ++col_cval_begin, ++out_it)
+			*out_it = *col_cval_begin;
+	}
+	btensor out(new_sections_by_dim, new_cvals, new_sections_sizes, selection_rule->neutral(), options());
 
 	block_list_t::content_t mat_blocks(mat.blocks_list.begin(), mat.blocks_list.end());
 	// sort mat in an order ideal for parallelism.
-- 
2.43.0


From 436a1416fe71e0f62319682f628eea1f1679843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 42/93] fix: an interrupted move of the orthogonality center
 changed the state

---
 sources/MPT.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 138057d..218f6cd 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -47,10 +47,13 @@ void MPS::move_oc(int i)
 		dims = curr_oc.sizes();
 
 		auto [u, d, v] = quantit::svd(curr_oc, 1);
-		curr_oc =
+		auto new_curr =
 		    v.permute({2, 0, 1}).conj(); // needs testing. svd documentation makes no mention of complex numbers case.
 		auto ud = u.mul(d);
-		next_oc = tensordot(next_oc, ud, {2}, {0});
+		auto new_next = tensordot(next_oc, ud, {2}, {0});
+		// nothing can fail from here on: both sites and the position of the center change together.
+		curr_oc = std::move(new_curr);
+		next_oc = std::move(new_next);
 		--oc;
 	}
 
@@ -63,10 +66,12 @@ void MPS::move_oc(int i)
 		// TODO: use QuantiT's SVD implementation. takes care of the reshaping
 		// auto reshaped = curr_oc.reshape({prod(0, dims.size() - 1), dims[dims.size() - 1]});
 		auto [u, d, v] = quantit::svd(curr_oc, 2);
-		curr_oc = u;
 
 		auto dv = v.mul(d).t().conj();
-		next_oc = torch::tensordot(dv, next_oc, {1}, {0});
+		auto new_next = torch::tensordot(dv, next_oc, {1}, {0});
+		// nothing can fail from here on: both sites and the position of the center change together.
+		curr_oc = std::move(u);
+		next_oc = std::move(new_next);
 
 		++oc;
 	}
@@ -84,12 +89,15 @@ void bMPS::move_oc(int i)
 		auto &next_oc = (*this)[orthogonality_center - 1];
 
 		auto [u, d, v] = quantit::svd(curr_oc, 1);
-		curr_oc =
+		auto new_curr =
 		    v.conj().permute({2, 0, 1}); // needs testing. svd documentation makes no mention of complex numbers case.
 
 		// testing shows that v is only transposed in the complex number case as well.
 		auto ud = u.mul(d);
-		next_oc = tensordot(next_oc, ud, {2}, {0});
+		auto new_next = tensordot(next_oc, ud, {2}, {0});
+		// nothing can fail from here on: both sites and the position of the center change together.
+		curr_oc = std::move(new_curr);
+		next_oc = std::move(new_next);
 		--oc;
 	}
 
@@ -100,10 +108,12 @@ void bMPS::move_oc(int i)
 		auto &next_oc = (*this)[orthogonality_center + 1];
 		// TODO: use QuantiT's SVD implementation. takes care of the reshaping
 		auto [u, d, v] = svd(curr_oc, 2);
-		curr_oc = u;
 
 		auto dv = v.mul(d).conj();
-		next_oc = tensordot(dv, next_oc, {0}, {0});
+		auto new_next = tensordot(dv, next_oc, {0}, {0});
+		// nothing can fail from here on: both sites and the position of the center change together.
+		curr_oc = std::move(u);
+		next_oc = std::move(new_next);
 
 		++oc;
 	}
-- 
2.43.0


From 1536be2764eedcd7f12417e3b2d00ed3ed0da895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 43/93] fix: an interrupted coalesce changed the operator

---
 sources/MPT.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 218f6cd..efbac95 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -171,8 +171,11 @@ bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 		auto &next = *next_it;
 		auto [U, d, V] = svd(tens, 3, cutoff);
 		U.mul_(d);
-		next = tensordot(V.conj(), next, {0}, {0});
-		*it = U.permute({0, 1, 3, 2});
+		auto new_next = tensordot(V.conj(), next, {0}, {0});
+		auto new_site = U.permute({0, 1, 3, 2});
+		// nothing can fail from here on: both sites change together.
+		next = std::move(new_next);
+		*it = std::move(new_site);
 	}
 	return *this;
 }
-- 
2.43.0


From f125d29abe640022919a426dde20c3db8f65c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 44/93] fix: a bMPS made of a range of tensors had an undefined
 orthogonality center

---
 include/MPT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MPT.h b/include/MPT.h
index aeb0016..aebd864 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -579,7 +579,7 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0) {}
 
 	virtual ~bMPS() = default;
 
-- 
2.43.0


From 0087fd2cce849d35b0e1fbefebe6cc17028c7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 45/93] fix: check_ranks of an empty chain and of tensors of
 too small a rank read out of bounds

---
 sources/MPT.cpp | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index efbac95..5715c18 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -129,15 +129,13 @@ bool MPS::check_one(const Tens &tens)
 
 bool MPS::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
-	bool all_rank_3 = std::all_of(begin(), end(),
-	                              [&prev_bond](const Tens &el)
-	                              {
-		                              using std::swap;
-		                              auto bond = el.sizes()[2];
-		                              swap(bond, prev_bond);
-		                              return el.sizes().size() == 3 and bond == el.sizes()[0];
-	                              });
+	// the rank comes first: tensors of another rank don't have the dimensions to compare.
+	auto compatible = [](const Tens &a, const Tens &b) { return a.sizes()[2] == b.sizes()[0]; };
+	bool all_rank_3 = std::all_of(begin(), end(), [](const Tens &el) { return el.sizes().size() == 3; });
+	for (size_t i = 1; all_rank_3 and i < size(); ++i)
+	{
+		all_rank_3 = compatible(operator[](i - 1), operator[](i));
+	}
 	return all_rank_3;
 }
 
@@ -182,20 +180,19 @@ bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 
 bool MPO::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
-	bool all_rank_4 = std::all_of(begin(), end(),
-	                              [&prev_bond](const Tens &el)
-	                              {
-		                              using std::swap;
-		                              auto bond = el.sizes()[2];
-		                              swap(bond, prev_bond);
-		                              return el.sizes().size() == 4 and bond == el.sizes()[0];
-	                              });
-	// assert(all_rank_4);// a MPS must have only rank 3 tensors
+	// the rank comes first: tensors of another rank don't have the dimensions to compare.
+	auto compatible = [](const Tens &a, const Tens &b) { return a.sizes()[2] == b.sizes()[0]; };
+	bool all_rank_4 = std::all_of(begin(), end(), [](const Tens &el) { return el.sizes().size() == 4; });
+	for (size_t i = 1; all_rank_4 and i < size(); ++i)
+	{
+		all_rank_4 = compatible(operator[](i - 1), operator[](i));
+	}
 	return all_rank_4;
 }
 bool bMPO::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto it = begin();
 	auto next = begin() + 1;
 	bool all_rank_4 = it->dim() == 4;
@@ -209,6 +206,8 @@ bool bMPO::check_ranks() const
 }
 bool bMPS::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto next = begin() + 1;
 	auto it = begin();
 	bool all_rank_3 = it->dim() == 3;
-- 
2.43.0


From 9504c04a77569104e4cda4b1522c4ab1ee45ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 46/93] fix: shape_from and decompositions refused tensors with
 a dimension without any section

---
 sources/btensor.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index eca3bd4..ddc701a 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -517,11 +517,15 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 		auto it_dims = dims.begin();
 		std::vector<int64_t> sizes = this->sizes();
 		auto it_size = sizes.begin();
+		auto it_sections = sections_by_dim.begin();
 		while (it_dims != dims.end())
 		{
-			size_compat &= *it_dims < *it_size or *it_dims == -1;
+			// only the shape is asked for: a dimension without any section can be left out too.
+			bool no_section = *it_sections == 0 and *it_dims == 0;
+			size_compat &= (*it_dims >= 0 and *it_dims < *it_size) or *it_dims == -1 or no_section;
 			++it_dims;
 			++it_size;
+			++it_sections;
 		}
 		if (not size_compat)
 			throw std::invalid_argument(fmt::format(
@@ -551,7 +555,7 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 			// fail silently if the index is too large. require a check earlier on.
 		}
 		block_ind -= std::distance(sec_sizes_beg, sec_sizes_end);
-		if (not is_slice)
+		if (not is_slice and sections_by_dim[i] != 0)
 			out_sel_rule *= section_conserved_qtt(i, block_ind).inverse();
 		++i;
 	}
@@ -661,6 +665,21 @@ std::tuple<std::vector<int64_t>, std::vector<torch::indexing::TensorIndex>> to_b
 	return std::make_tuple(std::move(blocks), std::move(element));
 }
 
+/**
+ * @brief throws if an index of dims isn't -1 and doesn't name an element of the tensor.
+ */
+static void throw_on_missing_element(const btensor &tens, const std::vector<int64_t> &dims)
+{
+	auto sizes = tens.sizes();
+	for (size_t i = 0; i < dims.size() and i < sizes.size(); ++i)
+	{
+		if (dims[i] >= sizes[i])
+			throw std::invalid_argument(fmt::format(
+			    "The tensor doesn't have that many element, all elements must be smaller than {}, but received {}",
+			    sizes, dims));
+	}
+}
+
 /**
  * @brief Create a view object on this tensor. Minimum necessary set of feature for tensor network reshape.
  *
@@ -671,6 +690,7 @@ std::tuple<std::vector<int64_t>, std::vector<torch::indexing::TensorIndex>> to_b
  */
 btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preserve_rank)
 {
+	throw_on_missing_element(*this, dims);
 	auto out_tensor = shape_from(dims);
 	// out_tensor has all the correct information regarding the resulting block structure.
 	// what's left is to filter the block of this.
@@ -763,12 +783,14 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 
 btensor &btensor::basic_index_put_(const std::vector<int64_t> &dims, const torch::Tensor &value)
 {
+	throw_on_missing_element(*this, dims);
 	btensor reduced_shape = shape_from(dims);
 	return impl_basic_index_put_(dims, quantit::from_basic_tensor_like(reduced_shape, value));
 }
 
 btensor &btensor::basic_index_put_(const std::vector<int64_t> &dims, const btensor &value)
 {
+	throw_on_missing_element(*this, dims);
 	btensor reduced_shape = shape_from(dims);
 	try
 	{
-- 
2.43.0


From c5b474b08326484773de1dafb425facc15ddd6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 47/93] fix: the decompositions lost the options of the tensor

---
 sources/btensor_linalg.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 4a6d189..d999b02 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -327,8 +327,10 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
+	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
+	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
 	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
 	// the eigenvalues of a complex matrix are real.
 	d = d.to(d.options().dtype(c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype()))));
@@ -436,8 +438,10 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
+	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
+	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
 	// small d is just the diagonnal of D, the diagonal matrix of singular values.
 	//  because it is a vector, the correct operation to multiply it with the other matrices is a broadcasting
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
-- 
2.43.0


From 27549a24d4dbc54e336f5ac9ac4098ae867ad36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 48/93] fix: contractions of block states of a non-neutral
 sector were zero

---
 sources/MPT.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 5715c18..a3f0c31 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -220,6 +220,24 @@ bool bMPS::check_ranks() const
 	return all_rank_3;
 }
 
+/**
+ * @brief trivial environment at the edge of a pair of states.
+ *
+ * Its selection rule is the one that allows its content, it doesn't depend on the rest of the sites.
+ */
+static btensor state_edge(const btensor &a, const btensor &b, int64_t dim)
+{
+	std::vector<int64_t> dims(3, 0);
+	dims[dim] = -1;
+	auto a_edge = a.shape_from(dims).neutral_selection_rule_();
+	auto b_edge = b.shape_from(dims).neutral_selection_rule_();
+	auto shape = shape_from(a_edge.inverse_cvals_(), b_edge);
+	if (shape.section_number(0) != 0 and shape.section_number(1) != 0)
+		shape.set_selection_rule_(
+		    any_quantity(shape.section_conserved_qtt(0, 0)) * any_quantity(shape.section_conserved_qtt(1, 0)));
+	return eye_like(shape);
+}
+
 btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edge, const btensor &right_edge)
 {
 	assert(a.size() == b.size());
@@ -235,10 +253,8 @@ btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs)
 {
 	// todo:: adapt to work with Btensors.
 	// need a btensor implementation of ones. must be a one_like thing.
-	auto left_edge =
-	    eye_like(shape_from(shape_from(a.front(), {-1, 0, 0}).inverse_cvals_(), shape_from(b.front(), {-1, 0, 0})));
-	auto right_edge =
-	    eye_like(shape_from(shape_from(a.back(), {0, 0, -1}).inverse_cvals_(), shape_from(b.back(), {0, 0, -1})));
+	auto left_edge = state_edge(a.front(), b.front(), 0);
+	auto right_edge = state_edge(a.back(), b.back(), 2);
 	left_edge = tensordot(left_edge, ones_like(details::edge_shape_prep(obs.front(), 0)), {}, {}).permute({0, 2, 1});
 	right_edge = tensordot(right_edge, ones_like(details::edge_shape_prep(obs.back(), 2)), {}, {}).permute({0, 2, 1});
 	return contract(a, b, obs, std::move(left_edge), right_edge);
@@ -296,10 +312,8 @@ btensor contract(const bMPS &a, const bMPS &b, btensor left_edge, const btensor
 }
 btensor contract(const bMPS &a, const bMPS &b)
 {
-	auto left_edge =
-	    eye_like(shape_from(a.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0})));
-	auto right_edge =
-	    eye_like(shape_from(a.back().shape_from({0, 0, -1}).inverse_cvals_(), b.back().shape_from({0, 0, -1})));
+	auto left_edge = state_edge(a.front(), b.front(), 0);
+	auto right_edge = state_edge(a.back(), b.back(), 2);
 	return contract(a, b, left_edge, right_edge);
 }
 
-- 
2.43.0


From 18928ae1aeb5916d1e55b841f602257067959e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 49/93] fix: the compatibility check of contracted dimensions
 ignored the size of the sections

---
 sources/btensor.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ddc701a..2832e46 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -847,7 +847,17 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 		{
 			return false;
 		}
-		ok_CR = std::distance(std::get<0>(q1), std::get<1>(q1)) == std::distance(std::get<0>(q2), std::get<1>(q2));
+		auto [size1_beg, size1_end] = in1.section_sizes(dims1[i]);
+		auto [size2_beg, size2_end] = in2.section_sizes(dims2[i]);
+		ok_CR = std::equal(size1_beg, size1_end, size2_beg, size2_end);
+		if constexpr (Throws)
+		{
+			const auto dims1i = dims1[i];
+			const auto dims2i = dims2[i];
+			TORCH_CHECK(ok_CR, fmt::format("contracted dimensions need to match, but the sections along dim {} of the "
+			                               "first don't have the sizes of those along dim {} of the second",
+			                               dims1i, dims2i));
+		}
 		auto neut = in1.selection_rule->neutral();
 		for (auto [it1, it2] = std::make_tuple(std::get<0>(q1), std::get<0>(q2)); it1 != std::get<1>(q1) and ok_CR;
 		     ++it1, ++it2)
-- 
2.43.0


From fed5e9e53baeac36cf65e8280128b4a98bbdd3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 50/93] fix: failing allocation in the compatibility check of
 contracted dimensions terminated the program

---
 include/blockTensor/btensor.h | 2 +-
 sources/btensor.cpp           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index 6686698..bad8c90 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -796,7 +796,7 @@ class btensor
 	friend inline btensor sparse_zeros_like(const btensor &tens, c10::TensorOptions opt);
 	template <bool Throws = false>
 	static bool check_product_compat(const btensor &in1, const btensor &in2, torch::IntArrayRef dims1,
-	                                 torch::IntArrayRef dims2) noexcept(!Throws);
+	                                 torch::IntArrayRef dims2);
 	/**
 	 * @brief compute the slices associated with a block in a full tensor with the same shape.
 	 *
diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2832e46..bfab314 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -823,7 +823,7 @@ btensor &btensor::neutral_shape_()
 
 template <bool Throws>
 bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch::IntArrayRef dims1,
-                                   torch::IntArrayRef dims2) noexcept(!Throws)
+                                   torch::IntArrayRef dims2)
 {
 	bool ok_CR = dims1.size() == dims2.size();
 	// fmt::print("{}\n\n {}\n\n",in1,in2);
@@ -877,7 +877,7 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 }
 
 template bool btensor::check_product_compat<false>(const btensor &in1, const btensor &in2, torch::IntArrayRef dims1,
-                                                   torch::IntArrayRef dims2) noexcept;
+                                                   torch::IntArrayRef dims2);
 template bool btensor::check_product_compat<true>(const btensor &in1, const btensor &in2, torch::IntArrayRef dims1,
                                                   torch::IntArrayRef dims2);
 
-- 
2.43.0


From 2a65b21db8ad4dd6689c72acab2657c29d5996cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 51/93] fix: dmrg lost track of the orthogonality center, and a
 failed update left a broken state

---
 sources/dmrg.cpp | 87 ++++++++++++++++++++----------------------------
 1 file changed, 36 insertions(+), 51 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index df7bbb3..e476afa 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -125,7 +125,7 @@ std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &option
 }
 
 template <class T, class MPS_t>
-auto sweep(MPS_t &state, T update, int step, size_t Nstep, size_t right_edge, size_t left_edge = 0)
+auto sweep(MPS_t &state, T &update, int step, size_t Nstep, size_t right_edge, size_t left_edge = 0)
 {
 	using tensor_t = typename dependant_tensor_network<MPS_t>::base_tensor_type;
 	tensor_t E0;
@@ -133,9 +133,9 @@ auto sweep(MPS_t &state, T update, int step, size_t Nstep, size_t right_edge, si
 	for (size_t i = 0; i < Nstep; ++i)
 	{
 		E0 = update(state, step);
-		auto &oc = state.orthogonality_center;
-		// print("i {} oc {} step {} || E {}\n ", i, oc, step, E0.item().toDouble());
-		step *= 1 - 2 * ((oc == left_edge) or (oc == right_edge)); // reverse the step direction if we're on the edge.
+		const auto pos = update.position;
+		// print("i {} pos {} step {} || E {}\n ", i, pos, step, E0.item().toDouble());
+		step *= 1 - 2 * ((pos == left_edge) or (pos == right_edge)); // reverse the step direction if we're on the edge.
 	}
 	// fmt::print("\n");
 	return std::make_tuple(E0, step);
@@ -150,13 +150,14 @@ struct dmrg_2sites_update
 	using env_t = typename dependant_tensor_network<MPO_t>::env_type;
 	using tensor_t = typename dependant_tensor_network<MPO_t>::base_tensor_type;
 	const MPT_t &twosite_hamil;
-	size_t &oc;
+	size_t &oc;      // the orthogonality center of the state
+	size_t position; // the pair of sites to update next is (position, position+1)
 	env_t &Env;
 	const dmrg_options &options;
 
-	dmrg_2sites_update(const MPO_t &_hamil, const MPT_t &_twosites_hamil, size_t &_oc, env_t &_Env,
+	dmrg_2sites_update(const MPO_t &_hamil, const MPT_t &_twosites_hamil, size_t &_oc, size_t _position, env_t &_Env,
 	                   const dmrg_options &_options)
-	    : hamil(_hamil), twosite_hamil(_twosites_hamil), oc(_oc), Env(_Env), options(_options)
+	    : hamil(_hamil), twosite_hamil(_twosites_hamil), oc(_oc), position(_position), Env(_Env), options(_options)
 	{
 	}
 	// using print = dummy_print.operator();
@@ -180,28 +181,36 @@ struct dmrg_2sites_update
 				return x;
 			}
 		}();
-		// MPO_t tmpMPO(hamil.begin() + oc, hamil.begin() + oc + 2);
-		// MPS_t tmpstate(state.begin() + oc, state.begin() + oc + 2);
-		auto local_state = tensordot(state[oc], state[oc + 1], {2}, {0});
-		std::tie(E0, local_state) = two_sites_update(local_state, twosite_hamil[oc], Env[oc - 1], Env[oc + 2]);
+		auto local_state = tensordot(state[position], state[position + 1], {2}, {0});
+		std::tie(E0, local_state) =
+		    two_sites_update(local_state, twosite_hamil[position], Env[position - 1], Env[position + 2]);
 		auto [u, d, v] = quantit::svd(local_state, 2, options.cutoff, options.minimum_bond, options.maximum_bond);
 		d /= sqrt(sum(d.pow(2)));
 		if (forward)
 		{
-			state[oc] = u;
-			state[oc + 1] = (v.mul_(d).conj()).permute({2, 0, 1});
-			Env[oc] = compute_left_env(hamil[oc], state[oc], Env[oc - 1]);
+			auto right = (v.mul_(d).conj()).permute({2, 0, 1});
+			auto new_env = compute_left_env(hamil[position], u, Env[position - 1]);
+			// nothing can fail from here on: both sites and the position of the center change together.
+			state[position] = std::move(u);
+			state[position + 1] = std::move(right);
+			Env[position] = std::move(new_env);
+			oc = position + 1;
 		}
 		else
 		{
 			auto d_r = d.reshape_as(shape_from(unsqueezing_shape, d));
-			state[oc] = u.mul_(d);
-			state[oc + 1] = (v.conj()).permute({2, 0, 1});
-			Env[oc + 1] = compute_right_env(hamil[oc + 1], state[oc + 1], Env[oc + 2]);
+			auto left = u.mul_(d);
+			auto right = (v.conj()).permute({2, 0, 1});
+			auto new_env = compute_right_env(hamil[position + 1], right, Env[position + 2]);
+			// nothing can fail from here on: both sites and the position of the center change together.
+			state[position] = std::move(left);
+			state[position + 1] = std::move(right);
+			Env[position + 1] = std::move(new_env);
+			oc = position;
 		}
 		// fmt::print("full norm: \n{}\n",contract(sta6te,state));
 		// fmt::print("full E: \n{}\n",contract(state,state,hamil));
-		oc += step;
+		position += step;
 		return E0;
 	}
 };
@@ -229,12 +238,9 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		step = 0;
 	// fmt::print("step {}\n",step);
 	auto &oc = in_out_state.oc;
-	if (oc == in_out_state.size() - 1)
-	{
-		--init_pos;
-		--oc;
-	}
-	dmrg_2sites_update update(hamiltonian, two_sites_hamil, oc, Env, options);
+	// the first pair to update contains the orthogonality center.
+	dmrg_2sites_update update(hamiltonian, two_sites_hamil, oc, std::min(init_pos, in_out_state.size() - 2), Env,
+	                          options);
 	auto iteration = 0u;
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
@@ -254,22 +260,12 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		}
 		// E0 = E0_tens;
 	}
-	if (oc != init_pos)
-	{
-		// The oc isn't actually where the orthogonaility center variable says it is in the python binding after
-		// dmrg....
-		if (oc != init_pos - 1 and init_pos != in_out_state.size() - 1)
-			throw std::runtime_error(fmt::format(
-			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
-	}
-	if (oc != init_pos)
+	if (oc != init_pos) // then we move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
 	logger.end_log_all(iteration, E0, in_out_state);
 
 	return E0;
-
-	return btensor();
 }
 /**
  * The actual implementation.
@@ -291,12 +287,9 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 		step = 0;
 	// fmt::print("step {}\n",step);
 	auto &oc = in_out_state.oc;
-	if (oc == in_out_state.size() - 1)
-	{
-		--init_pos;
-		--oc;
-	}
-	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, Env, options);
+	// the first pair to update contains the orthogonality center.
+	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, std::min(init_pos, in_out_state.size() - 2), Env,
+	                          options);
 	auto iteration = 0u;
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
@@ -315,16 +308,8 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 			break;
 		}
 	}
-	if (oc != init_pos)
-	{
-		if (oc != init_pos - 1 and init_pos != in_out_state.size() - 1)
-			throw std::runtime_error(fmt::format(
-			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
-	}
-	oc += (oc == 0); // The oc never really finishes at 0 with the current algo.
-	// The leftward sweep finishes with the oc at 1, but set the oc at 0,
-	// such the site 0 and 1 are updated together once by the next rightward sweep.
-	// this trickery is necessary to get this optimization without writing special code in the sweeper.
+	// The leftward sweep finishes with the oc at 1: the sites 0 and 1 are updated together once, by the next rightward
+	// sweep.
 	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
-- 
2.43.0


From 933b4803e9d005c86a446f41a2d0a921a5076fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 52/93] fix: dmrg read outside of the chain when it is too
 short or its length differs from the Hamiltonian's

---
 sources/dmrg.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index e476afa..c8fd2c6 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -89,8 +89,23 @@ class dmrg_gradient_guard
 	}
 };
 
+template <class MPO_t>
+void check_length(const MPO_t &hamiltonian)
+{
+	if (hamiltonian.size() < 2)
+		throw std::invalid_argument("dmrg needs a chain of at least two sites");
+}
+template <class MPO_t, class MPS_t>
+void check_length(const MPO_t &hamiltonian, const MPS_t &state)
+{
+	check_length(hamiltonian);
+	if (hamiltonian.size() != state.size())
+		throw std::invalid_argument("the hamiltonian and the state have different lengths");
+}
+
 btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
+	check_length(hamiltonian, in_out_state);
 	dmrg_gradient_guard guard(hamiltonian, in_out_state,
 	                          options); // set the tracing of hamil and state to whatever is specified in the option,
 	                                    // then set it back to its original value at the end.
@@ -100,6 +115,7 @@ btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options,
 }
 torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
+	check_length(hamiltonian, in_out_state);
 	dmrg_gradient_guard guard(hamiltonian, in_out_state, options);
 	auto Env = generate_env(hamiltonian, in_out_state);
 	auto TwositesH = compute_2sitesHamil(hamiltonian);
@@ -109,7 +125,7 @@ torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &opti
 std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const dmrg_options &options,
                                dmrg_logger &logger)
 {
-	auto length = hamiltonian.size();
+	check_length(hamiltonian);
 	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, qnum);
 	// size_t counter=0;
 	// for(auto&a:out_mps){fmt::print("====== ===pos {}===========\n{}",counter++,a);}
@@ -118,7 +134,7 @@ std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const
 }
 std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &options, dmrg_logger &logger)
 {
-	auto length = hamiltonian.size();
+	check_length(hamiltonian);
 	auto out_mps = random_MPS(options.minimum_bond, hamiltonian);
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
-- 
2.43.0


From 1232ca2891db09a73a8f1ea19296f37fa75168a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 53/93] fix: dmrg lost eigenstates and diverged from
 unnormalised states

---
 sources/dmrg.cpp | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index c8fd2c6..efa76a2 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -198,6 +198,8 @@ struct dmrg_2sites_update
 			}
 		}();
 		auto local_state = tensordot(state[position], state[position + 1], {2}, {0});
+		// the update assumes a normalised state
+		local_state /= sqrt(tensordot(local_state, local_state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})).abs();
 		std::tie(E0, local_state) =
 		    two_sites_update(local_state, twosite_hamil[position], Env[position - 1], Env[position + 2]);
 		auto [u, d, v] = quantit::svd(local_state, 2, options.cutoff, options.minimum_bond, options.maximum_bond);
@@ -582,6 +584,32 @@ std::tuple<btensor, btensor, btensor> details::eig2x2Mat(const btensor &a0, cons
 	return eig2x2Mat_impl(a0, a1, b);
 }
 
+template <class Tensor>
+double to_double(const Tensor &x)
+{
+	auto out = x.abs(); // real, whatever the type of x
+	return out.item().toDouble();
+}
+template <class Tensor>
+bool is_single_precision(const Tensor &x)
+{
+	auto type = torch::typeMetaToScalarType(x.options().dtype());
+	return type == torch::kFloat or type == torch::kComplexFloat;
+}
+/**
+ * true if what remains of H|state>, once the component along the state is removed, is indistinguishable from rounding
+ * errors: the state is an eigenstate.
+ *
+ * @param a0 average of H in the state
+ * @param b norm of the remainder
+ */
+template <class Tensor>
+bool negligible_remainder(const Tensor &a0, const Tensor &b)
+{
+	const double eps = 100 * (is_single_precision(b) ? double(std::numeric_limits<float>::epsilon())
+	                                                 : std::numeric_limits<double>::epsilon());
+	return not(to_double(b) > eps * to_double(a0));
+}
 template <class Tensor>
 std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &state, const Tensor &hamil,
                                                                  const Tensor &Lenv, const Tensor &Renv)
@@ -595,13 +623,13 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 	// fmt::print("a0 {}\n",a0);
 	psi_ip -= state * a0;
 	auto b = sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
-	const bool non_singular = [&]()
+	if (not negligible_remainder(a0, b))
 	{
-		btensor::Scalar X = ge(b.abs(), 1e-15).item();
-		return X.to<bool>();
-	}();
-	if (non_singular)
 		psi_ip /= b;
+		// the rounding errors of the previous projection were amplified by the normalisation when b is small.
+		psi_ip -= state * tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3});
+		psi_ip /= sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
+	}
 	// fmt::print("\t\tnon singular {}\n",non_singular);
 	auto a1 = (tensordot(psi_ip.conj(), quantit::details::hamil2site_times_state(psi_ip, hamil, Lenv, Renv),
 	                     {0, 1, 2, 3}, {0, 1, 2, 3}));
@@ -631,6 +659,8 @@ std::tuple<Tensor, Tensor> two_sites_update_impl(const Tensor &state, const Tens
 	// fmt::print("Psi_ip {}\n\na0 {}\n\n a1 {}\n\nb
 	// {}\n\n",psi_ip.item().toDouble(),a0.item().toDouble(),a1.item().toDouble(),b.item().toDouble());
 	// print("\ta0 {} a1 {} b {}\n", a0.item().toDouble(), a1.item().toDouble(), b.item().toDouble());
+	if (negligible_remainder(a0, b)) // the state is an eigenstate already, there's no direction to mix it with.
+		return std::make_tuple(a0, state);
 	auto [E, o_coeff, n_coeff] = eig2x2Mat(a0, a1, b);
 	// print("\tE: {} O: {} N: {}\n", E.item().toDouble(), o_coeff.item().toDouble(), n_coeff.item().toDouble());
 	auto psi_update = o_coeff * state + n_coeff * psi_ip;
-- 
2.43.0


From a69793df36d4bf074f044786235b42f4a0081cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 54/93] fix: dmrg refused complex states because of rounding
 errors in the imaginary part

---
 sources/dmrg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index efa76a2..c7c57d3 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -292,7 +292,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
                                  const dmrg_options &options, env_holder &Env, dmrg_logger &logger)
 {
 	// TODO check for non-zero input.
-	auto norm = contract(in_out_state, in_out_state).item().toDouble();
+	auto norm = contract(in_out_state, in_out_state).abs().item().toDouble();
 	if (norm == 0 or norm < 1e-15)
 		throw std::invalid_argument("initial state has zero norm!"); // this test is less than ideal.
 	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
@@ -557,7 +557,7 @@ std::tuple<Tensor, Tensor, Tensor> eig2x2Mat_impl(const Tensor &a0, const Tensor
 	auto delt = (E0 - a1);
 	auto o_coeff = sqrt(delt / (-crit)); // from arxiv.org/pdf/1908.03795.pdf
 	// fmt::print("O {}\n\n",o_coeff);
-	bool zero_o = (((o_coeff + E0) == E0).item()).toBool() or std::isnan(o_coeff.item().toDouble());
+	bool zero_o = (((o_coeff + E0) == E0).item()).toBool() or o_coeff.isnan().any().item().toBool();
 	auto n_coeff = (b * o_coeff) / (delt); // can't use o^2+n^2 = 1: loose important phase information that way.
 	if (zero_o)
 	{
-- 
2.43.0


From 0f2f777e25314d725aaed39721104bfe63d65426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 55/93] fix: the block dmrg accepted a null initial state

---
 sources/dmrg.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index c7c57d3..749ca85 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -140,6 +140,13 @@ std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &option
 	return std::make_tuple(E0, out_mps);
 }
 
+template <class Tensor>
+double to_double(const Tensor &x)
+{
+	auto out = x.abs(); // real, whatever the type of x
+	return out.item().toDouble();
+}
+
 template <class T, class MPS_t>
 auto sweep(MPS_t &state, T &update, int step, size_t Nstep, size_t right_edge, size_t left_edge = 0)
 {
@@ -246,6 +253,8 @@ struct dmrg_2sites_update
 btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil, bMPS &in_out_state,
                            const dmrg_options &options, benv_holder &Env, dmrg_logger &logger)
 {
+	if (not(to_double(contract(in_out_state, in_out_state)) > 0))
+		throw std::invalid_argument("initial state has zero norm!");
 	btensor E0 = quantit::full({}, hamiltonian[0].selection_rule->neutral(), 100000.0,
 	                           hamiltonian[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
@@ -291,10 +300,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_hamil, MPS &in_out_state,
                                  const dmrg_options &options, env_holder &Env, dmrg_logger &logger)
 {
-	// TODO check for non-zero input.
-	auto norm = contract(in_out_state, in_out_state).abs().item().toDouble();
-	if (norm == 0 or norm < 1e-15)
-		throw std::invalid_argument("initial state has zero norm!"); // this test is less than ideal.
+	if (not(to_double(contract(in_out_state, in_out_state)) > 0))
+		throw std::invalid_argument("initial state has zero norm!");
 	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
 	size_t init_pos = in_out_state.orthogonality_center;
@@ -584,12 +591,6 @@ std::tuple<btensor, btensor, btensor> details::eig2x2Mat(const btensor &a0, cons
 	return eig2x2Mat_impl(a0, a1, b);
 }
 
-template <class Tensor>
-double to_double(const Tensor &x)
-{
-	auto out = x.abs(); // real, whatever the type of x
-	return out.item().toDouble();
-}
 template <class Tensor>
 bool is_single_precision(const Tensor &x)
 {
-- 
2.43.0


From 3b8b695823a4184b6a70a8a4b54be3a760e5a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 56/93] fix: a block tensor without blocks lost its element
 type when converted with incomplete options

---
 include/blockTensor/btensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index bad8c90..b2437c5 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -743,7 +743,7 @@ class btensor
 		    new_block_list_apply_to_all_blocks([&options, non_blocking, copy, memory_format](const auto &atensor)
 		                                       { return atensor.to(options, non_blocking, copy, memory_format); });
 		auto out = btensor(*this, std::move(out_list));
-		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},options).options();
+		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},_options.merge_in(options)).options();
 		return out;
 	}
 	btensor to(const btensor &other, bool non_blocking = false, bool copy = false,
-- 
2.43.0


From e440b615a495e7f40eb04f51a5338cd87178079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 57/93] fix: dmrg's gradient guard threw from its destructor
 and rejected the options that enable it

---
 sources/dmrg.cpp | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 749ca85..9fb6006 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -64,28 +64,18 @@ std::tuple<torch::Tensor, torch::Tensor> two_sites_update(const torch::Tensor &s
                                                           const torch::Tensor &Left_environment,
                                                           const torch::Tensor &Right_environment);
 
-template <class MPO_t, class MPS_t>
+/**
+ * Records the operations on the tensors that require a gradient only if the options ask for it. The tensors of the
+ * hamiltonian and of the state are left as they are, and nothing can fail when the guard goes out of scope.
+ */
 class dmrg_gradient_guard
 {
-	MPO_t &hamil;
-	MPS_t &state;
-	bool guard_hamil;
-	bool guard_state;
-	torch::TensorOptions hamil_opt;
-	torch::TensorOptions state_opt;
+	torch::AutoGradMode mode;
 
   public:
-	dmrg_gradient_guard(MPO_t &_hamil, MPS_t &_state, const dmrg_options &options)
-	    : hamil(_hamil), state(_state), guard_hamil(options.hamil_gradient), guard_state(options.state_gradient),
-	      hamil_opt(hamil[0].options()), state_opt(state[0].options())
-	{
-		hamil.to_(torch::TensorOptions().requires_grad(guard_hamil));
-		state.to_(torch::TensorOptions().requires_grad(guard_state));
-	}
-	~dmrg_gradient_guard()
+	dmrg_gradient_guard(const dmrg_options &options)
+	    : mode(torch::GradMode::is_enabled() and (options.hamil_gradient or options.state_gradient))
 	{
-		hamil.to_(hamil_opt);
-		state.to_(state_opt);
 	}
 };
 
@@ -106,9 +96,8 @@ void check_length(const MPO_t &hamiltonian, const MPS_t &state)
 btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
 	check_length(hamiltonian, in_out_state);
-	dmrg_gradient_guard guard(hamiltonian, in_out_state,
-	                          options); // set the tracing of hamil and state to whatever is specified in the option,
-	                                    // then set it back to its original value at the end.
+	dmrg_gradient_guard guard(options); // set the tracing to whatever is specified in the option, then set it back to
+	                                    // its original value at the end.
 	auto Env = generate_env(hamiltonian, in_out_state);
 	auto TwositesH = compute_2sitesHamil(hamiltonian);
 	return details::dmrg_impl(hamiltonian, TwositesH, in_out_state, options, Env, logger);
@@ -116,7 +105,7 @@ btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options,
 torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
 	check_length(hamiltonian, in_out_state);
-	dmrg_gradient_guard guard(hamiltonian, in_out_state, options);
+	dmrg_gradient_guard guard(options);
 	auto Env = generate_env(hamiltonian, in_out_state);
 	auto TwositesH = compute_2sitesHamil(hamiltonian);
 	return details::dmrg_impl(hamiltonian, TwositesH, in_out_state, options, Env, logger);
-- 
2.43.0


From b5c14d420682debe911c3b1336448aaaeeab5571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 58/93] fix: dmrg started from a random state of the default
 element type instead of the Hamiltonian's, not in canonical form

---
 sources/dmrg.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 9fb6006..922f25e 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -111,20 +111,30 @@ torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &opti
 	return details::dmrg_impl(hamiltonian, TwositesH, in_out_state, options, Env, logger);
 }
 
+// the tensors of a random state aren't isometries around its orthogonality center, what dmrg assumes.
+template <class MPS_t>
+void canonicalize(MPS_t &state)
+{
+	state.move_oc(static_cast<int>(state.size()) - 1);
+	state.move_oc(0);
+}
+
 std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const dmrg_options &options,
                                dmrg_logger &logger)
 {
 	check_length(hamiltonian);
-	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, qnum);
+	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, qnum, hamiltonian[0].options());
 	// size_t counter=0;
 	// for(auto&a:out_mps){fmt::print("====== ===pos {}===========\n{}",counter++,a);}
+	canonicalize(out_mps);
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
 }
 std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &options, dmrg_logger &logger)
 {
 	check_length(hamiltonian);
-	auto out_mps = random_MPS(options.minimum_bond, hamiltonian);
+	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, hamiltonian[0].options());
+	canonicalize(out_mps);
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
 }
-- 
2.43.0


From 3e479db9810fef4054c4089fe71c488fce0289c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 59/93] fix: dmrg compared the first sweep with an arbitrary
 energy, and returned it when no sweep was asked for

---
 sources/dmrg.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 922f25e..9ef8504 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -238,6 +238,21 @@ struct dmrg_2sites_update
 		return E0;
 	}
 };
+/**
+ * The energy to return if there isn't any sweep. Only computed in that case.
+ */
+template <class MPO_t, class MPS_t>
+auto initial_energy(const MPO_t &hamiltonian, const MPS_t &state, const dmrg_options &options)
+{
+	using tensor_t = typename dependant_tensor_network<MPS_t>::base_tensor_type;
+	tensor_t out;
+	if (options.maximum_iterations == 0)
+	{
+		out = contract(state, state, hamiltonian);
+		out /= contract(state, state);
+	}
+	return out;
+}
 /**
  * @brief Shared implementation of the differeent interface to dmrg with 2 sites update.
  *
@@ -254,8 +269,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 {
 	if (not(to_double(contract(in_out_state, in_out_state)) > 0))
 		throw std::invalid_argument("initial state has zero norm!");
-	btensor E0 = quantit::full({}, hamiltonian[0].selection_rule->neutral(), 100000.0,
-	                           hamiltonian[0].options().merge_in(torch::kDouble));
+	btensor E0 = initial_energy(hamiltonian, in_out_state, options);
 	auto sweep_dir = 1;
 	size_t init_pos = in_out_state.orthogonality_center;
 	auto N_step = two_sites_hamil.size() - 1 + (two_sites_hamil.size() == 1);
@@ -276,7 +290,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		    sweep(in_out_state, update, step, 2 * N_step, in_out_state.size() - 2); // sweep from the oc and back to it.
 		logger.it_log_all(iteration, E0_tens, in_out_state);
 		swap(E0, E0_tens);
-		if (!((((E0 - E0_tens) / E0).abs() > options.convergence_criterion))
+		if (iteration > 0 and // there's nothing to compare the first sweep with.
+		    !((((E0 - E0_tens) / E0).abs() > options.convergence_criterion))
 		         .item()
 		         .toBool()) // looks weird? it's so it stop on nan (nan
 		                    // compare false with everything).
@@ -301,7 +316,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 {
 	if (not(to_double(contract(in_out_state, in_out_state)) > 0))
 		throw std::invalid_argument("initial state has zero norm!");
-	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
+	torch::Tensor E0 = initial_energy(hamiltonian, in_out_state, options);
 	auto sweep_dir = 1;
 	size_t init_pos = in_out_state.orthogonality_center;
 	auto N_step = twosites_hamil.size() - 1 + (twosites_hamil.size() == 1);
@@ -324,7 +339,8 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 		logger.it_log_all(iteration, E0_update, in_out_state);
 		std::swap(E0, E0_update);
 		// print("{:-^40}\n", "");
-		if (!((abs(E0_update - E0) > options.convergence_criterion))
+		if (iteration > 0 and // there's nothing to compare the first sweep with.
+		    !((abs(E0_update - E0) > options.convergence_criterion))
 		         .item()
 		         .to<bool>()) // looks weird? it's so it stop on nan (nan
 		                      // compare false with everything).
-- 
2.43.0


From b5b161ca762443ce0082681a0f0de325fc087c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 60/93] fix: dmrg reported the end with a step number that
 differs from the last sweep's

---
 sources/dmrg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 9ef8504..8be8db4 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -304,6 +304,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 	if (oc != init_pos) // then we move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
+	// the loop counter is one past the last sweep if the maximum number of iteration was reached.
+	iteration -= iteration > 0 and iteration == options.maximum_iterations;
 	logger.end_log_all(iteration, E0, in_out_state);
 
 	return E0;
@@ -353,6 +355,8 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
+	// the loop counter is one past the last sweep if the maximum number of iteration was reached.
+	iteration -= iteration > 0 and iteration == options.maximum_iterations;
 	logger.end_log_all(iteration, E0, in_out_state);
 
 	return E0;
-- 
2.43.0


From dd488fdbc3e8fa681ddf32b6a40d88189483bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 61/93] fix: the sweep time logger counted the time spent in
 its callbacks in the next sweep

---
 include/dmrg_logger.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dmrg_logger.h b/include/dmrg_logger.h
index a5d4bfb..47f5008 100644
--- a/include/dmrg_logger.h
+++ b/include/dmrg_logger.h
@@ -145,9 +145,9 @@ class dmrg_log_sweeptime final : public quantit::dmrg_default_logger
 
 	void init(const quantit::dmrg_options &opt) override
 	{
-		then = std::chrono::steady_clock::now();
 		time_list = std::vector<double>(opt.maximum_iterations);
 		bond_list = std::vector<size_t>(opt.maximum_iterations);
+		then = std::chrono::steady_clock::now();
 	}
 
 	void log_bond_dims(const quantit::MPS &mps) override
@@ -164,23 +164,23 @@ class dmrg_log_sweeptime final : public quantit::dmrg_default_logger
 	{
 		auto now = std::chrono::steady_clock::now();
 		std::chrono::duration<double> elapsed_seconds = now - then;
-		then = now;
 		log_bond_dims(mps);
 		bond_list[it] = middle_bond_dim;
 		time_list[it] = elapsed_seconds.count();
 		log_step(it);
 		log_energy(E0);
+		then = std::chrono::steady_clock::now(); // the time spent logging isn't part of the next sweep.
 	}
 	void it_log_all(size_t it, const torch::Tensor &E0, const quantit::MPS &mps) override
 	{
 		auto now = std::chrono::steady_clock::now();
 		std::chrono::duration<double> elapsed_seconds = now - then;
-		then = now;
 		log_bond_dims(mps);
 		bond_list[it] = middle_bond_dim;
 		time_list[it] = elapsed_seconds.count();
 		log_step(it);
 		log_energy(E0);
+		then = std::chrono::steady_clock::now(); // the time spent logging isn't part of the next sweep.
 	}
 };
 
-- 
2.43.0


From 49893401eff0641b98d5ec87dd7193af79634a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 62/93] fix: the block dmrg stopped without convergence when
 the energy is zero

---
 sources/dmrg.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 8be8db4..0413825 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -291,9 +291,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		logger.it_log_all(iteration, E0_tens, in_out_state);
 		swap(E0, E0_tens);
 		if (iteration > 0 and // there's nothing to compare the first sweep with.
-		    !((((E0 - E0_tens) / E0).abs() > options.convergence_criterion))
-		         .item()
-		         .toBool()) // looks weird? it's so it stop on nan (nan
+		    !(to_double(E0 - E0_tens) > options.convergence_criterion * to_double(E0))) // looks weird? it's so it stop on nan (nan
 		                    // compare false with everything).
 		{
 			// E0 = E0_tens;
-- 
2.43.0


From bbedf73755688b7e8e02155b7d5af241cc94a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 63/93] fix: the random state generators crashed or made null
 states for empty chains, bonds and physical spaces

---
 sources/MPT.cpp | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index a3f0c31..bb1cbd8 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -395,9 +395,35 @@ void generate_random_string(std::vector<size_t>::iterator out, size_t L, T &&phy
 	                            "pass, verify that the constraint is possible or increase the number of pass");
 	// error we failed!
 }
+/**
+ * @brief throw if no state can have the requested length and bond dimension.
+ */
+void check_random_request(size_t length, size_t bond_dim)
+{
+	if (length == 0)
+		throw std::invalid_argument("A random state needs at least one site");
+	if (bond_dim == 0)
+		throw std::invalid_argument("A random state needs a bond dimension greater than zero");
+}
+/**
+ * @brief throw if the tensor cannot be used as the physical dimension of a site.
+ */
+void check_physical_space(const btensor &phys_dim)
+{
+	if (phys_dim.dim() != 1)
+		throw std::invalid_argument("The physical dimensions must be described by rank 1 block tensors");
+	if (phys_dim.section_number(0) == 0)
+		throw std::invalid_argument("The physical dimensions must have at least one section");
+}
 template <class T>
 MPS random_MPS_impl(size_t length, size_t bond_dim, T phys_dim, torch::TensorOptions opt)
 {
+	check_random_request(length, bond_dim);
+	for (size_t i = 0; i < length; ++i)
+	{
+		if (phys_dim(i) < 1)
+			throw std::invalid_argument("The physical dimensions must be greater than zero");
+	}
 	MPS out(length);
 	for (auto i = 0u; i < length; ++i)
 	{
@@ -450,6 +476,9 @@ template <class T>
 bMPS random_bMPS_impl(size_t length, int64_t bond_dim, T &&phys_dim, any_quantity_cref constraint, size_t string_N_pass,
                       torch::TensorOptions opt, std::random_device::result_type seed)
 {
+	check_random_request(length, bond_dim);
+	for (size_t i = 0; i < length; ++i)
+		check_physical_space(phys_dim(i));
 	std::mt19937 gen(seed); // Standard mersenne_twister_engine seeded with rd()
 	std::vector<size_t> phys_inds(bond_dim * length);
 	static_assert(std::is_same_v<decltype(phys_dim(0)), btensor>,
@@ -528,6 +557,9 @@ bMPS random_bMPS(size_t bond_dim, const std::vector<btensor> &phys_dim_spec, any
                   torch::TensorOptions opt,std::random_device::result_type seed)
 {
 	auto S = phys_dim_spec.size();
+	check_random_request(S, bond_dim);
+	for (const auto &spec : phys_dim_spec)
+		check_physical_space(spec);
 	auto phys_dim = [&phys_dim_spec, S](size_t i) { return phys_dim_spec[i]; };
 	size_t N_pass = [S, &phys_dim_spec]()
 	{
@@ -544,8 +576,6 @@ bMPS random_bMPS(size_t bond_dim, const std::vector<btensor> &phys_dim_spec, any
 		    { return std::lexicographical_compare(std::get<0>(X), std::get<1>(X), std::get<0>(Y), std::get<1>(Y)); });
 		auto last = X.cend() - 1;
 		size_t count = 1;
-		if (X.cbegin() == X.cend())
-			throw std::invalid_argument("The supplied MPO is empty!");
 		for (auto it = X.cbegin(); it != last; ++it)
 		{
 			auto range_A = *it;
-- 
2.43.0


From 88f04f775e76525568c6a40a81a71c64bc4b529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 64/93] fix: random block states left the requested sector when
 the physical space has a selection rule of its own

---
 sources/MPT.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index bb1cbd8..69a18d6 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -501,7 +501,8 @@ bMPS random_bMPS_impl(size_t length, int64_t bond_dim, T &&phys_dim, any_quantit
 	{
 		any_quantity_cref local_sel_rule = i == 0 ? any_quantity_cref(constraint) : any_quantity_cref(sel_rule);
 		right_side = make_right_side(phys_inds, accumulate_in_out, local_sel_rule, phys_ind_cvals, i, bond_dim, length);
-		out[i] = rand_like(shape_from(left_side, phys_dim(i), right_side), opt);
+		auto phys_side = shape_from(phys_dim(i)).set_selection_rule_(sel_rule); // only the state has a total quantum number.
+		out[i] = rand_like(shape_from(left_side, phys_side, right_side), opt);
 		out[i] /= sqrt((out[i] * out[i].conj()).sum());
 		if (i == 0)
 			right_side.set_selection_rule_(sel_rule);
-- 
2.43.0


From e285d72b032ec3bdac075990e089bf8b6b588dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 65/93] fix: random block states could not be generated with
 options that enable gradients

---
 sources/MPT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 69a18d6..2e870ef 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -502,8 +502,8 @@ bMPS random_bMPS_impl(size_t length, int64_t bond_dim, T &&phys_dim, any_quantit
 		any_quantity_cref local_sel_rule = i == 0 ? any_quantity_cref(constraint) : any_quantity_cref(sel_rule);
 		right_side = make_right_side(phys_inds, accumulate_in_out, local_sel_rule, phys_ind_cvals, i, bond_dim, length);
 		auto phys_side = shape_from(phys_dim(i)).set_selection_rule_(sel_rule); // only the state has a total quantum number.
-		out[i] = rand_like(shape_from(left_side, phys_side, right_side), opt);
-		out[i] /= sqrt((out[i] * out[i].conj()).sum());
+		auto site = rand_like(shape_from(left_side, phys_side, right_side), opt);
+		out[i] = site / sqrt((site * site.conj()).sum()); // the site may be a leaf that requires its gradient
 		if (i == 0)
 			right_side.set_selection_rule_(sel_rule);
 		right_side.inverse_cvals_();
-- 
2.43.0


From 0ca21306b682b1dcef3a1761ad29d35b9b8dcaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 66/93] fix: a default constructed block tensor had an
 indeterminate rank

---
 include/blockTensor/btensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index b2437c5..e9931e1 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -818,7 +818,7 @@ class btensor
 	std::tuple<index_list, index_list> element_index_decompose(const index_list &element_index) const;
 
   private:
-	int rank;
+	int rank = 0;
 	/**
 	 * @brief number of section for each of the dimensions of the tensor
 	 *
-- 
2.43.0


From 39db8d85491ee4855602f75eea15f66c8b7e15c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 67/93] fix: a block tensor made from a dense tensor reported
 another element type than its values'

The options of the result came from the default type or from the shape, so that to_dense() dropped the
imaginary part of complex values given without options, and a type asked for in the options was ignored.
---
 sources/btensor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index bfab314..f273b25 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2580,6 +2580,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 {
 	if (out.dim() != values.dim())
 		throw std::invalid_argument("input arguments have incompatible rank!");
+	const auto typed_values = values.to(out.options().device(), c10::typeMetaToScalarType(out.options().dtype()));
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	// fmt::print("construction of btensor from full basic tensor\n==============\n");
@@ -2590,7 +2591,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 			auto shape_view = out.block_sizes(index);
 			auto S = btensor::full_slice(out, index);
 			// torch doesn't accept an empty list of slices
-			auto block = out.dim() ? values.index(torch::ArrayRef(S)) : values;
+			auto block = out.dim() ? typed_values.index(torch::ArrayRef(S)) : typed_values;
 			if ((torch::linalg::vector_norm(block.flatten().to(torch::promote_types(
 			                                    torch::kFloat, torch::typeMetaToScalarType(block.options().dtype()))),
 			                                2, {}, false, {}) > cutoff)
@@ -2605,14 +2606,14 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 btensor from_basic_tensor(const btensor::vec_list_t &shape_spec, any_quantity selection_rul,
                           const torch::Tensor &values, const torch::Scalar cutoff, c10::TensorOptions opt)
 {
-	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, opt);
+	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, values.options().merge_in(opt));
 	from_basic_impl(shape, values, cutoff);
 	return shape;
 }
 btensor from_basic_tensor_like(const btensor &shape, const torch::Tensor &values, const torch::Scalar cutoff,
                                c10::TensorOptions opt)
 {
-	auto out = quantit::sparse_zeros_like(shape, opt);
+	auto out = quantit::sparse_zeros_like(shape, values.options().merge_in(opt));
 	from_basic_impl(out, values, cutoff);
 	return out;
 }
-- 
2.43.0


From b4696ee23414bdcdb0b67d4d5bec1592ed52925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 68/93] fix: adding block tensors of different element types
 threw or gave blocks of different types

---
 sources/btensor.cpp | 55 +++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f273b25..ded3388 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2739,22 +2739,47 @@ size_t get_weakcount(const torch::Tensor &tens)
 
 // end of nasty shenanigans
 
+/**
+ * @brief element type of self + alpha*other.
+ */
+static c10::ScalarType add_type(const btensor &self, const btensor &other, const btensor::Scalar &alpha)
+{
+	const auto type = promote_types(self.options().dtype(), other.options().dtype());
+	if ((alpha.isComplex() and not c10::isComplexType(type)) or
+	    (alpha.isFloatingPoint() and c10::isIntegralType(type, true)))
+		throw std::invalid_argument(
+		    fmt::format("the constant alpha isn't compatible with tensors of type {}", c10::toString(type)));
+	return type;
+}
+/**
+ * @brief element type of the result of adding alpha*other to self in place: that of self, which must be able to hold
+ * the sum.
+ */
+static c10::ScalarType inplace_add_type(const btensor &self, const btensor &other, const btensor::Scalar &alpha)
+{
+	const auto type = c10::typeMetaToScalarType(self.options().dtype());
+	const auto sum_type = add_type(self, other, alpha);
+	if (not c10::canCast(sum_type, type))
+		throw std::invalid_argument(fmt::format("result type {} can't be cast to the type of the tensor added to, {}",
+		                                        c10::toString(sum_type), c10::toString(type)));
+	return type;
+}
 btensor btensor::add(const btensor &other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto type = add_type(*this, other, alpha);
 	auto out = *this;
 	for (auto &a : out)
 	{
-		std::get<1>(a) = std::get<1>(a).clone();
+		std::get<1>(a) = std::get<1>(a).to(type, false, true); // always a copy
 	}
 	out.blocks_list.merge(
 	    other.blocks_list,
 	    // collision : do an addition in place
 	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    // no collision, multiply with the constant and make an independent copy
-	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
-	if (out.begin() != out.end())
-		out._options = std::get<1>(*out.begin()).options();
+	    [&alpha, type](torch::Tensor &x) { x = x.mul(alpha).to(type); });
+	out._options = out._options.dtype(type);
 	return out;
 }
 /*!
@@ -2764,10 +2789,11 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
 btensor btensor::add(btensor &&other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto type = add_type(*this, other, alpha);
 	auto out = *this;
 	for (auto &a : out) // the copy shares its blocks with *this
 	{
-		std::get<1>(a) = std::get<1>(a).clone();
+		std::get<1>(a) = std::get<1>(a).to(type, false, true); // always a copy
 	}
 	out.blocks_list.merge(
 	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
@@ -2775,19 +2801,18 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 	                       // change the cost of the operations. collision
 	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    // no collision
-	    [&alpha](torch::Tensor &x)
+	    [&alpha, type](torch::Tensor &x)
 	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
+		    if (get_refcount(x) > 2 or x.scalar_type() != type) // greater than 2 because we've just made a temp copy for this algorithm
 		    {
-			    x = x.mul(alpha);
+			    x = x.mul(alpha).to(type);
 		    }
 		    else
 		    {
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
-	if (out.begin() != out.end())
-		out._options = std::get<1>(*out.begin()).options();
+	out._options = out._options.dtype(type);
 	return out;
 }
 /*!
@@ -2802,10 +2827,11 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 	// of is to implement the state sharing logic at the level of the btensor as well. That's quite a bit of work
 	// and won't be done right away.
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto type = inplace_add_type(*this, other, alpha);
 	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
 	this->blocks_list.merge(
 	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
+	    [&alpha, type](torch::Tensor &x) { x = x.mul(alpha).to(type); });
 	return *this;
 }
 /**
@@ -2814,15 +2840,16 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 btensor &btensor::add_(btensor &&other, Scalar alpha)
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto type = inplace_add_type(*this, other, alpha);
 	auto b_blocks = std::move(other.blocks_list);
 	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
 	this->blocks_list.merge(
 	    b_blocks, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha](torch::Tensor &x)
+	    [&alpha, type](torch::Tensor &x)
 	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
+		    if (get_refcount(x) > 2 or x.scalar_type() != type) // greater than 2 because we've just made a temp copy for this algorithm
 		    {
-			    x = x.mul(alpha);
+			    x = x.mul(alpha).to(type);
 		    }
 		    else
 		    {
-- 
2.43.0


From a68a64b028a02134ae4d11ebeb833e209539191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 69/93] fix: a complex number could not be added to a real
 block tensor

---
 sources/btensor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ded3388..769c750 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1664,7 +1664,9 @@ btensor::Scalar Scalar_mul(btensor::Scalar a, btensor::Scalar b)
 }
 btensor btensor::add(btensor::Scalar other, btensor::Scalar alpha) const
 {
-	return full_like(*this, Scalar_mul(other, alpha)).add_(*this);
+	const auto value = Scalar_mul(other, alpha);
+	// a complex number promotes a real tensor
+	return full_like(*this, value, torch::result_type(torch::empty({}, options()), value)).add_(*this);
 }
 btensor &btensor::add_(btensor::Scalar other, btensor::Scalar alpha)
 {
-- 
2.43.0


From f0f654a02871c85eb3cf9ae0e6642fa44f9734f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 70/93] fix: the model Hamiltonians used the default element
 type instead of the couplings'

A double precision coupling was truncated when the default type was single precision, and complex couplings
lost their value (Heisenberg) or threw (Hubbard).
---
 sources/models.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 8221a0a..322dd00 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -40,9 +40,9 @@ MPO details::Heisenberg_impl(torch::Tensor J, size_t lenght)
 	constexpr char errorstr[] = "{0} must be a rank 0 tensor (a scalar), the supplied {0} is rank {1}";
 	if (J.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "J", J.sizes().size()));
-	auto type = torch::get_default_dtype();
-	if (!J.is_floating_point())
-		type = torch::scalarTypeToTypeMeta(torch::kInt8);
+	auto type = J.scalar_type();
+	if (torch::isIntegralType(type, true))
+		type = torch::kInt8;
 	auto local_tens = torch::zeros({5, 2, 5, 2}, type);
 	auto [sx, isy, sz, lo, id] = pauli();
 	auto hi = lo.t();
@@ -122,7 +122,10 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 		throw std::invalid_argument(fmt::format(errorstr, "U", U.dim()));
 	if (mu.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "mu", mu.dim()));
-	auto local_tens = torch::zeros({6, 4, 6, 4});
+	auto type = torch::promote_types(U.scalar_type(), mu.scalar_type());
+	if (torch::isIntegralType(type, true))
+		type = torch::typeMetaToScalarType(torch::get_default_dtype());
+	auto local_tens = torch::zeros({6, 4, 6, 4}, type);
 	auto [c_up, c_dn, F, id] = fermions();
 	auto n_up = torch::matmul(c_up.conj().t(), c_up);
 	auto n_dn = torch::matmul(c_dn.conj().t(), c_dn);
-- 
2.43.0


From 17550c0eda105cd54edb30d99c7cd61e32a370bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 71/93] fix: the models with conservation laws refused valid
 physical spaces and weak couplings

The bonds of the Heisenberg model did not carry the charge its operators move, and those of the Hubbard model
only did when the empty site is neutral. Terms below 1e-4 were dropped, and the operator then rejected as
incompatible with the physical space.
---
 sources/models.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 322dd00..a99c79c 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -71,29 +71,24 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 {
 	auto length = tmp_hamil.size();
 	bMPO out(length);
-	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),1e-4);
 	constexpr auto message = "the local shape is incompatible with the MPO at site {}.";
-	if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) 
+	for (size_t i = 0; i < length; ++i)
 	{
-		fmt::print("out: {}\n\n", out.front());
-		throw std::invalid_argument(fmt::format(message,0));
+		const int64_t left = i == 0 ? local_shape.sizes()[0] - 1 : -1;
+		const int64_t right = i + 1 == length ? 0 : -1;
+		out[i] = from_basic_tensor_like(local_shape.basic_create_view({left, -1, right, -1}, true), tmp_hamil[i]);
+		if (!torch::equal(out[i].to_dense(), tmp_hamil[i]))
+			throw std::invalid_argument(fmt::format(message, i));
 	}
-	size_t i =1;
-	for(; i<length-1;++i)
-	{
-		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i],1e-4);
-		if (!torch::allclose(out[i].to_dense(),tmp_hamil[i]))throw std::invalid_argument(fmt::format(message,i));
-	}
-	out.back() = from_basic_tensor_like(local_shape.basic_create_view({-1,-1,0,-1},true),tmp_hamil.back(),1e-4);
-	if (!torch::allclose(out.back().to_dense(),tmp_hamil.back())) throw std::invalid_argument(fmt::format(message,i));
 	return out;
 }
 
 bMPO Heisenberg(torch::Tensor J, size_t lenght,const btensor& phys_shape)
 {
-	auto p = [&phys_shape](size_t i)-> any_quantity_cref{return phys_shape.element_conserved_qtt(0,i);};
+	auto p = [&phys_shape](size_t i)-> any_quantity{return phys_shape.element_conserved_qtt(0,i);};
 	auto neutral = p(0).neutral();
-	auto left_bond = btensor({{{1,neutral},{1,p(0)},{1,p(1)},{1,neutral},{1,neutral}}},p(0),phys_shape.options());
+	// the charge that the operator at the other end of the bond moves.
+	auto left_bond = btensor({{{1,neutral},{1,p(1)*p(0).inverse()},{1,p(0)*p(1).inverse()},{1,neutral},{1,neutral}}},neutral,phys_shape.options());
 	auto local_shape = shape_from(left_bond,phys_shape,left_bond.conj(),phys_shape.conj());
 	MPO tmp_hamil = Heisenberg(J,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
@@ -168,7 +163,9 @@ bMPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght,const btensor& Phy
 {
 	// element: 0 empty, 1 single down electron, 2 single up electron,3 one up and one down
 	auto p = [&Phys_shape](size_t i)->any_quantity{return Phys_shape.element_conserved_qtt(0,i);};
-	auto left_bond = btensor({{{1,p(0)},{1,p(1)},{1,p(2)},{1,p(1).inverse()},{1,p(2).inverse()},{1,p(0)}}},p(0),Phys_shape.options());
+	auto neutral = p(0).neutral();
+	// the charge that the operator at the other end of the bond moves.
+	auto left_bond = btensor({{{1,neutral},{1,p(1)*p(0).inverse()},{1,p(2)*p(0).inverse()},{1,p(0)*p(1).inverse()},{1,p(0)*p(2).inverse()},{1,neutral}}},neutral,Phys_shape.options());
 	auto local_shape = shape_from(left_bond,Phys_shape,left_bond.conj(),Phys_shape.conj());
 	MPO tmp_hamil = Hubbard(U,mu,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 8f09652ff90aa317b6502693f2d3b0b96905efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 72/93] fix: a model on a chain without sites accessed memory
 out of bounds

---
 sources/models.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/models.cpp b/sources/models.cpp
index a99c79c..2d64f4f 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -40,6 +40,8 @@ MPO details::Heisenberg_impl(torch::Tensor J, size_t lenght)
 	constexpr char errorstr[] = "{0} must be a rank 0 tensor (a scalar), the supplied {0} is rank {1}";
 	if (J.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "J", J.sizes().size()));
+	if (lenght == 0)
+		throw std::invalid_argument("a model needs at least one site");
 	auto type = J.scalar_type();
 	if (torch::isIntegralType(type, true))
 		type = torch::kInt8;
@@ -117,6 +119,8 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 		throw std::invalid_argument(fmt::format(errorstr, "U", U.dim()));
 	if (mu.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "mu", mu.dim()));
+	if (lenght == 0)
+		throw std::invalid_argument("a model needs at least one site");
 	auto type = torch::promote_types(U.scalar_type(), mu.scalar_type());
 	if (torch::isIntegralType(type, true))
 		type = torch::typeMetaToScalarType(torch::get_default_dtype());
-- 
2.43.0


From 021708a036c586713fca4be762f050ec503d8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 73/93] fix: a block tensor made from a dense tensor shared its
 storage

Modifying one of them in place changed the other.
---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 769c750..01d7171 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2599,7 +2599,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 			                                2, {}, false, {}) > cutoff)
 			        .item()
 			        .toBool()) // only insert the block if it's a significative quantity.
-				out.block(index) = block;
+				out.block(index) = block.clone();
 			// fmt::print("\tindex {}\n\tSlice {}\n\t block {}\n================\n",index,S,out.block(index));
 		}
 		out.block_increment(index);
-- 
2.43.0


From ca4175a594c7609e2a7728fe50afd1aff297cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 74/93] fix: the sites of a model Hamiltonian shared their
 storage

Modifying one site in place changed all of them.
---
 sources/models.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/models.cpp b/sources/models.cpp
index 2d64f4f..632c501 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -62,6 +62,8 @@ MPO details::Heisenberg_impl(torch::Tensor J, size_t lenght)
 	MPO out(lenght, local_tens);
 	out[0] = out[0].index({Slice(4, 5), Slice(), Slice(), Slice()});
 	out[lenght - 1] = out[lenght - 1].index({Slice(), Slice(), Slice(0, 1), Slice()});
+	for (auto &site : out)
+		site = site.clone();
 	return out;
 }
 MPO Heisenberg(torch::Tensor J, size_t lenght)
@@ -145,6 +147,8 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 	MPO out(lenght, local_tens);
 	out[0] = out[0].index({Slice(5, 6), Ellipsis});
 	out[lenght - 1] = out[lenght - 1].index({Ellipsis, Slice(0, 1), Slice()});
+	for (auto &site : out)
+		site = site.clone();
 	return out;
 }
 /**
-- 
2.43.0


From 0ed542c722bdfe2edd48260ae562974d6f2a924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 75/93] fix: adding an expiring view modified the tensor it is
 a view of

---
 sources/btensor.cpp | 58 ++++-----------------------------------------
 1 file changed, 5 insertions(+), 53 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 01d7171..8ed0ec3 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2785,38 +2785,10 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
 	return out;
 }
 /*!
- * Without the ability to check the refcount of the moved from tensor, this can't really be done efficiently.
- * But i know a trick to access private data.. tbd..
+ * same as add(const btensor&, Scalar): the values of the expiring operand can't be reused in place, it might be a view
+ * of another tensor and there is no way to tell.
  */
-btensor btensor::add(btensor &&other, Scalar alpha) const
-{
-	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
-	const auto type = add_type(*this, other, alpha);
-	auto out = *this;
-	for (auto &a : out) // the copy shares its blocks with *this
-	{
-		std::get<1>(a) = std::get<1>(a).to(type, false, true); // always a copy
-	}
-	out.blocks_list.merge(
-	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
-	                       // with that variant. torch::tensor do shallow copy by default anyway, so it doesn't
-	                       // change the cost of the operations. collision
-	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    // no collision
-	    [&alpha, type](torch::Tensor &x)
-	    {
-		    if (get_refcount(x) > 2 or x.scalar_type() != type) // greater than 2 because we've just made a temp copy for this algorithm
-		    {
-			    x = x.mul(alpha).to(type);
-		    }
-		    else
-		    {
-			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
-		    }
-	    });
-	out._options = out._options.dtype(type);
-	return out;
-}
+btensor btensor::add(btensor &&other, Scalar alpha) const { return add(static_cast<const btensor &>(other), alpha); }
 /*!
  * In place addition. Any btensor that is a shallow copy of this (or vice versa) will not be fully updated by the
  * inplace addition. Only the blocks that where present at the moment of the copy will be affected by the inplace
@@ -2837,29 +2809,9 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 	return *this;
 }
 /**
- * same as add(...)
+ * same as add_(const btensor&, Scalar), see add(btensor &&, Scalar)
  */
-btensor &btensor::add_(btensor &&other, Scalar alpha)
-{
-	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
-	const auto type = inplace_add_type(*this, other, alpha);
-	auto b_blocks = std::move(other.blocks_list);
-	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
-	this->blocks_list.merge(
-	    b_blocks, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha, type](torch::Tensor &x)
-	    {
-		    if (get_refcount(x) > 2 or x.scalar_type() != type) // greater than 2 because we've just made a temp copy for this algorithm
-		    {
-			    x = x.mul(alpha).to(type);
-		    }
-		    else
-		    {
-			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
-		    }
-	    });
-	return *this;
-}
+btensor &btensor::add_(btensor &&other, Scalar alpha) { return add_(static_cast<const btensor &>(other), alpha); }
 /**
  * @brief Helper functions for btensor::reshape.
  *
-- 
2.43.0


From 13d81e93e228d487f0d0b8cc3375d7da04613d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 76/93] fix: a line width given to format a tensor was misread,
 which made printing never end

---
 include/torch_formatter.h | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/torch_formatter.h b/include/torch_formatter.h
index 0accb4d..a0c75f0 100644
--- a/include/torch_formatter.h
+++ b/include/torch_formatter.h
@@ -34,28 +34,21 @@ struct fmt::formatter<torch::Tensor>
 	constexpr auto parse(format_parse_context& ctx)
 	{
 		auto it = ctx.begin(), end = ctx.end();
-		if (it and *it != '}')
+		if (it and it != end and *it != '}')
 		{
-			++it;
 			auto first_pos = it;
 			while (it != end && *it != '}')
 			{
 				++it;
 			}
-			auto last_pos = it - 1;
 			uint width = 80;
-			if (last_pos > first_pos)
-			{
-				auto code = std::from_chars(first_pos, last_pos, width);
-				if (code.ptr != last_pos || std::errc::invalid_argument == code.ec)
-					throw format_error("invalid format, only a single integer supported for torch::Tensor");
-				else
-				{
-					linelenght = width;
-				}
-			}
+			auto code = std::from_chars(first_pos, it, width);
+			if (code.ptr != it || code.ec != std::errc())
+				throw format_error("invalid format, only a single integer supported for torch::Tensor");
+			// libtorch never stops printing when a line is too short for a single column.
+			linelenght = width < 24 ? 24 : width;
 		}
-		if (it and *it != '}')
+		if (it and (it == end or *it != '}'))
 			throw format_error("invalid format,closing brace missing");
 
 		// Return an iterator past the end of the parsed range:
-- 
2.43.0


From 0673b00e40e2eb128d8a3c711c6c918e7de4b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 77/93] fix: printing a complex tensor showed only its real
 part

---
 include/torch_formatter.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/torch_formatter.h b/include/torch_formatter.h
index a0c75f0..a75a135 100644
--- a/include/torch_formatter.h
+++ b/include/torch_formatter.h
@@ -59,7 +59,17 @@ struct fmt::formatter<torch::Tensor>
 	auto format(const torch::Tensor &tens, FormatContext &ctx) const
 	{
 		std::stringstream strstr;
-		at::print(strstr, tens, linelenght);
+		if (tens.defined() and tens.is_complex())
+		{
+			// libtorch only prints the real part
+			strstr << "real part\n";
+			const auto parts = at::view_as_real(tens.detach().resolve_conj());
+			at::print(strstr, parts.select(-1, 0), linelenght);
+			strstr << "\nimaginary part\n";
+			at::print(strstr, parts.select(-1, 1), linelenght);
+		}
+		else
+			at::print(strstr, tens, linelenght);
 		std::string tens_string(strstr.str());
 		auto end = tens_string.length();
 		// find occurences of {} and replace with ()
-- 
2.43.0


From a7f1fe6cf166726a85031a7fe0c83d17d6838df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 78/93] fix: printing a lazily negated tensor showed its values
 without their sign

---
 include/torch_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/torch_formatter.h b/include/torch_formatter.h
index a75a135..e28adcf 100644
--- a/include/torch_formatter.h
+++ b/include/torch_formatter.h
@@ -69,7 +69,7 @@ struct fmt::formatter<torch::Tensor>
 			at::print(strstr, parts.select(-1, 1), linelenght);
 		}
 		else
-			at::print(strstr, tens, linelenght);
+			at::print(strstr, tens.defined() ? tens.resolve_neg() : tens, linelenght);
 		std::string tens_string(strstr.str());
 		auto end = tens_string.length();
 		// find occurences of {} and replace with ()
-- 
2.43.0


From 6e5fdbaf81d3502c49cf915b9134003ac93d119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:00 +0000
Subject: [PATCH 79/93] fix: assigning a block tensor to a part of another kept
 the previous values where the assigned one has no block

---
 sources/btensor.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 8ed0ec3..61fb87b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -761,6 +761,27 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		}
 		return out;
 	};
+	// the blocks that value doesn't store are zeros.
+	for (auto &index_block : blocks_list)
+	{
+		const auto &index = std::get<0>(index_block);
+		btensor::index_list value_index;
+		value_index.reserve(value.rank);
+		bool selected = true;
+		for (size_t i = 0; i < rank; ++i)
+		{
+			if (blocks[i] == -1)
+				value_index.push_back(index[i]);
+			else
+				selected &= blocks[i] == index[i];
+		}
+		if (not selected or value.blocks_list.contains(value_index))
+			continue;
+		if (element.empty())
+			index_block.second.zero_();
+		else
+			index_block.second.index_put_(element, 0);
+	}
 	for (const auto &index_block : value)
 	{
 		const auto &index = std::get<0>(index_block);
-- 
2.43.0


From 1d5dff43936ed49202a57029838aafdfe75d0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:50 +0000
Subject: [PATCH 80/93] fix: element-wise operations and sums that change the
 element type reported the type of their operand

---
 sources/btensor.cpp | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 61fb87b..beeda96 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1581,10 +1581,10 @@ btensor btensor::bmm(const btensor &mat) const
 
 btensor btensor::sum() const
 {
+	torch::Tensor out_val = torch::zeros({0}, options()).sum(); // not always of the type of this
 	// a tensor without dimensions can only hold a value under the neutral selection rule.
-	auto out = btensor({}, selection_rule->neutral(), this->options());
+	auto out = btensor({}, selection_rule->neutral(), out_val.options());
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
-	torch::Tensor out_val = torch::zeros({}, options());
 	for (auto &a : list)
 	{
 		out_val += std::get<1>(a);
@@ -1595,11 +1595,7 @@ btensor btensor::sum() const
 btensor btensor::sqrt() const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(torch::sqrt);
-	auto opt = options();
-	if (out_list.size())
-	{
-		opt = out_list.begin()->second.options();
-	}
+	auto opt = torch::empty({0}, options()).sqrt().options(); // not always the type of this
 	return btensor(*this, std::move(out_list), opt);
 }
 
@@ -1625,11 +1621,7 @@ btensor &btensor::abs_()
 btensor btensor::abs() const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(torch::abs);
-	auto opt = options();
-	if (out_list.size())
-	{
-		opt = out_list.begin()->second.options();
-	}
+	auto opt = torch::empty({0}, options()).abs().options(); // not always the type of this
 	return btensor(*this, std::move(out_list), opt);
 }
 
@@ -1637,11 +1629,7 @@ btensor btensor::pow(btensor::Scalar exponent) const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(
 	    [](const torch::Tensor &x, btensor::Scalar exponent) { return x.pow(exponent); }, exponent);
-	auto opt = options();
-	if (out_list.size())
-	{
-		opt = out_list.begin()->second.options();
-	}
+	auto opt = torch::empty({0}, options()).pow(exponent).options(); // not always the type of this
 	return btensor(*this, std::move(out_list), opt);
 }
 /*
@@ -1768,7 +1756,8 @@ btensor btensor::broadcast_operation(const btensor &other, F &&f) const
 	auto dtype = torch::typeMetaToScalarType(options().dtype());
 	if constexpr (promote)
 	{
-		dtype = promote_types(options().dtype(), other.options().dtype());
+		// the type depends on the operation too: the division of integers gives floating point numbers.
+		dtype = f(torch::empty({0}, options()), torch::empty({0}, other.options())).scalar_type();
 	}
 	// fmt::print("new_sections_by_dim {}\n", new_sections_by_dim);
 	// fmt::print("new_cvals {}\n", new_cvals);
-- 
2.43.0


From 3702fb8bae58c984eddeae209bb4fb6349f97331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 81/93] fix: full and values-only block singular value
 decompositions returned invalid tensors

---
 sources/btensor_linalg.cpp | 75 ++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 31 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index d999b02..de40df1 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -413,6 +413,11 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	auto D_rcval_it = right_D_cvals.begin();
 	auto D_lcval_it = left_D_cvals.begin();
 	auto D_bsize_it = D_block_sizes.begin();
+	// a full decomposition completes the basis on both sides of the (possibly rectangular) diagonal matrix.
+	std::vector<int64_t> U_col_sizes(tensors_n_indices.size());
+	std::vector<int64_t> V_col_sizes(tensors_n_indices.size());
+	auto U_csize_it = U_col_sizes.begin();
+	auto V_csize_it = V_col_sizes.begin();
 	size_t U_blocks = 0;
 	size_t V_blocks = 0;
 	// compute the room needed in the output structure.
@@ -422,23 +427,22 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 		*D_lcval_it = D_rcval_it->inverse();
 		U_blocks += rows.size();
 		V_blocks += cols.size();
-		if (some)
-		{
-			*D_bsize_it =
-			    std::min(basictensor.sizes()[basictensor.dim() - 1], basictensor.sizes()[basictensor.dim() - 2]);
-		}
-		else
-		{
-			*D_bsize_it =
-			    std::max(basictensor.sizes()[basictensor.dim() - 1], basictensor.sizes()[basictensor.dim() - 2]);
-		}
+		const auto row_size = basictensor.sizes()[basictensor.dim() - 2];
+		const auto col_size = basictensor.sizes()[basictensor.dim() - 1];
+		*D_bsize_it = std::min(row_size, col_size);
+		*U_csize_it = some ? *D_bsize_it : row_size;
+		*V_csize_it = some ? *D_bsize_it : col_size;
 		++D_rcval_it;
 		++D_lcval_it;
 		++D_bsize_it;
+		++U_csize_it;
+		++V_csize_it;
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	btensor V_col_shape({static_cast<long>(d_blocks)}, left_D_cvals, V_col_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
+	btensor U_col_shape({static_cast<long>(d_blocks)}, right_D_cvals, U_col_sizes, tensor.selection_rule->neutral(),
 	                    tensor.options());
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
 	                    tensor.options());
@@ -453,7 +457,7 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
+	btensor U = shape_from(tensor.shape_from(to_U_shape), U_col_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	std::vector<int64_t> to_V_others(tensor.dim(), -1);
 	*(to_V_others.end() - 2) = to_V_others.back() = 0;
@@ -463,12 +467,15 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	// as well in sucha a situation Any decomposition of the conserved quantities of the input tensor on those would do,
 	// we choose the simplest, the input on U
 	//  and all neutral element on d and V.
-	btensor V = shape_from(tensor.shape_from(to_V_others).neutral_shape_(), tensor.shape_from(to_V_left), leftD_shape);
+	btensor V = shape_from(tensor.shape_from(to_V_others).neutral_shape_(), tensor.shape_from(to_V_left), V_col_shape);
 	V.set_selection_rule_(V.selection_rule->neutral());
 	// fmt::print("V: \n {}\n",V);
 	// preallocate the blocks, with index, so that the SVD calls can be parallelized.
-	U.reserve_space_(U_blocks);
-	V.reserve_space_(V_blocks);
+	if (compute_uv)
+	{
+		U.reserve_space_(U_blocks);
+		V.reserve_space_(V_blocks);
+	}
 	d.reserve_space_(d_blocks);
 	// Independent steps if the block list have preallocated blocks
 	int b_i = 0;
@@ -476,15 +483,18 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	{ // The two inner loops are independent from one another. Their respective steps are also independent if the
 	  // btensor's block_list already has a block there.
 		auto extra_block_slice = std::make_tuple(b_i, torch::indexing::Slice());
-		for (auto &row : rows)
-		{
-			auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, row, extra_block_slice);
-			U.block(block_ind) = torch::Tensor();
-		}
-		for (auto &col : cols)
+		if (compute_uv)
 		{
-			auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, col, extra_block_slice);
-			V.block(block_ind) = torch::Tensor();
+			for (auto &row : rows)
+			{
+				auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, row, extra_block_slice);
+				U.block(block_ind) = torch::Tensor();
+			}
+			for (auto &col : cols)
+			{
+				auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, col, extra_block_slice);
+				V.block(block_ind) = torch::Tensor();
+			}
 		}
 		auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, extra_block_slice, extra_block_slice);
 		d.block(btensor::index_list(block_ind.begin(), block_ind.end() - 1)) = torch::Tensor();
@@ -496,15 +506,18 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 		// fmt::print("======basictensor=======\n {}\n\n", basictensor );
 		auto [bU, bD, bV] = torch::svd(basictensor, some, compute_uv);
 		auto extra_block_slice = std::make_tuple(b_i, torch::indexing::Slice());
-		for (auto &row : rows)
+		if (compute_uv)
 		{
-			auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, row, extra_block_slice);
-			U.block(block_ind) = bU.index(slice);
-		}
-		for (auto &col : cols)
-		{
-			auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, col, extra_block_slice);
-			V.block(block_ind) = bV.index(slice);
+			for (auto &row : rows)
+			{
+				auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, row, extra_block_slice);
+				U.block(block_ind) = bU.index(slice);
+			}
+			for (auto &col : cols)
+			{
+				auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, col, extra_block_slice);
+				V.block(block_ind) = bV.index(slice);
+			}
 		}
 		auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, extra_block_slice, extra_block_slice);
 		d.block(btensor::index_list(block_ind.begin(), block_ind.end() - 1)) = bD;
-- 
2.43.0


From 0406d3639c66052042edf4e18d16e429f70affa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 82/93] fix: printing a tensor when memory ran out silently
 showed a part of it

---
 include/torch_formatter.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/torch_formatter.h b/include/torch_formatter.h
index e28adcf..56bc03a 100644
--- a/include/torch_formatter.h
+++ b/include/torch_formatter.h
@@ -18,6 +18,7 @@
 #include <fmt/ostream.h>
 #include <fmt/format.h>
 #include <charconv>
+#include <new>
 namespace quantit
 {
 	void print(const torch::Tensor& X);
@@ -70,6 +71,8 @@ struct fmt::formatter<torch::Tensor>
 		}
 		else
 			at::print(strstr, tens.defined() ? tens.resolve_neg() : tens, linelenght);
+		if (!strstr) // a string stream holds back the exceptions of its own, it only fails for lack of memory
+			throw std::bad_alloc();
 		std::string tens_string(strstr.str());
 		auto end = tens_string.length();
 		// find occurences of {} and replace with ()
-- 
2.43.0


From 928bdd8aed945d4a0fd6ac8fd54145412fda9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:34 +0000
Subject: [PATCH 83/93] fix: allclose compares blocks the first tensor does not
 store with the tolerance of the second

The relative tolerance of allclose is relative to the second tensor. For a
block only the second tensor stores, the comparison was made with the operands
exchanged, so the relative tolerance was dropped and the answer depended on
which blocks happen to be stored.
---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index beeda96..b70254b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2649,7 +2649,7 @@ bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool
 		}
 		else if (a_index > b_index)
 		{
-			is_allclose &= torch::allclose(b_tens, torch::zeros_like(b_tens), rtol, atol, equal_nan);
+			is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);
 			++b_it;
 		}
 		else // equal index
@@ -2671,7 +2671,7 @@ bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool
 	{
 		const auto &b_index = std::get<0>(*b_it);
 		const auto &b_tens = std::get<1>(*b_it);
-		is_allclose &= torch::allclose(b_tens, torch::zeros_like(b_tens), rtol, atol, equal_nan);
+		is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);
 		++b_it;
 	}
 	return is_allclose;
-- 
2.43.0


From 26d9321ab692d350fc860102af4bcc94fc980758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 84/93] fix: the validity check of a btensor reads outside of
 it when it is invalid

check_tensor went on after it found a block index that doesn't fit the tensor:
it read section sizes and conserved quantities that don't exist, a segmentation
fault in the constructor that takes the parts of a tensor. A negative block
index was taken as valid, and the number of conserved quantities wasn't
checked.
---
 sources/btensor.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b70254b..8726935 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -430,21 +430,39 @@ std::string btensor::check_tensor(const btensor &T)
 		M += fmt::format(
 		    "number of section accross all dimension ({}) incoherent with number of specified section sizes ({})\n",
 		    total_sections, T.sections_sizes.size());
+	if (total_sections != T.c_vals.size())
+		M += fmt::format(
+		    "number of section accross all dimension ({}) incoherent with number of specified conserved quantities ({})\n",
+		    total_sections, T.c_vals.size());
+	if (M != "")
+		return M; // there's nothing coherent to compare the blocks with.
 
 	for (const auto &a : T.blocks_list)
 	{
 		auto &ind = std::get<0>(a);
 		if (ind.size() != T.rank)
-			M += fmt::format("block index {} invalid: number of index differ from rank", std::get<0>(a));
+		{
+			M += fmt::format("block index {} invalid: number of index differ from rank\n", ind);
+			continue;
+		}
+		bool inside = true;
+		for (auto i = 0U; i < ind.size(); ++i)
+		{
+			if (ind[i] < 0 or ind[i] >= T.sections_by_dim[i])
+			{
+				M += fmt::format(
+				    "block index {} {}th element is outside of the sections along that dimension (there are {})\n", ind,
+				    i, T.sections_by_dim[i]);
+				inside = false;
+			}
+		}
+		if (not inside)
+			continue;
 		any_quantity sel_test = T.selection_rule.value.neutral();
 		{
 			std::string cq = "";
 			for (auto i = 0U; i < ind.size(); ++i)
 			{
-				if (!(ind[i] < T.sections_by_dim[i]))
-					M += fmt::format(
-					    "block index {} {}th element is greater than the number of section along that dimension ({})\n",
-					    ind, i, T.sections_by_dim[i]);
 				const auto &qt = T.section_conserved_qtt(i, ind[i]);
 				sel_test += qt;
 				cq += fmt::format("index {}: ", i) + fmt::format("{}\n", qt);
-- 
2.43.0


From 0e99bfc498c7b836ceb87e1da358e478e34dd871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 85/93] fix: element-wise product of btensors with sections of
 different sizes was accepted

Only the number of sections was compared. Sections of different sizes gave a
result with the sections of one operand and the values of whichever blocks
happened to fit, were of size one, or nothing. The section count of a dimension
without sections that is broadcast with one of size one was wrong as well.
---
 sources/btensor.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 8726935..d894ede 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1090,7 +1090,7 @@ struct mul_helpers
 				*it = (((*smaller_sec == 1) and (smaller_tensor.section_size(smaller_rank - n, 0) == 1)) +
 				       2 * ((*larger_sec == 1) and (larger_tensor.section_size(larger_rank - n, 0) == 1)));
 				if (*it)
-					new_sections_by_dim[larger_rank - n] = std::max(*smaller_sec, *larger_sec);
+					new_sections_by_dim[larger_rank - n] = (*it & 1) ? *larger_sec : *smaller_sec;
 				constexpr auto message = "The section and tensor size of tensor a (section size {},tensor size {}) "
 				                         "must match the section size and tensor size"
 				                         "of tensor b (section size {}, tensor size {}) at non-singleton dimension {}";
@@ -1109,6 +1109,17 @@ struct mul_helpers
 						                *larger_sec, larger_tensor.section_size(larger_rank - n, 0), smaller_rank - n));
 					}
 				}
+				if (not(*it))
+				{
+					auto [small_size, small_size_end] = smaller_tensor.section_sizes(smaller_rank - n);
+					auto [large_size, large_size_end] = larger_tensor.section_sizes(larger_rank - n);
+					if (not std::equal(small_size, small_size_end, large_size, large_size_end))
+						throw std::invalid_argument(fmt::format(
+						    "The sizes of the sections ({}) of one tensor must match those ({}) of the other at "
+						    "non-singleton dimension {}",
+						    fmt::join(small_size, small_size_end, ","), fmt::join(large_size, large_size_end, ","),
+						    larger_rank - n));
+				}
 				++n;
 			}
 		}
-- 
2.43.0


From 50fbcd2224769ca34b26a67426cad1c7d615f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 86/93] fix: item() of a btensor of several elements returned
 one of its elements

Whether item() refused depended on the number of stored blocks instead of the
number of elements of the tensor.
---
 sources/btensor.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d894ede..467a0eb 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -321,13 +321,20 @@ std::vector<int64_t> btensor::sizes() const
 }
 btensor::Scalar btensor::item() const
 {
-	auto d = std::distance(begin(), end());
-	if (d == 0)
+	for (auto &&size : sizes())
+	{
+		if (size != 1)
+			throw std::logic_error("Only single element tensors can be converted to scalar");
+	}
+	if (begin() == end())
 		return torch::zeros({}, options()).item();
-	if (d == 1)
-		return begin()->second.item();
-	else
-		throw std::logic_error("Only simgle block and single element tensors can be converted to scalar");
+	// sections can be empty, so that there's several blocks, one of them contains the element.
+	for (const auto &block : *this)
+	{
+		if (std::get<1>(block).numel() == 1)
+			return std::get<1>(block).item();
+	}
+	return torch::zeros({}, options()).item();
 }
 btensor::btensor(const btensor::vec_list_t &dir_block_size_cqtt, any_quantity_cref selection_rule,
                  c10::TensorOptions opt)
-- 
2.43.0


From 15a6eeca70e3f3b1531763786f2d9855a152bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:56 +0000
Subject: [PATCH 87/93] fix: creating a filled btensor with a dimension without
 any section

The factory functions, from_basic_tensor and what uses them (adding a scalar)
visited the first block of a tensor that has no block: a segmentation fault, a
bad cast or an exception about a block that doesn't exist.
---
 sources/btensor.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 467a0eb..b0f16fd 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2443,6 +2443,11 @@ size_t get_refcount(const torch::Tensor &tens)
 	return refcount_1;
 }
 
+static bool has_no_block(const btensor &tens)
+{ // a dimension without any section leaves no block index to visit.
+	return std::any_of(tens.section_numbers().begin(), tens.section_numbers().end(), [](auto &&n) { return n == 0; });
+}
+
 /**
  * @brief common code for the implementation of factory function based on the factory function of pytorch
  *
@@ -2457,6 +2462,8 @@ size_t get_refcount(const torch::Tensor &tens)
 template <class Factory>
 void factory_wrap(btensor &out, Factory &&factory)
 {
+	if (has_no_block(out))
+		return;
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	do
@@ -2628,6 +2635,8 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 {
 	if (out.dim() != values.dim())
 		throw std::invalid_argument("input arguments have incompatible rank!");
+	if (has_no_block(out))
+		return;
 	const auto typed_values = values.to(out.options().device(), c10::typeMetaToScalarType(out.options().dtype()));
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
-- 
2.43.0


From 0593b5f69ea495c1aaf17f2c831c1527b4d2e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:56 +0000
Subject: [PATCH 88/93] fix: a btensor could be made of values of another size
 than its own

from_basic_tensor sliced the values by the sections of the tensor without
comparing their sizes: elements were dropped, or the blocks were smaller than
their sections.
---
 sources/btensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b0f16fd..75f726a 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2635,6 +2635,9 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 {
 	if (out.dim() != values.dim())
 		throw std::invalid_argument("input arguments have incompatible rank!");
+	if (const auto shape = out.sizes(); values.sizes() != torch::IntArrayRef(shape))
+		throw std::invalid_argument(
+		    fmt::format("input arguments have incompatible sizes: {} and {}", shape, values.sizes().vec()));
 	if (has_no_block(out))
 		return;
 	const auto typed_values = values.to(out.options().device(), c10::typeMetaToScalarType(out.options().dtype()));
-- 
2.43.0


From c8142cdd3963e508a381c9ddaef2431d606b8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:38 +0000
Subject: [PATCH 89/93] fix: reshape of a btensor with groups of dimensions
 that it doesn't have

A group limit that is out of the tensor or out of order, and any reshape of a
rank 0 tensor, were a segmentation fault. The limits are checked, and a rank 0
tensor is reshaped like any other.
A group of no dimension between two others was refused as an invalid block.
---
 sources/btensor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 75f726a..e2cb4d6 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2987,7 +2987,7 @@ btensor::index_list new_block_shape(torch::IntArrayRef index_groups, btensor::co
 	auto index_it = index_groups.begin() + 1;
 	for (auto i = index_groups.front(); i < old_rank; ++i)
 	{
-		if (i >= (*index_it))
+		while (i >= (*index_it)) // a group can be empty
 		{
 			++out_it;
 			++index_it;
@@ -3127,12 +3127,16 @@ btensor btensor::reshape(torch::IntArrayRef index_groups) const
 	m_index_group[0] = 0;
 	m_index_group.back() = rank;
 	std::copy(index_groups.begin(), index_groups.end(), m_index_group.begin() + 1);
+	if (not std::is_sorted(m_index_group.begin(), m_index_group.end()))
+		throw std::invalid_argument(fmt::format("the groups of dimensions delimited by {} aren't those of a rank {} tensor",
+		                                        index_groups.vec(), rank));
 	// adresses contains the offset for section quantities for each dimensions of the tensor. perhaps i should
 	// refactor such that this quantity is a class property. wouldn't be too hard. require modification to the
 	// constructor to initialize this, and modification to the view subclasses to make use of this. Would upgrade
 	// them from bidirectionnal to random access.
 	auto addresses = btensor::index_list(sections_by_dim.size(), 0);
-	std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
+	if (not addresses.empty())
+		std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
 
 	auto out_sections_by_dim = reshape_sections_by_dim(m_index_group, out_rank, sections_by_dim);
 	auto out_size = std::reduce(out_sections_by_dim.begin(), out_sections_by_dim.end());
-- 
2.43.0


From 9ca287be471d06dc90a76869f558b88398cb6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:31 +0000
Subject: [PATCH 90/93] fix: dimensions that a btensor doesn't have were not
 refused

permute, transpose, squeeze and tensordot used a dimension out of range or given
twice to read and write outside of their lists. They refuse it now, with the
error torch gives, and squeeze and tensordot count negative dimensions from the
end as permute, transpose and torch do.
---
 sources/btensor.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index e2cb4d6..108325e 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -937,15 +937,20 @@ template bool btensor::check_product_compat<true>(const btensor &in1, const bten
  * @return std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>>
  */
 std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>> compute_tdot_shape(
-    const btensor &input1, const btensor &input2, torch::IntArrayRef dims1, torch::IntArrayRef dims2)
-{
+    const btensor &input1, const btensor &input2, torch::IntArrayRef in_dims1, torch::IntArrayRef in_dims2)
+{
+	// those throw if a dimension doesn't exist or is repeated.
+	auto cdims1 = at::dim_list_to_bitset(in_dims1, input1.dim());
+	auto cdims2 = at::dim_list_to_bitset(in_dims2, input2.dim());
+	auto dims1 = in_dims1.vec();
+	auto dims2 = in_dims2.vec();
+	at::maybe_wrap_dims(dims1, input1.dim());
+	at::maybe_wrap_dims(dims2, input2.dim());
 	TORCH_CHECK(dims1.size() == dims2.size(), "both dimension lists should have the same length.")
 	TORCH_CHECK(input1.selection_rule->get().same_type(input2.selection_rule->get()),
 	            "the two tensors have different type of conserved quantities");
 
 	btensor::check_product_compat<true>(input1, input2, dims1, dims2);
-	auto cdims1 = at::dim_list_to_bitset(dims1, input1.dim());
-	auto cdims2 = at::dim_list_to_bitset(dims2, input2.dim());
 	std::vector<int64_t> p1, p2,
 	    out_section_by_dim; // p1, p2: input permutations, out_section_by_dim: sizes of the result
 	p1.reserve(input1.dim());
@@ -1868,7 +1873,10 @@ btensor btensor::permute(torch::IntArrayRef in_permutation) const
 	block_list_t::content_t out_block_list; // unordered.
 	out_block_list.reserve(blocks_list.size());
 	index_list out_section_by_dim(rank);
-	assert(in_permutation.size() == rank);
+	if (in_permutation.size() != rank)
+		throw std::invalid_argument(fmt::format("a permutation of {} dimensions can't be applied to a tensor of rank {}",
+		                                        in_permutation.size(), rank));
+	at::dim_list_to_bitset(in_permutation, rank); // throws if a dimension doesn't exist or is repeated.
 	std::vector<int64_t> permutation(rank);
 	// turn it into a positive indexed permutation.
 	std::transform(in_permutation.begin(), in_permutation.end(), permutation.begin(),
@@ -2059,8 +2067,8 @@ btensor btensor::tensor_product_shape(const btensor &other) const
 btensor btensor::transpose(int64_t dim0, int64_t dim1) const
 {
 	// convert to a permutation? That's the simplest option for me.
-	dim0 = rank * (dim0 < 0) + dim0;
-	dim1 = rank * (dim1 < 0) + dim1;
+	dim0 = at::maybe_wrap_dim(dim0, rank, false);
+	dim1 = at::maybe_wrap_dim(dim1, rank, false);
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
@@ -2070,8 +2078,8 @@ btensor btensor::transpose(int64_t dim0, int64_t dim1) const
 btensor &btensor::transpose_(int64_t dim0, int64_t dim1)
 {
 	// convert to a permutation? That's the simplest option for me.
-	dim0 = rank * (dim0 < 0) + dim0;
-	dim1 = rank * (dim1 < 0) + dim1;
+	dim0 = at::maybe_wrap_dim(dim0, rank, false);
+	dim1 = at::maybe_wrap_dim(dim1, rank, false);
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
@@ -2235,6 +2243,7 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 }
 btensor &btensor::squeeze_(int64_t dim)
 {
+	dim = at::maybe_wrap_dim(dim, rank, false);
 	if (section_number(dim) == 1 and section_size(dim, 0) == 1)
 	{ // do the squeeze
 		std::vector<int64_t> res(this->dim(), -1);
-- 
2.43.0


From 874ee8c15439c5e01ce1f3f7c490e4a3eb8693f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 91/93] fix: tensorgdot_ and tensorgdot_out lost their result
 for a non-contiguous output

reshape copies a tensor that can't be viewed with the new shape, and the result was written in the copy.
The version with a number of dimensions also read outside of the sizes when a tensor has fewer dimensions than that.
---
 sources/tensorgdot.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index e17b31f..7438e93 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -99,6 +99,15 @@ compute_shape(const torch::Tensor& add, torch::Tensor& t1, torch::Tensor& t2, co
 	return make_tuple(p1, p2, rsizes, size1, csize, size2);
 }
 
+/**
+ * @brief write the result in the output tensor, when the reshaped output is a copy instead of a view of it.
+ */
+static void write_back(torch::Tensor& output, const torch::Tensor& reshaped)
+{
+	if (not reshaped.is_alias_of(output))
+		output.copy_(reshaped.reshape(output.sizes()));
+}
+
 torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_tens, const torch::Tensor& input1, const torch::Tensor& input2,
                               torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                               torch::Scalar beta, torch::Scalar alpha)
@@ -113,6 +122,7 @@ torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_te
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	at::addmm_out(rout, add_tens.reshape({size1, size2}), t1, t2, beta, alpha);
+	write_back(output, rout);
 	return output;
 }
 
@@ -147,6 +157,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	write_back(output, rout);
 	return output;
 }
 
@@ -159,6 +170,8 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	Tensor t2 = input2;
 	auto sizes1 = t1.sizes();
 	auto sizes2 = t2.sizes();
+	TORCH_CHECK(dims >= 0 and dims <= t1.dim() and dims <= t2.dim(),
+	            fmt::format("can't contract {} dimensions of tensors with {} and {} dimensions", dims, t1.dim(), t2.dim()));
 	// auto [p1, p2, rsizes, size1, csize, size2] = compute_shape(output, t1, t2, input1, input2, dims1, dims2);
 	std::vector<int64_t> rsizes(t1.dim() + t2.dim() - 2 * dims);
 	auto rit = rsizes.begin();
@@ -189,6 +202,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	write_back(output, rout);
 	return output;
 }
 
-- 
2.43.0


From e68d845da2c755e1abb78b7db9d27cb5c14eb40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:31 +0000
Subject: [PATCH 92/93] fix: the product of C<N> overflowed for N larger than
 32768

---
 include/Conserved/quantity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index cecb905..582f384 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -119,8 +119,8 @@ class C
 
 	constexpr C &op(C other, bool cond) noexcept
 	{
-		val += cond * other.val;
-		val -= (val >= N) * N;
+		const uint32_t sum = uint32_t(val) + cond * other.val; // can be larger than what the storage can contain.
+		val = static_cast<uint16_t>(sum - (sum >= N) * N);
 		return *this;
 	}
 
-- 
2.43.0


From 7f7786e63de9269d1a26a372d1576defa919823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:48 +0000
Subject: [PATCH 93/93] fix: shape_from of a dense shape wrote past the end of
 its result and accepted the wrong number of indices

---
 sources/btensor.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 108325e..8f95f5e 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2411,22 +2411,17 @@ torch_shape shape_from(std::initializer_list<torch_shape> shapes)
 }
 torch_shape shape_from(const torch_shape &shape, const std::vector<int64_t> inds)
 {
-	size_t rank = 0;
-	for (auto &ind : inds)
-	{
-		rank += ind == -1;
-	}
-	std::vector<int64_t> sizes(rank);
-	auto it = sizes.begin();
+	if (inds.size() != shape._sizes.size())
+		throw std::invalid_argument(fmt::format("the number of indices ({}) is different from the rank of the shape ({})",
+		                                        inds.size(), shape._sizes.size()));
+	std::vector<int64_t> sizes;
+	sizes.reserve(shape._sizes.size());
 	auto shape_it = shape._sizes.begin();
-	if (rank)
+	for (auto &ind : inds)
 	{
-		for (auto &ind : inds)
-		{
-			*it = *shape_it;
-			it += ind == -1;
-			++shape_it;
-		}
+		if (ind == -1)
+			sizes.push_back(*shape_it);
+		++shape_it;
 	}
 	return {sizes, shape.opt};
 }
-- 
2.43.0

