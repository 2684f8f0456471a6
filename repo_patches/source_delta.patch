From 5fe9ee9aabf0b2ba9f27d4012a85ea612bc00d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:01 +0000
Subject: [PATCH 01/26] fix: reverse_t::length queries the sub-structure with
 the mirrored index

---
 include/noarr/structures/structs/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index 4a62f74..fb6120b 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -791,7 +791,7 @@ public:
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(state);
+		return sub_structure().template length<QDim>(sub_state(state));
 	}
 };
 
-- 
2.43.0


From 7487d0a247ca974ea5a03a4e9516a65d86390707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:22 +0000
Subject: [PATCH 02/26] fix: rename_t::has_length no longer answers for
 dimensions that were renamed away

---
 include/noarr/structures/structs/views.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index eaf336f..96feb39 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -526,8 +526,14 @@ public:
 	requires IsDim<decltype(QDim)>
 	[[nodiscard]]
 	static consteval bool has_length() noexcept {
-		return sub_structure_t::template has_length<helpers::rename_dim<QDim, external, internal>::dim,
-		                                            sub_state_t<State>>();
+		if constexpr (dim_sequence_contains<internal>::template value<QDim> &&
+		              !dim_sequence_contains<external>::template value<QDim>) {
+			// This dimension has been renamed, the old name is not visible from outside
+			return false;
+		} else {
+			return sub_structure_t::template has_length<helpers::rename_dim<QDim, external, internal>::dim,
+			                                            sub_state_t<State>>();
+		}
 	}
 
 	template<auto QDim, IsState State>
-- 
2.43.0


From 379c0c679b93a6369f00a478820ff795032fb209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:22 +0000
Subject: [PATCH 03/26] fix: join_t provides the length of the joined dimension
 and hides the two it consumes

---
 include/noarr/structures/structs/views.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index 96feb39..5c08696 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -666,14 +666,25 @@ public:
 	requires IsDim<decltype(QDim)>
 	[[nodiscard]]
 	static consteval bool has_length() noexcept {
-		return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		if constexpr (QDim == Dim) {
+			return sub_structure_t::template has_length<DimA, sub_state_t<State>>();
+		} else if constexpr (QDim == DimA || QDim == DimB) {
+			// This dimension is consumed by join
+			return false;
+		} else {
+			return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		}
 	}
 
 	template<auto QDim, IsState State>
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(sub_state(state));
+		if constexpr (QDim == Dim) {
+			return sub_structure().template length<DimA>(sub_state(state));
+		} else {
+			return sub_structure().template length<QDim>(sub_state(state));
+		}
 	}
 };
 
-- 
2.43.0


From dab9e244622d9834c248efc6b2eaddfbccc6fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:22 +0000
Subject: [PATCH 04/26] fix: into_blocks_dynamic_t has no length in an already
 fixed presence dimension

---
 include/noarr/structures/structs/blocks.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/blocks.hpp b/include/noarr/structures/structs/blocks.hpp
index a960de7..5da1bea 100644
--- a/include/noarr/structures/structs/blocks.hpp
+++ b/include/noarr/structures/structs/blocks.hpp
@@ -358,7 +358,8 @@ public:
 	[[nodiscard]]
 	static consteval bool has_length() noexcept {
 		if constexpr (QDim == DimIsPresent) {
-			if constexpr (!state_contains<State, index_in<DimMajor>, index_in<DimMinor>>) {
+			if constexpr (!state_contains<State, index_in<DimMajor>, index_in<DimMinor>> ||
+			              state_contains<State, index_in<DimIsPresent>>) {
 				return false;
 			} else {
 				if constexpr (!state_contains<State, length_in<DimMinor>> &&
-- 
2.43.0


From a5d12c74945c9ae0ab779f8bc1b3634f99250874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:54 +0000
Subject: [PATCH 05/26] fix: alignment of a tuple whose elements have different
 alignments

---
 include/noarr/structures/structs/layouts.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/layouts.hpp b/include/noarr/structures/structs/layouts.hpp
index 4dc6a86..fc70a31 100644
--- a/include/noarr/structures/structs/layouts.hpp
+++ b/include/noarr/structures/structs/layouts.hpp
@@ -188,7 +188,14 @@ private:
 	template<IsState State, std::size_t I, std::size_t... IS>
 	[[nodiscard]]
 	constexpr auto align_inner(std::index_sequence<I, IS...> /*is*/, State sub_state) const noexcept {
-		return std::max(sub_structure<I>().align(sub_state), align_inner(std::index_sequence<IS...>(), sub_state));
+		// alignments are static, but generally of different (integral_constant) types
+		const auto head = sub_structure<I>().align(sub_state);
+		const auto tail = align_inner(std::index_sequence<IS...>(), sub_state);
+		if constexpr (decltype(head)::value >= decltype(tail)::value) {
+			return head;
+		} else {
+			return tail;
+		}
 	}
 };
 
-- 
2.43.0


From 403916e1a6bad4bb33566f6d347d747881de6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:07 +0000
Subject: [PATCH 06/26] fix: cuda_striped_t::align does not compile

---
 include/noarr/structures/interop/cuda_striped.cuh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/cuda_striped.cuh b/include/noarr/structures/interop/cuda_striped.cuh
index 7af3f9f..94365c4 100644
--- a/include/noarr/structures/interop/cuda_striped.cuh
+++ b/include/noarr/structures/interop/cuda_striped.cuh
@@ -139,7 +139,8 @@ public:
 	[[nodiscard]]
 	constexpr auto align(State state) const noexcept {
 		using namespace constexpr_arithmetic;
-		return std::max(sub_structure().align(sub_state(state), make_const<BankWidth>()));
+		using sub_align = decltype(sub_structure().align(sub_state(state)));
+		return make_const<(sub_align::value < BankWidth ? BankWidth : sub_align::value)>();
 	}
 
 	template<class Sub, IsState State>
-- 
2.43.0


From 15a0708d260564e2f78342724cd6b3770a34bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:37 +0000
Subject: [PATCH 07/26] fix: the signature of join_t drops both joined
 dimensions

---
 include/noarr/structures/structs/views.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index 5c08696..dc25f87 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -606,7 +606,8 @@ private:
 
 public:
 	using signature = function_sig<Dim, typename dim_a::arg_length,
-	                               typename T::signature::template replace<sig_remove_first, DimA, DimB>>;
+	                               typename T::signature::template replace<sig_remove_first, DimA>::template replace<
+									   sig_remove_first, DimB>>;
 
 	template<IsState State>
 	[[nodiscard]]
-- 
2.43.0


From 127e9304e1f3c10073bcfb1c38cb0aafad887a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:59 +0000
Subject: [PATCH 08/26] fix: merge_zcurve masks the aligned part of the index
 with a 64-bit mask

---
 include/noarr/structures/structs/zcurve.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index 969296f..aa65d9c 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -195,7 +195,8 @@ private:
 			if constexpr (state_contains<State, index_in<Dim>>) {
 				const std::size_t index = state.template get<index_in<Dim>>();
 				const auto index_general = index >> SpecialLevel * sizeof...(Dims);
-				const auto index_special = index & ((1U << SpecialLevel * sizeof...(Dims)) - 1U);
+				const auto index_special =
+					index & ((static_cast<std::size_t>(1U) << SpecialLevel * sizeof...(Dims)) - 1U);
 				const auto indices = helpers::zc_general<GeneralLevel - SpecialLevel>(
 					index_general, (sub_structure.template length<Dims>(tmp_state) >> SpecialLevel)...);
 				return tmp_state.template with<index_in<Dims>...>(
-- 
2.43.0


From 364df6c929d6f30d84124209193c4fb6a18b593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:59 +0000
Subject: [PATCH 09/26] fix: merge_zcurve_t::has_length no longer answers for
 the merged dimensions

---
 include/noarr/structures/structs/zcurve.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index aa65d9c..a0dd550 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -258,6 +258,9 @@ public:
 			return false;
 		} else if constexpr (QDim == Dim) {
 			return (... && sub_structure_t::template has_length<Dims, sub_state_t<State>>());
+		} else if constexpr ((... || (QDim == Dims))) {
+			// consumed by the merge
+			return false;
 		} else {
 			return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
 		}
-- 
2.43.0


From 3cb7c908360cf68ea31182c9c69f31dea83bcadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:59 +0000
Subject: [PATCH 10/26] fix: merge_zcurve of a single dimension shifts by the
 width of the type

---
 include/noarr/structures/structs/zcurve.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index a0dd550..c8493c5 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -111,8 +111,12 @@ constexpr std::size_t zc_special_inner(std::size_t tmp, std::index_sequence<I...
 template<std::size_t NDim, std::size_t Dim>
 constexpr std::size_t zc_special(std::size_t z) noexcept {
 	static_assert(0 <= Dim && Dim < NDim, "bug");
-	return zc_special_inner<NDim>(z >> (NDim - Dim - 1U),
-	                              std::make_index_sequence<zc_special_helper<NDim>::num_iter>());
+	if constexpr (NDim == 1U) {
+		return z; // nothing is interleaved (and the mask would have to be as wide as the type)
+	} else {
+		return zc_special_inner<NDim>(z >> (NDim - Dim - 1U),
+		                              std::make_index_sequence<zc_special_helper<NDim>::num_iter>());
+	}
 }
 
 template<class Acc, auto...>
-- 
2.43.0


From 76f009e0a8c51f2bb8ce90321de1917935894ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:37 +0000
Subject: [PATCH 11/26] fix: merge_zcurve decides between halves without
 overflowing the volume of the first one

---
 include/noarr/structures/structs/zcurve.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index c8493c5..a2fca9c 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -77,8 +77,9 @@ constexpr std::tuple<SizeTs...> zc_general(std::size_t z, SizeTs... sizes) noexc
 					           : tile_size;
 				}
 			});
+			// does not overflow if the second half is not empty (otherwise, z always falls into the first half)
 			const std::size_t half_volume = facet << level::v;
-			if (z >= half_volume) {
+			if (std::get<i::v>(result) + small_tile_size::v < std::get<i::v>(size) && z >= half_volume) {
 				z -= half_volume;
 				std::get<i::v>(result) += small_tile_size::v;
 			}
-- 
2.43.0


From 1df6584f657e1f6484e1e728446118881413b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:30 +0000
Subject: [PATCH 12/26] fix: state arithmetic keeps the values of static (lit)
 items

The result of operator+ and operator- had the item types of the left operand, so
idx<'x'>(lit<2>) + idx<'x'>(5) was lit<2>, and -idx<'x'>(lit<3>) was lit<3>.
---
 include/noarr/structures/base/state.hpp | 47 +++++++++++++------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/include/noarr/structures/base/state.hpp b/include/noarr/structures/base/state.hpp
index 335f858..57b5683 100644
--- a/include/noarr/structures/base/state.hpp
+++ b/include/noarr/structures/base/state.hpp
@@ -343,15 +343,15 @@ constexpr state<StateItems...> operator+(state<StateItems...> state_a) noexcept
 }
 
 template<class... StateItems>
-constexpr state<StateItems...> operator-([[maybe_unused]] state<StateItems...> state_a) noexcept {
+constexpr auto operator-([[maybe_unused]] state<StateItems...> state_a) noexcept {
 	using namespace noarr::constexpr_arithmetic;
-	return state<StateItems...>(-state_a.template get<typename StateItems::tag>()...);
+	return make_state<typename StateItems::tag...>(-state_a.template get<typename StateItems::tag>()...);
 }
 
 template<class... StateItems>
-constexpr state<StateItems...> operator+(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
+constexpr auto operator+(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
 	using namespace noarr::constexpr_arithmetic;
-	return state<StateItems...>(
+	return make_state<typename StateItems::tag...>(
 		(state_a.template get<typename StateItems::tag>() + state_b.template get<typename StateItems::tag>())...);
 }
 
@@ -378,21 +378,22 @@ constexpr auto operator+(state<StateItemsA...> state_a, state<StateItemsB...> st
 
 	return [=]<class... StateItems>(state<StateItems...> base) constexpr noexcept {
 		// items that are in both states
-		const auto added =
-			state_a.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result()) +
-			state_b.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result());
-
-		return added & base;
+		const auto common = [=]<class... CommonItems>(helpers::state_items_pack<CommonItems...> /*common*/) {
+			using namespace noarr::constexpr_arithmetic;
+			return make_state<typename CommonItems::tag...>((state_a.template get<typename CommonItems::tag>() +
+			                                                 state_b.template get<typename CommonItems::tag>())...);
+		}(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
+		                                       typename StateItems::tag...>::result());
+
+		return common & base;
 	}(base);
 }
 
 template<class... StateItems>
-constexpr state<StateItems...> operator-(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
+constexpr auto operator-(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
 	using namespace noarr::constexpr_arithmetic;
-	return state<StateItems...>(state_a.template get<typename StateItems::tag>() -
-	                            state_b.template get<typename StateItems::tag>()...);
+	return make_state<typename StateItems::tag...>(
+		(state_a.template get<typename StateItems::tag>() - state_b.template get<typename StateItems::tag>())...);
 }
 
 template<class... StateItems>
@@ -401,7 +402,7 @@ constexpr state<StateItems...> operator-(state<StateItems...> state_a, state<> /
 }
 
 template<class... StateItems>
-constexpr state<StateItems...> operator-(state<> /*state_a*/, state<StateItems...> state_b) noexcept {
+constexpr auto operator-(state<> /*state_a*/, state<StateItems...> state_b) noexcept {
 	return -state_b;
 }
 
@@ -416,13 +417,15 @@ constexpr auto operator-(state<StateItemsA...> state_a, state<StateItemsB...> st
 	                                                                 typename StateItemsA::tag...>::result());
 
 	return [=]<class... StateItems>(state<StateItems...> base) constexpr noexcept {
-		const auto added =
-			state_a.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result()) -
-			state_b.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result());
-
-		return added & base;
+		// items that are in both states
+		const auto common = [=]<class... CommonItems>(helpers::state_items_pack<CommonItems...> /*common*/) {
+			using namespace noarr::constexpr_arithmetic;
+			return make_state<typename CommonItems::tag...>((state_a.template get<typename CommonItems::tag>() -
+			                                                 state_b.template get<typename CommonItems::tag>())...);
+		}(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
+		                                       typename StateItems::tag...>::result());
+
+		return common & base;
 	}(base);
 }
 
-- 
2.43.0


From 518187df097d63bf59363ce3b9fce1ea866f46c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:36 +0000
Subject: [PATCH 13/26] fix: a view of an owning rvalue bag does not compile

The data of the bag were 'moved' out of a const reference, which is a copy, deleted for std::unique_ptr.
---
 include/noarr/structures/interop/bag.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/bag.hpp b/include/noarr/structures/interop/bag.hpp
index 61df9e5..29ae98e 100644
--- a/include/noarr/structures/interop/bag.hpp
+++ b/include/noarr/structures/interop/bag.hpp
@@ -245,7 +245,8 @@ public:
 	[[nodiscard("Returns a new bag")]]
 	friend constexpr auto operator^(bag_t &&s, ProtoStruct p) {
 		using new_structure_t = std::remove_cvref_t<decltype(s.structure() ^ p)>;
-		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p, std::move(std::move(s).template get<1>()));
+		// `get` returns a const reference, which cannot be moved from; `s` itself is a non-const rvalue
+		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p, std::move(const_cast<data_t &>(s.template get<1>())));
 	}
 
 	template<IsProtoStruct ProtoStruct>
-- 
2.43.0


From fd6fd0f8b9382993d40424e344c89e69c41dd73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:04 +0000
Subject: [PATCH 14/26] fix: signatures of span and step state the actual
 length

---
 include/noarr/structures/structs/slice.hpp | 25 ++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index fb6120b..6f0f338 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -386,7 +386,17 @@ private:
 
 	template<class ArgLength, class RetSig>
 	struct dim_replacement<function_sig<Dim, ArgLength, RetSig>> {
-		using type = function_sig<Dim, arg_length_from_t<EndT>, RetSig>;
+		template<class S, class E>
+		struct subtract {
+			using type = dynamic_arg_length;
+		};
+
+		template<std::size_t S, std::size_t E>
+		struct subtract<std::integral_constant<std::size_t, S>, std::integral_constant<std::size_t, E>> {
+			using type = static_arg_length<E - S>;
+		};
+
+		using type = function_sig<Dim, typename subtract<StartT, EndT>::type, RetSig>;
 	};
 
 	template<class... RetSigs>
@@ -539,7 +549,18 @@ private:
 
 	template<class ArgLength, class RetSig>
 	struct dim_replacement<function_sig<Dim, ArgLength, RetSig>> {
-		using type = function_sig<Dim, arg_length_from_t<StrideT>, RetSig>;
+		template<class L, class Start, class Stride>
+		struct steps {
+			using type = dynamic_arg_length;
+		};
+
+		template<std::size_t L, std::size_t Start, std::size_t Stride>
+		struct steps<static_arg_length<L>, std::integral_constant<std::size_t, Start>,
+		             std::integral_constant<std::size_t, Stride>> {
+			using type = static_arg_length<(L + Stride - Start - 1) / Stride>;
+		};
+
+		using type = function_sig<Dim, typename steps<ArgLength, StartT, StrideT>::type, RetSig>;
 	};
 
 	template<class... RetSigs>
-- 
2.43.0


From 49c0d6a9597296e7ade755c2705412a3a406a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:27 +0000
Subject: [PATCH 15/26] fix: index_space_size of a structure with a tuple whose
 elements have dimensions

---
 include/noarr/structures/extra/shortcuts.hpp | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/noarr/structures/extra/shortcuts.hpp b/include/noarr/structures/extra/shortcuts.hpp
index 688a5e7..8b82460 100644
--- a/include/noarr/structures/extra/shortcuts.hpp
+++ b/include/noarr/structures/extra/shortcuts.hpp
@@ -4,6 +4,7 @@
 #include <cstddef>
 
 #include <type_traits>
+#include <utility>
 
 #include "../base/state.hpp"
 #include "../base/structs_common.hpp"
@@ -302,26 +303,29 @@ struct index_space_size_impl {
 public:
 	template<class DimTree>
 	static constexpr std::size_t get(Struct structure) noexcept {
-		return get_impl(DimTree{}, structure);
+		return get_impl(DimTree{}, structure, empty_state);
 	}
 
 	static constexpr std::size_t get(Struct structure) noexcept {
-		return get_impl(sig_dim_tree<typename Struct::signature>{}, structure);
+		return get_impl(sig_dim_tree<typename Struct::signature>{}, structure, empty_state);
 	}
 
 private:
-	template<auto Dim, class... Branches>
-	requires (sizeof...(Branches) != 1)
-	static constexpr std::size_t get_impl(dim_tree<Dim, Branches...> /*dt*/, Struct structure) noexcept {
-		return (... + get_impl(Branches{}, structure));
+	template<auto Dim, class... Branches, IsState State>
+	static constexpr std::size_t get_impl(dim_tree<Dim, Branches...> /*dt*/, Struct structure, State state) noexcept {
+		if constexpr (sig_find_dim<Dim, State, typename Struct::signature>::dependent) {
+			// the lengths inside a tuple can be queried only with its index
+			return [=]<std::size_t... Is>(std::index_sequence<Is...> /*is*/) noexcept {
+				return (... + get_impl(Branches{}, structure, state & idx<Dim>(lit<Is>)));
+			}(std::index_sequence_for<Branches...>());
+		} else {
+			return (structure | get_length<Dim>(state)) * (... * get_impl(Branches{}, structure, state));
+		}
 	}
 
-	template<auto Dim, class Branch>
-	static constexpr std::size_t get_impl(dim_tree<Dim, Branch> /*dt*/, Struct structure) noexcept {
-		return (structure | get_length<Dim>()) * get_impl(Branch{}, structure);
+	static constexpr std::size_t get_impl(dim_sequence<> /*dt*/, Struct /*structure*/, IsState auto /*state*/) noexcept {
+		return 1;
 	}
-
-	static constexpr std::size_t get_impl(dim_sequence<> /*dt*/, Struct /*structure*/) noexcept { return 1; }
 };
 
 } // namespace helpers
-- 
2.43.0


From 878f31a0149797025cfd771eece5934befdca910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:26 +0000
Subject: [PATCH 16/26] fix: planners over a tuple dimension did not compile

---
 include/noarr/structures/extra/planner.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 5c2a1e2..8f58268 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -397,6 +397,11 @@ private:
 		for_each_impl_dep<Dim, Branches...>(state, std::index_sequence<Is...>());
 	}
 
+	// the bottom case
+	template<auto Dim>
+	requires IsDim<decltype(Dim)>
+	constexpr void for_each_impl_dep(auto /*state*/, std::index_sequence<> /*is*/) const {}
+
 	template<auto Dim, class... Branches, IsState State>
 	constexpr void for_each_impl(dim_tree<Dim, Branches...> /*dt*/, State state) const {
 		if constexpr (helpers::is_activated_v<decltype(get_ending().order(
-- 
2.43.0


From 2021070cfa335108bf2d08ebc1d9f0bd8729254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:22 +0000
Subject: [PATCH 17/26] fix: planners ran the innermost ending before the loops
 of dimensions that do not determine an index (into_blocks_dynamic, bcast)

---
 include/noarr/structures/extra/planner.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 8f58268..1abe0e7 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -30,6 +30,10 @@ using is_activated = is_activated_impl<std::remove_cvref_t<Ending>>;
 template<class Ending>
 constexpr bool is_activated_v = is_activated<Ending>::value;
 
+// an activated section runs as soon as its dimensions are determined; the innermost endings wait for all the loops
+template<class Ending>
+constexpr bool is_activated_section_v = false;
+
 } // namespace helpers
 
 template<class Sig, class F>
@@ -219,6 +223,10 @@ template<class... Endings>
 struct helpers::is_activated_impl<planner_endings<Endings...>>
 	: std::integral_constant<bool, planner_endings<Endings...>::activated> {};
 
+template<class... Endings>
+constexpr bool helpers::is_activated_section_v<planner_endings<Endings...>> =
+	(... || helpers::is_activated_section_v<std::remove_cvref_t<Endings>>);
+
 template<class... Endings>
 planner_endings(Endings &&...) -> planner_endings<std::remove_cvref_t<Endings>...>;
 
@@ -277,6 +285,9 @@ template<class Sig, class F>
 struct helpers::is_activated_impl<planner_sections_t<Sig, F>>
 	: std::integral_constant<bool, planner_sections_t<Sig, F>::activated> {};
 
+template<class Sig, class F>
+constexpr bool helpers::is_activated_section_v<planner_sections_t<Sig, F>> = planner_sections_t<Sig, F>::activated;
+
 template<class Union, class Order_, class Ending_>
 constexpr auto make_planner(Union &&union_struct, Order_ &&order, Ending_ &&ending) noexcept {
 	return planner_t(std::forward<Union>(union_struct), std::forward<Order_>(order), std::forward<Ending_>(ending));
@@ -404,7 +415,7 @@ private:
 
 	template<auto Dim, class... Branches, IsState State>
 	constexpr void for_each_impl(dim_tree<Dim, Branches...> /*dt*/, State state) const {
-		if constexpr (helpers::is_activated_v<decltype(get_ending().order(
+		if constexpr (helpers::is_activated_section_v<decltype(get_ending().order(
 						  fix(state_at<union_struct>(top_struct(), state))))>) {
 			get_ending()(order(fix(state)));
 		} else {
-- 
2.43.0


From 131138cdcc0a4a629493905d5fc36b1e3c9db145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:45 +0000
Subject: [PATCH 18/26] fix: planner_tbb_execute and planner_std_execute did
 not compile

---
 include/noarr/structures/interop/planner_iter.hpp |  4 ++++
 include/noarr/structures/interop/std_para.hpp     |  7 +++++--
 include/noarr/structures/interop/tbb.hpp          | 10 ++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/interop/planner_iter.hpp b/include/noarr/structures/interop/planner_iter.hpp
index b6ad63e..ae19e6b 100644
--- a/include/noarr/structures/interop/planner_iter.hpp
+++ b/include/noarr/structures/interop/planner_iter.hpp
@@ -190,6 +190,10 @@ struct planner_range_t<Dim, union_t<Structs...>, Order, Ending> : flexible_conta
 	constexpr planner_range_t(const planner_t<union_t<Structs...>, Order, Ending> &planner, std::size_t length)
 		: base(static_cast<const base &>(planner)), begin_idx(0), end_idx(length) {}
 
+	// TBB splitting constructor
+	template<class Split>
+	constexpr planner_range_t(planner_range_t &, Split) noexcept; // defined in tbb.hpp
+
 	template<class NewOrder>
 	[[nodiscard("Returns a new planner")]]
 	constexpr auto order(NewOrder new_order) const noexcept {
diff --git a/include/noarr/structures/interop/std_para.hpp b/include/noarr/structures/interop/std_para.hpp
index 1da5d63..2f39787 100644
--- a/include/noarr/structures/interop/std_para.hpp
+++ b/include/noarr/structures/interop/std_para.hpp
@@ -27,8 +27,11 @@ constexpr planner_std_execute_t planner_std_execute() noexcept { return {}; }
 
 template<IsPlanner Planner>
 inline void operator|(const Planner &planner, planner_std_execute_t /*unused*/) {
-	std::for_each(std::execution::par, planner.begin(), planner.end(),
-	              [](const auto &inner_planner) { inner_planner.execute(); });
+	// parallel algorithms assign iterators; iterators of a planner contain its (possibly not assignable) callbacks
+	const auto t = traverser(planner.get_union()).order(planner.get_order());
+	std::for_each(std::execution::par, t.begin(), t.end(), [&planner](const auto &t_inner) {
+		make_planner(t_inner.get_struct(), t_inner.get_order(), planner.get_ending()).execute();
+	});
 }
 
 } // namespace noarr
diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index e0ed07e..f0fd295 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -27,6 +27,16 @@ constexpr traverser_range_t<Dim, Struct, Order>::traverser_range_t(traverser_ran
 	orig.end_idx = begin_idx;
 }
 
+// declared in planner_iter.hpp
+template<IsDim auto Dim, class... Structs, class Order, class Ending>
+template<class Split>
+constexpr planner_range_t<Dim, union_t<Structs...>, Order, Ending>::planner_range_t(planner_range_t &orig,
+                                                                                    Split /*unused*/) noexcept
+	: base(orig), begin_idx(orig.begin_idx + (orig.end_idx - orig.begin_idx) / 2), end_idx(orig.end_idx) {
+	static_assert(std::is_same_v<Split, tbb::split>, "Invalid constructor call");
+	orig.end_idx = begin_idx;
+}
+
 template<IsTraverser Traverser, class F>
 inline void tbb_for_each(const Traverser &t, const F &f) {
 	tbb::parallel_for(t.range(), [&f](const auto &subrange) { subrange.for_each(f); });
-- 
2.43.0


From 07e06a6da708424c63a239b2fa28f76b857ca1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:54 +0000
Subject: [PATCH 19/26] fix: tbb_reduce shared the output between subranges
 when the order reuses a dimension name (data race)

---
 include/noarr/structures/interop/tbb.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index f0fd295..e89134b 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -50,12 +50,26 @@ inline void tbb_for_sections(const Traverser &t, const F &f) {
 	});
 }
 
+namespace helpers {
+
+// whether the state consists of just the index in Dim
+template<auto Dim, class State>
+constexpr bool tbb_is_index_in = false;
+
+template<auto Dim, class ValueType>
+constexpr bool tbb_is_index_in<Dim, state<state_item<index_in<Dim>, ValueType>>> = true;
+
+} // namespace helpers
+
 template<IsTraverser Traverser, class FNeut, class FAcc, class FJoin, class OutStruct>
 inline void tbb_reduce(const Traverser &t, const FNeut &f_neut, const FAcc &f_acc, const FJoin &f_join,
                        const OutStruct &out_struct, void *out_ptr) {
 	constexpr auto top_dim = helpers::traviter_top_dim<decltype(t.get_struct() ^ t.get_order())>;
 	using range_t = decltype(t.range());
-	if constexpr (OutStruct::signature::template all_accept<top_dim>) {
+	// the states given by the subranges are those of the input structure, the order might use the name differently
+	using top_state = std::remove_cvref_t<decltype(t.order(fix<top_dim>(std::size_t(0))).state())>;
+	if constexpr (OutStruct::signature::template all_accept<top_dim> &&
+	              helpers::tbb_is_index_in<top_dim, top_state>) {
 		// parallel writes will go to different offsets => out_ptr may be shared
 		tbb::parallel_for(t.range(), [&f_acc, out_ptr](const range_t &subrange) {
 			subrange.for_each([f_acc, out_ptr](auto state) { f_acc(state, out_ptr); });
-- 
2.43.0


From 4970d07bfe83ef6b3813a38070995df5bfd23393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:50 +0000
Subject: [PATCH 20/26] fix: offset_along of a dimension that rename_t renamed
 away was offered and returned false

---
 .../structures/introspection/offset_along.hpp      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/noarr/structures/introspection/offset_along.hpp b/include/noarr/structures/introspection/offset_along.hpp
index 5b7639e..031cb51 100644
--- a/include/noarr/structures/introspection/offset_along.hpp
+++ b/include/noarr/structures/introspection/offset_along.hpp
@@ -179,7 +179,11 @@ private:
 		helpers::rename_dim<QDim, typename Structure::external, typename Structure::internal>::dim;
 
 	static constexpr bool get_value() noexcept {
-		return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::value;
+		if constexpr (Structure::internal::template contains<QDim> && !Structure::external::template contains<QDim>) {
+			return false;
+		} else {
+			return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::value;
+		}
 	}
 
 public:
@@ -189,12 +193,8 @@ public:
 	static constexpr auto offset(Structure structure, State state) noexcept
 	requires value
 	{
-		if constexpr (Structure::internal::template contains<QDim> && !Structure::external::template contains<QDim>) {
-			return false;
-		} else {
-			return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::offset(structure.sub_structure(),
-			                                                                       structure.sub_state(state));
-		}
+		return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::offset(structure.sub_structure(),
+		                                                                       structure.sub_state(state));
 	}
 };
 
-- 
2.43.0


From 216cb59ce41100f0c1f89525391dff3fe023d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:02 +0000
Subject: [PATCH 21/26] fix: lower_bound_at of the major dimension of blocks
 did not compile (deduced return types differ), and into_blocks_dynamic had
 none for a range

---
 .../introspection/lower_bound_along.hpp       | 54 +++++++++++++------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 21fd02e..233d8d0 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -1,6 +1,8 @@
 #ifndef NOARR_STRUCTURES_LOWER_BOUND_ALONG_HPP
 #define NOARR_STRUCTURES_LOWER_BOUND_ALONG_HPP
 
+#include <cstddef>
+
 #include <type_traits>
 #include <utility>
 
@@ -974,9 +976,9 @@ public:
 		} else if constexpr (QDim == DimMajor) {
 			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
+				return std::size_t(0);
 			} else {
-				return structure.template length<DimMinor>(state) - make_const<1>();
+				return static_cast<std::size_t>(structure.template length<DimMajor>(state) - make_const<1>());
 			}
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
@@ -994,9 +996,9 @@ public:
 		} else if constexpr (QDim == DimMajor) {
 			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return min;
+				return static_cast<std::size_t>(min);
 			} else {
-				return end - make_const<1>();
+				return static_cast<std::size_t>(end - make_const<1>());
 			}
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
@@ -1118,16 +1120,16 @@ public:
 		} else if constexpr (QDim == DimMajor) {
 			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
+				return std::size_t(0);
 			} else {
-				return structure.template length<DimMinor>(state) - make_const<1>();
+				return static_cast<std::size_t>(structure.template length<DimMajor>(state) - make_const<1>());
 			}
 		} else if constexpr (QDim == DimIsBorder) {
 			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
+				return std::size_t(0);
 			} else {
-				return make_const<1>();
+				return std::size_t(1);
 			}
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
@@ -1143,20 +1145,18 @@ public:
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state), min, end);
 		} else if constexpr (QDim == DimMajor) {
-			const auto len = structure.template length<DimMinor>(state);
 			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return min;
+				return static_cast<std::size_t>(min);
 			} else {
-				return end - make_const<1>();
+				return static_cast<std::size_t>(end - make_const<1>());
 			}
 		} else if constexpr (QDim == DimIsBorder) {
-			const auto len = structure.template length<DimMinor>(state);
 			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return min;
+				return static_cast<std::size_t>(min);
 			} else {
-				return end - make_const<1>();
+				return static_cast<std::size_t>(end - make_const<1>());
 			}
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
@@ -1276,9 +1276,9 @@ public:
 		} else if constexpr (QDim == DimMajor) {
 			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
+				return std::size_t(0);
 			} else {
-				return structure.template length<DimMinor>(state) - make_const<1>();
+				return static_cast<std::size_t>(structure.template length<DimMajor>(state) - make_const<1>());
 			}
 		} else if constexpr (QDim == DimIsPresent) {
 			return make_const<0>();
@@ -1287,6 +1287,28 @@ public:
 				structure.sub_structure(), structure.sub_state(state));
 		}
 	}
+
+	static constexpr auto lower_bound_at(Structure structure, State state, auto min, auto end) noexcept
+	requires value
+	{
+		using namespace constexpr_arithmetic;
+		if constexpr (QDim == DimMinor) {
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+				structure.sub_structure(), structure.sub_state(state), min, end);
+		} else if constexpr (QDim == DimMajor) {
+			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
+				return static_cast<std::size_t>(min);
+			} else {
+				return static_cast<std::size_t>(end - make_const<1>());
+			}
+		} else if constexpr (QDim == DimIsPresent) {
+			return min;
+		} else {
+			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
+				structure.sub_structure(), structure.sub_state(state), min, end);
+		}
+	}
 };
 
 template<IsDim auto QDim, IsDim auto DimMajor, IsDim auto DimMinor, IsDim auto Dim, class T, IsState State>
-- 
2.43.0


From 429f4fbc5d594d738ae50843fabbbdf5b471d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:02 +0000
Subject: [PATCH 22/26] fix: lower_bound_along of a range of a reversed
 dimension passed an end that was one too low

---
 .../noarr/structures/introspection/lower_bound_along.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 233d8d0..9f604a3 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -829,12 +829,11 @@ public:
 
 		if constexpr (QDim == Dim) {
 			const auto sub_length = sub_structure.template length<Dim>(sub_state);
-			const auto sub_last = sub_length - make_const<1>();
 			const auto in_min = sub_length - end;
-			const auto in_max = sub_last - min;
+			const auto in_end = sub_length - min;
 
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(sub_structure, sub_state,
-			                                                                             in_min, in_max);
+			                                                                             in_min, in_end);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound(sub_structure, sub_state, min,
 			                                                                              end);
@@ -869,10 +868,10 @@ public:
 			const auto sub_length = sub_structure.template length<Dim>(sub_state);
 			const auto sub_last = sub_length - make_const<1>();
 			const auto in_min = sub_length - end;
-			const auto in_max = sub_last - min;
+			const auto in_end = sub_length - min;
 
 			return sub_last - has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-								  sub_structure, sub_state, in_min, in_max);
+								  sub_structure, sub_state, in_min, in_end);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(sub_structure, sub_state,
 			                                                                                 min, end);
-- 
2.43.0


From 910c2b9bd8dc6186ae3f5b341fbfcb720384d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:02 +0000
Subject: [PATCH 23/26] fix: lower_bound_at of a shifted dimension passed an
 end reduced by the shift

---
 include/noarr/structures/introspection/lower_bound_along.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 9f604a3..2ac5669 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -597,7 +597,7 @@ public:
 			const auto sub_state = structure.sub_state(state);
 			const auto start = structure.start();
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					   sub_structure, sub_state, start, sub_structure.template length<Dim>(sub_state) - start) -
+					   sub_structure, sub_state, start, sub_structure.template length<Dim>(sub_state)) -
 			       start;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
-- 
2.43.0


From 4a63bbb3403becd39a64d283991eaf786239ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:55 +0000
Subject: [PATCH 24/26] fix: mangle_expr: keep the last digit of negative
 integers

---
 include/noarr/structures/extra/mangle.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index 0a6b74a..e37b67e 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -178,6 +178,7 @@ struct mangle_expr_helpers {
 		} while (u /= 10);
 		if (neg) {
 			*--ptr = '-';
+			sz++;
 		}
 		out.append(ptr, sz);
 	}
-- 
2.43.0


From 640f65c68203b1b389ed4a8451728fd574c36b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:55 +0000
Subject: [PATCH 25/26] fix: mangle static lengths that do not fit into int

---
 include/noarr/structures/extra/mangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index e37b67e..7aaf250 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -110,13 +110,13 @@ struct scalar_name<std::integral_constant<std::size_t, L>> {
 		integer_sequence_concat<std::integer_sequence<char, 's', 't', 'd', ':', ':', 'i', 'n', 't', 'e', 'g', 'r', 'a',
 	                                                  'l', '_', 'c', 'o', 'n', 's', 't', 'a', 'n', 't', '<'>,
 	                            typename scalar_name<std::size_t>::type, std::integer_sequence<char, ','>,
-	                            mangle_value<int, L>, std::integer_sequence<char, '>'>>;
+	                            mangle_value<std::size_t, L>, std::integer_sequence<char, '>'>>;
 };
 
 template<std::size_t L>
 struct scalar_name<lit_t<L>> {
 	using type = integer_sequence_concat<std::integer_sequence<char, 'l', 'i', 't', '_', 't', '<'>,
-	                                     mangle_value<int, L>, std::integer_sequence<char, '>'>>;
+	                                     mangle_value<std::size_t, L>, std::integer_sequence<char, '>'>>;
 };
 
 /**
-- 
2.43.0


From 6adb32903e16b19d94f358c113d681ff2f14ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 26/26] fix: IsStruct probes one private dimension instead of
 two made of __LINE__

---
 include/noarr/structures/base/structs_common.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/base/structs_common.hpp b/include/noarr/structures/base/structs_common.hpp
index adbaae9..ce52392 100644
--- a/include/noarr/structures/base/structs_common.hpp
+++ b/include/noarr/structures/base/structs_common.hpp
@@ -13,6 +13,13 @@
 
 namespace noarr {
 
+namespace helpers {
+
+// the tag of a dimension that no structure has
+struct is_struct_probe_tag {};
+
+} // namespace helpers
+
 /**
  * @brief returns whether the type `T` meets the criteria for structures
  *
@@ -23,8 +30,9 @@ concept IsStruct = requires {
 	typename std::remove_cvref_t<T>::signature;
 	requires IsSignature<typename std::remove_cvref_t<T>::signature>;
 
-	requires static_cast<bool>(std::remove_cvref_t<T>::template has_length<dim<__LINE__>{}, state<>>()) ||
-				 !static_cast<bool>(std::remove_cvref_t<T>::template has_length<dim<__LINE__>{}, state<>>());
+	// whether there is a length is irrelevant, the question just has to make sense
+	typename std::bool_constant<static_cast<bool>(
+		std::remove_cvref_t<T>::template has_length<dim<helpers::is_struct_probe_tag{}>{}, state<>>())>;
 };
 
 /**
-- 
2.43.0

