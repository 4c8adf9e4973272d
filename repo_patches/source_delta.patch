From 6b9c168e75f037d246725bd5a570189a9d09c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 01/13] fix: base64 fallback decoder used a 32-bit position and
 overran inputs over 4 GiB

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fa50c46..46db9bc 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -394,7 +394,7 @@ void fg::base64::fallback_decode_inplace(std::string_view encoded, std::uint8_t*
 	std::array<std::uint8_t, blockSize> sixBitChars {};
 
 	const auto encodedSize = encoded.size();
-	for (auto pos = 0U; pos + 4 < encodedSize; pos += 4) {
+	for (std::size_t pos = 0; pos + 4 < encodedSize; pos += 4) {
 		std::memcpy(sixBitChars.data(), &encoded[pos], blockSize);
 
 		decode_block(sixBitChars, output);
-- 
2.43.0


From aaeb78061de823c9b8d541876652a7fa984c14a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 02/13] fix: SSE4 base64 decoder wrote past the end of the
 output buffer

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 46db9bc..c3ff31f 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -226,7 +226,7 @@ namespace fastgltf::base64 {
     // allocate any new memory to hold the encoded data and let the fallback decoder decode the
     // remaining data.
 	const auto encodedSize = encoded.size();
-	const auto alignedSize = encodedSize - (encodedSize % dataOutputSize);
+	const auto alignedSize = encodedSize - (encodedSize % dataSetSize);
     auto* out = output;
 
     // _mm_setr_epi8 accepts only 'char' but 0xff would overflow a signed char, which makes some compilers unhappy.
-- 
2.43.0


From d7860e7dddc0983330186905038ff4a996162f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 03/13] fix: base64 lookup table did not cover non-ASCII bytes

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index c3ff31f..5acc372 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -364,7 +364,7 @@ fg::StaticVector<std::uint8_t> fg::base64::neon_decode(std::string_view encoded)
 
 // clang-format off
 // ASCII value -> base64 value LUT
-static constexpr std::array<std::uint8_t, 128> base64lut = {
+static constexpr std::array<std::uint8_t, 256> base64lut = {
     0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,62,0,0,0,63,
     52, 53, 54, 55, 56, 57, 58, 59, 60, 61,
     0,0,0,0,0,0,0,
-- 
2.43.0


From 045a5a741963059125d835f39aa3371a280c7d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 04/13] fix: dividing a quaternion by a scalar multiplied it
 instead

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 2112fa6..f874fee 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -514,7 +514,7 @@ namespace fastgltf::math {
 		}
 
 		constexpr auto operator/(T scalar) const noexcept {
-			return quat<T>(*this) *= scalar;
+			return quat<T>(*this) /= scalar;
 		}
 		constexpr auto operator/=(T scalar) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
-- 
2.43.0


From 1aa4240f10e29f7598400e268a44453f4bf3ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 05/13] fix: non-square matrices built from single values put
 them in the wrong columns

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index f874fee..ef5c0e1 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -629,7 +629,7 @@ namespace fastgltf::math {
 
 		template <typename... Args, std::size_t... i>
 		constexpr void copy_values(const std::tuple<Args...>& tuple, std::integer_sequence<std::size_t, i...>) noexcept {
-			(..., (_data[i / M][i % N] = std::get<i>(std::move(tuple))));
+			(..., (_data[i / N][i % N] = std::get<i>(std::move(tuple))));
 		}
 
 	public:
-- 
2.43.0


From d7c49dcbb2a8c0d15de5e034092fd7b70a87204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 06/13] fix: comparing non-square matrices skipped columns or
 read past the last one

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index ef5c0e1..2c2b617 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -717,7 +717,7 @@ namespace fastgltf::math {
 		}
 
 		[[nodiscard]] constexpr bool operator==(const mat<T, N, M>& other) const noexcept {
-			for (std::size_t i = 0; i < N; ++i)
+			for (std::size_t i = 0; i < columns(); ++i)
 				if (col(i) != other.col(i))
 					return false;
 			return true;
-- 
2.43.0


From b868807bd747e3bbde5ee137c035a7838e211466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 07/13] fix: decomposing a matrix that rotates by 180 degrees
 lost the axis' signs

---
 include/fastgltf/math.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 2c2b617..0286224 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -948,9 +948,29 @@ namespace fastgltf::math {
 		rotation.z() = static_cast<float>(sqrt(static_cast<double>(rotation.z()))) / 2;
 		rotation.w() = static_cast<float>(sqrt(static_cast<double>(rotation.w()))) / 2;
 
-		rotation.x() = std::copysignf(rotation.x(), matrix[1][2] - matrix[2][1]);
-		rotation.y() = std::copysignf(rotation.y(), matrix[2][0] - matrix[0][2]);
-		rotation.z() = std::copysignf(rotation.z(), matrix[0][1] - matrix[1][0]);
+		// The signs of the components relative to the largest one. Using w alone does not work for
+		// rotations by (nearly) 180 degrees, where w and the differences vanish.
+		if (rotation.w() >= rotation.x() && rotation.w() >= rotation.y() && rotation.w() >= rotation.z()) {
+			rotation.x() = std::copysignf(rotation.x(), matrix[1][2] - matrix[2][1]);
+			rotation.y() = std::copysignf(rotation.y(), matrix[2][0] - matrix[0][2]);
+			rotation.z() = std::copysignf(rotation.z(), matrix[0][1] - matrix[1][0]);
+		} else if (rotation.x() >= rotation.y() && rotation.x() >= rotation.z()) {
+			rotation.y() = std::copysignf(rotation.y(), matrix[0][1] + matrix[1][0]);
+			rotation.z() = std::copysignf(rotation.z(), matrix[2][0] + matrix[0][2]);
+			rotation.w() = std::copysignf(rotation.w(), matrix[1][2] - matrix[2][1]);
+		} else if (rotation.y() >= rotation.z()) {
+			rotation.x() = std::copysignf(rotation.x(), matrix[0][1] + matrix[1][0]);
+			rotation.z() = std::copysignf(rotation.z(), matrix[1][2] + matrix[2][1]);
+			rotation.w() = std::copysignf(rotation.w(), matrix[2][0] - matrix[0][2]);
+		} else {
+			rotation.x() = std::copysignf(rotation.x(), matrix[2][0] + matrix[0][2]);
+			rotation.y() = std::copysignf(rotation.y(), matrix[1][2] + matrix[2][1]);
+			rotation.w() = std::copysignf(rotation.w(), matrix[0][1] - matrix[1][0]);
+		}
+
+		// q and -q are the same rotation, we return the one with a positive w.
+		if (rotation.w() < 0.f)
+			rotation = -rotation;
 	}
 } // namespace fastgltf::math
 
-- 
2.43.0


From 2b68fd7d6c417046dddad0f8bd97b2628dc2c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 08/13] fix: element traits of s32 vectors named 16-bit
 components

---
 include/fastgltf/tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 32fcd8c..406edba 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -152,9 +152,9 @@ template<> struct ElementTraits<math::u16vec2> : ElementTraitsBase<math::u16vec2
 template<> struct ElementTraits<math::u16vec3> : ElementTraitsBase<math::u16vec3, AccessorType::Vec3, std::uint16_t> {};
 template<> struct ElementTraits<math::u16vec4> : ElementTraitsBase<math::u16vec4, AccessorType::Vec4, std::uint16_t> {};
 
-template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int16_t> {};
+template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int32_t> {};
 template<> struct ElementTraits<math::u32vec2> : ElementTraitsBase<math::u32vec2, AccessorType::Vec2, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec3> : ElementTraitsBase<math::u32vec3, AccessorType::Vec3, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec4> : ElementTraitsBase<math::u32vec4, AccessorType::Vec4, std::uint32_t> {};
-- 
2.43.0


From e62942172dfb2630fbba07c1c6f50cdb33645b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 09/13] fix: sparse lookup truncated the element index to the
 type of the sparse indices

---
 include/fastgltf/tools.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 406edba..1435be9 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -400,7 +400,8 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		auto step = count / 2;
 		auto index = resultIndex + step;
 
-		if (deserializeComponent<ElementType>(indices, index) < static_cast<ElementType>(desiredIndex)) {
+		// The desired index might not be representable by the type of the indices.
+		if (static_cast<std::size_t>(deserializeComponent<ElementType>(indices, index)) < desiredIndex) {
 			resultIndex = index + 1;
 			count -= step + 1;
 		} else {
@@ -408,7 +409,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		}
 	}
 
-	return resultIndex < indexCount && deserializeComponent<ElementType>(indices, resultIndex) == static_cast<ElementType>(desiredIndex);
+	return resultIndex < indexCount && static_cast<std::size_t>(deserializeComponent<ElementType>(indices, resultIndex)) == desiredIndex;
 }
 
 // Finds the index of the nearest sparse index to the desired index
-- 
2.43.0


From f2b11ffd1138144c0671d277a9d9049fff68f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 10/13] fix: copyFromAccessor ignored normalized when
 converting

---
 include/fastgltf/tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 1435be9..fa980a5 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -847,7 +847,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
 			*pDest = internal::getAccessorElementAt<ElementType>(
-                    accessor.componentType, &srcBytes[srcStride * i]);
+                    accessor.componentType, &srcBytes[srcStride * i], accessor.normalized);
 		}
 	}
 }
-- 
2.43.0


From 8a0fb13b0f10ddd391de3d37cb3072878237dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 11/13] fix: accessors without a buffer view gave identity
 elements or partially written copies instead of zeros

---
 include/fastgltf/tools.hpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index fa980a5..af3b093 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -28,6 +28,7 @@
 #define FASTGLTF_TOOLS_HPP
 
 #if !defined(FASTGLTF_USE_STD_MODULE) || !FASTGLTF_USE_STD_MODULE
+#include <array>
 #include <cstring>
 #include <iterator>
 #endif
@@ -437,6 +438,13 @@ inline bool findSparseIndex(ComponentType componentType, const std::byte* bytes,
 	return false;
 }
 
+// Returns the element whose components are all zero, which is not necessarily a default constructed element.
+template <typename ElementType>
+ElementType getZeroElement(ComponentType componentType) {
+	constexpr std::array<std::byte, 16 * sizeof(double)> zeros {};
+	return getAccessorElementAt<ElementType>(componentType, zeros.data());
+}
+
 } // namespace internal
 
 FASTGLTF_EXPORT struct DefaultBufferDataAdapter {
@@ -650,11 +658,7 @@ ElementType getAccessorElement(const Asset& asset, const Accessor& accessor, siz
 	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
-		if constexpr (std::is_aggregate_v<ElementType>) {
-			return ElementType{};
-		} else {
-			return ElementType();
-		}
+		return internal::getZeroElement<ElementType>(accessor.componentType);
 	}
 
 	const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -735,7 +739,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 
 				std::invoke(func, element);
 			} else {
-				std::invoke(func, ElementType {});
+				std::invoke(func, internal::getZeroElement<ElementType>(accessor.componentType));
 			}
 		}
 
@@ -747,7 +751,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
-			std::invoke(func, ElementType {});
+			std::invoke(func, internal::getZeroElement<ElementType>(accessor.componentType));
 		}
 	} else {
 		auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -807,22 +811,17 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		if constexpr (std::is_trivially_copyable_v<ElementType>) {
-			if (TargetStride == elemSize) {
-				std::memset(dest, 0, elemSize * accessor.count);
+			if (TargetStride == sizeof(ElementType)) {
+				std::memset(dest, 0, sizeof(ElementType) * accessor.count);
 			} else {
 				for (std::size_t i = 0; i < accessor.count; ++i) {
-					std::memset(dstBytes + i * TargetStride, 0, elemSize);
+					std::memset(dstBytes + i * TargetStride, 0, sizeof(ElementType));
 				}
 			}
 		} else {
 			for (std::size_t i = 0; i < accessor.count; ++i) {
 				auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
-
-				if constexpr (std::is_aggregate_v<ElementType>) {
-					*pDest = ElementType {};
-				} else {
-					*pDest = ElementType();
-				}
+				*pDest = internal::getZeroElement<ElementType>(accessor.componentType);
 			}
 		}
 
-- 
2.43.0


From 877052561d14d734564739dd439b0653fe92fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 12/13] fix: accessor iterators lost sparse elements when not
 dereferenced exactly once and required a buffer view

---
 include/fastgltf/tools.hpp | 53 +++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index af3b093..aa7c156 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -483,8 +483,8 @@ class AccessorIterator {
 protected:
 	const IterableAccessor<ElementType, BufferDataAdapter>* accessor = nullptr;
 	std::size_t idx = std::numeric_limits<std::size_t>::max();
-	mutable std::size_t sparseIdx = 0;
-	mutable std::size_t nextSparseIndex = 0;
+	std::size_t sparseIdx = 0;
+	std::size_t nextSparseIndex = 0;
 
 public:
 	using value_type = ElementType;
@@ -500,7 +500,7 @@ public:
 
 	AccessorIterator(const IterableAccessor<ElementType, BufferDataAdapter>* accessor, std::size_t idx = 0)
 			: accessor(accessor), idx(idx) {
-		if (accessor->accessor.sparse.has_value()) {
+		if (accessor->sparseCount > 0) {
 			// Get the first sparse index.
 			nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
 			                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
@@ -508,6 +508,14 @@ public:
 	}
 
 	AccessorIterator& operator++() noexcept {
+		if (sparseIdx < accessor->sparseCount && idx == nextSparseIndex) {
+			// Find the next sparse index.
+			++sparseIdx;
+			if (sparseIdx < accessor->sparseCount) {
+				nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
+				                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
+			}
+		}
 		++idx;
 		return *this;
 	}
@@ -536,21 +544,18 @@ public:
 	}
 
 	[[nodiscard]] ElementType operator*() const noexcept {
-		if (accessor->accessor.sparse.has_value()) {
-			if (idx == nextSparseIndex) {
-				// Get the sparse value for this index
-				auto value = internal::getAccessorElementAt<ElementType>(accessor->componentType,
-																		 &accessor->valuesBytes[accessor->valueStride * sparseIdx],
-																		 accessor->accessor.normalized);
-
-				// Find the next sparse index.
-				++sparseIdx;
-				if (sparseIdx < accessor->sparseCount) {
-					nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
-					                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
-				}
-				return value;
-			}
+		if (sparseIdx < accessor->sparseCount && idx == nextSparseIndex) {
+			// Get the sparse value for this index
+			return internal::getAccessorElementAt<ElementType>(accessor->componentType,
+			                                                   &accessor->valuesBytes[accessor->valueStride * sparseIdx],
+			                                                   accessor->accessor.normalized);
+		}
+
+		// 5.1.1. accessor.bufferView
+		// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
+		// property or extensions MAY override zeros with actual values.
+		if (!accessor->accessor.bufferViewIndex) {
+			return internal::getZeroElement<ElementType>(accessor->componentType);
 		}
 
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
@@ -571,7 +576,7 @@ class IterableAccessor {
 	const Accessor& accessor;
 
 	span<const std::byte> bufferBytes;
-	std::size_t stride;
+	std::size_t stride = 0;
 	fastgltf::ComponentType componentType;
 
 	// Data needed for sparse accessors
@@ -580,7 +585,7 @@ class IterableAccessor {
 	span<const std::byte> valuesBytes;
 	std::size_t indexStride;
 	std::size_t valueStride;
-	std::size_t sparseCount;
+	std::size_t sparseCount = 0;
 
 public:
 	using iterator = AccessorIterator<ElementType, BufferDataAdapter>;
@@ -589,10 +594,12 @@ public:
 		assert(accessor.type == ElementTraits<ElementType>::type && "The destination type needs to have the same AccessorType as the accessor.");
 		componentType = accessor.componentType;
 
-		const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
-		stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
+		if (accessor.bufferViewIndex) {
+			const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
+			stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
 
-		bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+			bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+		}
 
 		if (accessor.sparse.has_value()) {
 			indicesBytes = adapter(asset, accessor.sparse->indicesBufferView).subspan(accessor.sparse->indicesByteOffset);
-- 
2.43.0


From 58f779cc974150bef83e0d4b836ee8688d7758c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 13/13] fix: copyComponentsFromAccessor placed converted
 elements at the stride of the source and required a buffer view

---
 include/fastgltf/tools.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index aa7c156..7cdf5ae 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -875,6 +875,13 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	auto elemSize = getElementByteSize(accessor.type, accessor.componentType);
 	auto componentCount = getNumComponents(accessor.type);
 
+	// 5.1.1. accessor.bufferView
+	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros
+	if (!accessor.bufferViewIndex) {
+		std::memset(dest, 0, sizeof(ComponentType) * componentCount * accessor.count);
+		return;
+	}
+
 	auto& view = asset.bufferViews[*accessor.bufferViewIndex];
 	auto srcStride = view.byteStride.value_or(elemSize);
 
@@ -891,7 +898,7 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	} else {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			for (std::size_t j = 0; j < componentCount; ++j) {
-				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes + elemSize * i) + j;
+				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes) + componentCount * i + j;
 				*pDest = internal::getAccessorComponentAt<ComponentType>(
 					accessor.componentType, accessor.type, &srcBytes[i * srcStride], j, accessor.normalized);
 			}
-- 
2.43.0

