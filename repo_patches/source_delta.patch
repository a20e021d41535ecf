From 4ade0454e7a51d25f0f7059161304206eab72dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 01/46] fix: int3(int2, int32) takes z from its second argument

---
 include/math/vector/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/vector/int.hpp b/include/math/vector/int.hpp
index 5f60ace..415e5ce 100644
--- a/include/math/vector/int.hpp
+++ b/include/math/vector/int.hpp
@@ -193,7 +193,7 @@ struct [[nodiscard]] int3
 	 * @param xy first and second vector components value
 	 * @param z third vector component value
 	 */
-	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(x) { }
+	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(z) { }
 	/**
 	 * @brief Creates a new signed integer 3 component vector structure.
 	 *
-- 
2.43.0


From 4ff47a5f4bf082be9baa617254bd91d63b604849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 02/46] fix: u32x4 ordering operators compare lanes as unsigned
 on SSE

---
 include/math/simd/vector/uint.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 9468203..2223d7c 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -555,7 +555,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmplt_epi32(data, v.data);
+		auto sign = _mm_set1_epi32(INT32_MIN); // SSE2 compares as signed integers
+		return _mm_cmplt_epi32(_mm_xor_si128(data, sign), _mm_xor_si128(v.data, sign));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcltq_u32(data, v.data);
 		#else
@@ -565,7 +566,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmpgt_epi32(data, v.data);
+		auto sign = _mm_set1_epi32(INT32_MIN);
+		return _mm_cmpgt_epi32(_mm_xor_si128(data, sign), _mm_xor_si128(v.data, sign));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgtq_u32(data, v.data);
 		#else
@@ -575,7 +577,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmplt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		return _mm_or_si128((*this < v).data, _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcleq_u32(data, v.data);
 		#else
@@ -585,7 +587,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmpgt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		return _mm_or_si128((*this > v).data, _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgeq_u32(data, v.data);
 		#else
-- 
2.43.0


From 63f7fca00d181d324105d47ed9603ea7055f6bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 03/46] fix: u32x4 min/max compare lanes as unsigned on SSE4.1

---
 include/math/simd/vector/uint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 2223d7c..71061c2 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -797,7 +797,7 @@ static u32x4 select(u32x4 c, u32x4 t, u32x4 f) noexcept
 static u32x4 min(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_min_epi32(a.data, b.data);
+	return _mm_min_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminq_u32(a.data, b.data);
 	#else
@@ -813,7 +813,7 @@ static u32x4 min(u32x4 a, u32x4 b) noexcept
 static u32x4 max(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_max_epi32(a.data, b.data);
+	return _mm_max_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxq_u32(a.data, b.data);
 	#else
-- 
2.43.0


From f39b5b61b02e0f3749c022d8bee29491b98d72b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 04/46] fix: f32x4 <-> u32x4 conversions keep values above
 INT32_MAX on SSE

---
 include/math/simd/vector/float.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index ec18d7f..aebd8ba 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -147,7 +147,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit f32x4(u32x4 v)
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		data = _mm_cvtepi32_ps(v.data);
+		auto high = _mm_cvtepi32_ps(_mm_srli_epi32(v.data, 16)); // SSE2 converts signed integers only
+		auto low = _mm_cvtepi32_ps(_mm_and_si128(v.data, _mm_set1_epi32(0xFFFF)));
+		data = _mm_add_ps(_mm_mul_ps(high, _mm_set1_ps(65536.0f)), low);
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
@@ -393,7 +395,10 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit operator u32x4() const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cvttps_epi32(data);
+		auto offset = _mm_set1_ps(2147483648.0f); // SSE2 converts to signed integers only
+		auto isBig = _mm_cmpge_ps(data, offset);
+		auto value = _mm_cvttps_epi32(_mm_sub_ps(data, _mm_and_ps(isBig, offset)));
+		return _mm_xor_si128(value, _mm_slli_epi32(_mm_castps_si128(isBig), 31));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_u32_f32(data);
 		#else
-- 
2.43.0


From f28664410796dc14a24b05ac64983e02d7bebb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 05/46] fix: equal/notEqual of float2 take two float2 vectors

---
 include/math/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/vector/float.hpp b/include/math/vector/float.hpp
index 413ca3d..cdec884 100644
--- a/include/math/vector/float.hpp
+++ b/include/math/vector/float.hpp
@@ -562,7 +562,7 @@ static string toString(float2 v) { return to_string(v.x) + " " + to_string(v.y);
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 equal(float2 a, float4 b) noexcept
+static uint2 equal(float2 a, float2 b) noexcept
 {
 	return uint2(a.x == b.x ? UINT32_MAX : 0, a.y == b.y ? UINT32_MAX : 0);
 }
@@ -572,7 +572,7 @@ static uint2 equal(float2 a, float4 b) noexcept
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 notEqual(float2 a, float4 b) noexcept
+static uint2 notEqual(float2 a, float2 b) noexcept
 {
 	return uint2(a.x != b.x ? UINT32_MAX : 0, a.y != b.y ? UINT32_MAX : 0);
 }
-- 
2.43.0


From e4b71e9799e92e6107b4f230cf398ffd2576b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 06/46] fix: inverse of float2x2 and float3x3 returns the
 actual inverse

---
 include/math/matrix/float.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 95a2233..e5ea1a4 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -647,8 +647,8 @@ static constexpr float4x4 transpose(float4x4 m) noexcept
 static constexpr float2x2 inverse(float2x2 m) noexcept
 {
 	auto oneOverDeterminant = 1.0f / (m.c0.x * m.c1.y - m.c1.x * m.c0.y);
-	return float2x2(m.c1.y * oneOverDeterminant, -m.c0.y * oneOverDeterminant,
-		-m.c1.x * oneOverDeterminant, m.c0.x * oneOverDeterminant);
+	return float2x2(m.c1.y * oneOverDeterminant, -m.c1.x * oneOverDeterminant,
+		-m.c0.y * oneOverDeterminant, m.c0.x * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
@@ -662,14 +662,14 @@ static constexpr float3x3 inverse(float3x3 m) noexcept
 		m.c2.x * (m.c0.y * m.c1.z - m.c1.y * m.c0.z));
 	return float3x3(
 		(m.c1.y * m.c2.z - m.c2.y * m.c1.z) * oneOverDeterminant,
-		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
-		(m.c0.y * m.c2.z - m.c1.y * m.c0.z) * oneOverDeterminant,
 		-(m.c1.x * m.c2.z - m.c2.x * m.c1.z) * oneOverDeterminant,
-		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
-		-(m.c0.x * m.c2.z - m.c1.x * m.c0.z) * oneOverDeterminant,
 		(m.c1.x * m.c2.y - m.c2.x * m.c1.y) * oneOverDeterminant,
+		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
 		-(m.c0.x * m.c2.y - m.c2.x * m.c0.y) * oneOverDeterminant,
-		(m.c0.x * m.c2.y - m.c1.x * m.c0.y) * oneOverDeterminant);
+		(m.c0.y * m.c1.z - m.c1.y * m.c0.z) * oneOverDeterminant,
+		-(m.c0.x * m.c1.z - m.c1.x * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c1.y - m.c1.x * m.c0.y) * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From 9b3d196acc527c0e27bede8d3b8f00cc7cfce18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 07/46] fix: vector * matrix multiplies the row vector by the
 matrix

---
 include/math/matrix/float.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index e5ea1a4..8fad1c2 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -575,8 +575,8 @@ static constexpr float2x2 operator/(float n, const float2x2& m) noexcept { retur
 static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 {
 	return float2(
-		m.c0.x * v.x + m.c1.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y);
+		m.c0.x * v.x + m.c0.y * v.y,
+		m.c1.x * v.x + m.c1.y * v.y);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -587,9 +587,9 @@ static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 {
 	return float3(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -600,10 +600,10 @@ static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 static constexpr float4 operator*(float4 v, const float4x4& m) noexcept
 {
 	return float4(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x + m.c3.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y + m.c3.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z + m.c3.z * v.z,
-		m.c0.w * v.w + m.c1.w * v.w + m.c2.w * v.w + m.c3.w * v.w);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z + m.c0.w * v.w,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z + m.c1.w * v.w,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z + m.c2.w * v.w,
+		m.c3.x * v.x + m.c3.y * v.y + m.c3.z * v.z + m.c3.w * v.w);
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From 7540ecd337db8444b656669f8ab958d7916b1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 08/46] fix: extractScale returns the column lengths instead of
 their squares

---
 include/math/matrix/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 6f51f71..ed00aa7 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -110,7 +110,7 @@ static f32x4x4 scale(f32x4 s, const f32x4x4& m) noexcept
  */
 static f32x4 extractScale(const f32x4x4& m) noexcept
 {
-	return f32x4(lengthSq3(m.c0), lengthSq3(m.c1), lengthSq3(m.c2));
+	return f32x4(length3(m.c0), length3(m.c1), length3(m.c2));
 }
 /**
  * @brief Extracts total SIMD matrix 2D scale transformation of an object in 3D space.
@@ -118,7 +118,7 @@ static f32x4 extractScale(const f32x4x4& m) noexcept
  */
 static float2 extractScale2(const f32x4x4& m) noexcept
 {
-	return float2(lengthSq3(m.c0), length3(m.c1));
+	return float2(length3(m.c0), length3(m.c1));
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From b50d48faffa923ee89d2d7e3a0b4f7411f0f7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 09/46] fix: lookAtQuat builds its second axis from the
 direction and the right vector

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index ed00aa7..664a1a4 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -307,7 +307,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
 {
 	auto right = cross3(up, direction);
 	auto c0 = right * (1.0f / std::sqrt(std::max(0.00001f, dot3(right, right))));
-	auto c1 = cross3(right, c0);
+	auto c1 = cross3(direction, c0);
 	auto m = f32x4x4(c0, c1, direction);
 	return extractQuat(m);
 }
-- 
2.43.0


From 7ea8b94a9345bd7e9fdc10b35dd26bac80192ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 10/46] fix: inverseTransRot keeps the last row of the rigid
 matrix inverse

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 664a1a4..78ca001 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -319,7 +319,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
  */
 static f32x4x4 inverseTransRot(const f32x4x4& m)
 {
-	auto t = transpose4x4(m);
+	auto t = transpose3x3(m);
 	setTranslation(t, -multiply3x3(t, getTranslation(m)));
 	return t;
 }
-- 
2.43.0


From 08d26493c005ac4f5c4a2250d1fd3b665a35500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 11/46] fix: quat::extractPitch takes the singular branch only
 when both atan2 arguments vanish

---
 include/math/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index e881444..d8cc435 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -112,7 +112,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 		auto xx = w * w - x * x - y * y + z * z;
 
 		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON || std::abs(yy) <= FLT_EPSILON)
+		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
 			return 2.0f * std::atan2(x, w);
 		return std::atan2(yy, xx);
 	}
-- 
2.43.0


From 2a7e0f89f0f90aec72cd111a0ce9a94417fce0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 12/46] fix: Aabb::trySet rejects an inverted box instead of
 storing it

The W lane of the test is 0 > 1, so the box was never rejected.
---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 11b56a4..748c794 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -107,7 +107,7 @@ public:
 	 */
 	bool trySet(f32x4 min, f32x4 max) noexcept
 	{
-		if (areAllTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
+		if (!areAllTrue(f32x4(min, 0.0f) <= f32x4(max, 1.0f)))
 			return false;
 		this->min = min; this->max = max;
 		return true;
-- 
2.43.0


From 221cebf0f51a6d02e6517b28651f8ba569dd3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 13/46] fix: isBinaryLess(Aabb) compares the whole box

Aabb holds two 16 byte vectors, 24 bytes skip the maximum Z component.
---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 748c794..ab73e51 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -274,7 +274,7 @@ inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
  * @param[in] a first AABB to binary compare
  * @param[in] b second AABB to binary compare
  */
-static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(&a, &b, sizeof(float3) * 2) < 0; }
+static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(&a, &b, sizeof(Aabb)) < 0; }
 
 /***********************************************************************************************************************
  * @brief Returns true if point is inside the AABB in 3D space.
-- 
2.43.0


From 2a984312399bd2be7d8e3bdb12b5b211f13441f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 14/46] fix: AABB isInside ignores the W lane

A box or point with an unrelated W value, for example a homogeneous
point, was reported to be outside.
---
 include/math/aabb.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index ab73e51..10ffb24 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -284,7 +284,8 @@ static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(
  */
 static bool isInside(const Aabb& aabb, f32x4 point) noexcept
 {
-	return areAllTrue(aabb.getMin() <= point & aabb.getMax() >= point);
+	return areAllTrue(f32x4(aabb.getMin(), 0.0f) <= f32x4(point, 0.0f) & 
+		f32x4(aabb.getMax(), 0.0f) >= f32x4(point, 0.0f));
 }
 /**
  * @brief Returns true if other AABB is inside this AABB in 3D space.
@@ -294,7 +295,8 @@ static bool isInside(const Aabb& aabb, f32x4 point) noexcept
  */
 static bool isInside(const Aabb& aabb, const Aabb& other) noexcept
 {
-	return areAllTrue(aabb.getMin() <= other.getMin() & aabb.getMax() >= other.getMax());
+	return areAllTrue(f32x4(aabb.getMin(), 0.0f) <= f32x4(other.getMin(), 0.0f) & 
+		f32x4(aabb.getMax(), 0.0f) >= f32x4(other.getMax(), 0.0f));
 }
 
 /**
-- 
2.43.0


From 0ad0536793b6a1833b2a00cd5b453f825739369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 15/46] fix: AABB isIntersected compares the maximum of the
 first box with the minimum of the second

---
 include/math/aabb.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 10ffb24..213977f 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -426,7 +426,8 @@ static bool raycastI(const Aabb& aabb, const Ray& ray) noexcept
  */
 static bool isIntersected(const Aabb& a, const Aabb& b) noexcept
 {
-	return areAllTrue(a.getMin() <= b.getMax() & a.getMin() >= b.getMax());
+	return areAllTrue(f32x4(a.getMin(), 0.0f) <= f32x4(b.getMax(), 0.0f) & 
+		f32x4(a.getMax(), 0.0f) >= f32x4(b.getMin(), 0.0f));
 }
 
 /**
-- 
2.43.0


From 27b24ba505c2fbe30d5164cbcbacb93c7a0ca1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 16/46] fix: AABB raycast inverts the ray direction without
 normalizing it

raycast1/2 passed the inverse direction through setDirection, which
normalized it (wrong distances, NaN for axis aligned rays) and computed
the parallel axes from the inverse. The Ray constructor left the
parallel axes unset.
---
 include/math/aabb.hpp | 4 ++--
 include/math/ray.hpp  | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 213977f..18c0831 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -346,7 +346,7 @@ static float2 raycast2I(Aabb aabb, Ray ray) noexcept
  */
 static float2 raycast2(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.inverse();
 	return raycast2I(aabb, ray);
 }
 
@@ -383,7 +383,7 @@ static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
  */
 static float raycast1(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.inverse();
 	return raycast1I(aabb, ray);
 }
 
diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index ef832bc..8f5b0e9 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -47,7 +47,8 @@ public:
 	 * @param normalize is direction vector should be normalized
 	 */
 	Ray(f32x4 origin, f32x4 direction, bool normalize = true) noexcept : 
-		direction(normalize ? normalize3(direction) : direction), origin(origin) { }
+		direction(normalize ? normalize3(direction) : direction), 
+		isParallel(abs(direction) <= f32x4(1.0e-20f)), origin(origin) { }
 	/**
 	 * @brief Creates a new empty ray structure.
 	 */
@@ -74,6 +75,10 @@ public:
 	 */
 	const u32x4& getParallel() const noexcept { return isParallel; }
 
+	/**
+	 * @brief Inverses ray direction vector, parallel axes are kept. (1.0 / direction)
+	 */
+	void inverse() noexcept { direction = f32x4::one / direction; }
 	/**
 	 * @brief Normalizes ray direction vector.
 	 */
-- 
2.43.0


From c6baf362c74d98b96b5938e0740be6a5383c3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 17/46] fix: Plane built from a triangle contains the triangle

The signed distance is dot(normal, point) + distance, so the distance
of a plane through p0 is -dot(normal, p0).
---
 include/math/plane.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/plane.hpp b/include/math/plane.hpp
index 174b988..0204986 100644
--- a/include/math/plane.hpp
+++ b/include/math/plane.hpp
@@ -64,7 +64,7 @@ public:
 		auto normal = cross3(triangle.p1 - triangle.p0, triangle.p2 - triangle.p0);
 		if (length3(normal) > 0.0f)
 			normal = normalize3(normal);
-		auto distance = dot3(normal, triangle.p0);
+		auto distance = -dot3(normal, triangle.p0);
 		normDist = f32x4(normal, distance);
 	}
 
-- 
2.43.0


From 5265f9626dd2a3660276bba209fdc1ef93046698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 18/46] fix: triangle isInside rejects points on the extension
 of the p1-p2 edge

u is zero there, so both of its products are zero as well.
---
 include/math/triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/triangle.hpp b/include/math/triangle.hpp
index cb81804..d5e1fc6 100644
--- a/include/math/triangle.hpp
+++ b/include/math/triangle.hpp
@@ -74,7 +74,7 @@ static bool isInside(const Triangle& triangle, f32x4 point) noexcept
 {
 	auto p0 = triangle.p0 - point, p1 = triangle.p1 - point, p2 = triangle.p2 - point;
 	auto u = cross3(p1, p2), v = cross3(p2, p0), w = cross3(p0, p1);
-	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f)
+	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f || dot3(v, w) < 0.0f)
 		return false;
 	return true;
 }
-- 
2.43.0


From d833083c75fcf26e5823ceff849658074b4aee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 19/46] fix: Aabb::full spans the whole float range

f32x4::min is the smallest positive value, not the lowest one.
---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 18c0831..df925d1 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -265,7 +265,7 @@ inline const Aabb Aabb::zero = Aabb(f32x4::zero, f32x4::zero);
 inline const Aabb Aabb::one = Aabb(f32x4(-0.5f), f32x4(0.5f));
 inline const Aabb Aabb::two = Aabb(f32x4::minusOne, f32x4::one);
 inline const Aabb Aabb::half = Aabb(f32x4(-0.25f), f32x4(0.25f));
-inline const Aabb Aabb::full = Aabb(f32x4::min, f32x4::max);
+inline const Aabb Aabb::full = Aabb(f32x4::minusMax, f32x4::max);
 inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
 
 /**
-- 
2.43.0


From 056f651381fe42938ca48825bc138999d701d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 20/46] fix: RGB <-> XYZ matrices are written row by row like
 the constructor reads them

---
 include/math/color-space.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/math/color-space.hpp b/include/math/color-space.hpp
index 3086789..b8e57f7 100644
--- a/include/math/color-space.hpp
+++ b/include/math/color-space.hpp
@@ -58,9 +58,9 @@ static f32x4 rgbToXyz(f32x4 rgb) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		0.4124564f, 0.2126729f, 0.0193339f, 0.0f,
-		0.3575761f, 0.7151522f, 0.1191920f, 0.0f,
-		0.1804375f, 0.0721750f, 0.9503041f, 0.0f,
+		0.4124564f, 0.3575761f, 0.1804375f, 0.0f,
+		0.2126729f, 0.7151522f, 0.0721750f, 0.0f,
+		0.0193339f, 0.1191920f, 0.9503041f, 0.0f,
 		0.0f      , 0.0f      , 0.0f      , 0.0f
 	);
 	return multiply3x3(m, rgb);
@@ -73,9 +73,9 @@ static f32x4 xyzToRgb(f32x4 xyz) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		 3.2404542f, -0.9692660f,  0.0556434f, 0.0f,
-		-1.5371385f,  1.8760108f, -0.2040259f, 0.0f,
-		-0.4985314f,  0.0415560f,  1.0572252f, 0.0f,
+		 3.2404542f, -1.5371385f, -0.4985314f, 0.0f,
+		-0.9692660f,  1.8760108f,  0.0415560f, 0.0f,
+		 0.0556434f, -0.2040259f,  1.0572252f, 0.0f,
 		 0.0f      ,  0.0f      ,  0.0f      , 0.0f
 	);
 	return multiply3x3(m, xyz);
-- 
2.43.0


From 70aaaa3b250abeb7fec0e93d440ab36e251c2b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 21/46] fix: Color normalized channel setters round like the
 constructors

---
 include/math/color.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index 1ce9c58..cec9084 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -147,19 +147,19 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Sets sRGB color normalizer R channel. (Red)
 	 */
-	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormR(float r) noexcept { this->r = (uint8)(std::clamp(r, 0.0f, 1.0f) * 255.0f + 0.5f); }
 	/**
 	 * @brief Sets sRGB color normalizer G channel. (Green)
 	 */
-	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormG(float g) noexcept { this->g = (uint8)(std::clamp(g, 0.0f, 1.0f) * 255.0f + 0.5f); }
 	/**
 	 * @brief Sets sRGB color normalizer B channel. (Blue)
 	 */
-	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormB(float b) noexcept { this->b = (uint8)(std::clamp(b, 0.0f, 1.0f) * 255.0f + 0.5f); }
 	/**
 	 * @brief Sets sRGB color normalizer A channel. (Alpha)
 	 */
-	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormA(float a) noexcept { this->a = (uint8)(std::clamp(a, 0.0f, 1.0f) * 255.0f + 0.5f); }
 
 	/*******************************************************************************************************************
 	 * @brief Converts sRGB color to the string. (Space separated)
-- 
2.43.0


From 5a458c015e91346620e4e3e63c7fa68acdc73fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 22/46] fix: SIMD log converts the exponent as a signed integer

The exponent is negative for arguments below 0.75, the unsigned
conversion turned it into about 2^32.
---
 include/math/simd/vector/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index aebd8ba..f276371 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1213,7 +1213,7 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)e);
+		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
 		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
 		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
-- 
2.43.0


From 5ecb3881dc528fc8966c79886b392e394d3ca6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 23/46] fix: SIMD log does not repeat a polynomial coefficient

The series of the logarithm had the third coefficient twice, which
shifted all following terms by one power of x^2.
---
 include/math/simd/vector/float.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index f276371..c9d4796 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1209,7 +1209,6 @@ static f32x4 log(f32x4 v) noexcept
 		auto t = f32x4(0.2392828464508056640625f);
 		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.400005877017974853515625f));
-		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-- 
2.43.0


From 77eb67a78bb953c856824628f5f367ea04e77fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 24/46] fix: SIMD log of infinity is infinity and of NaN is NaN

Comparing with NaN is never true.
---
 include/math/simd/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index c9d4796..59ca141 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1213,8 +1213,8 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(2.0f));
 
 		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
-		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
-		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
+		x = select(equal(v, f32x4::inf), f32x4::inf, x);
+		x = select((v < f32x4::zero) | notEqual(v, v), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
 		return x;
 	}
-- 
2.43.0


From 67d8e9875aea70ddc3a66384bc795410a29e4b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 25/46] fix: spherical harmonics band 1 rotation projects the
 axes to matrix columns

The scalar constructor of float3x3 takes the elements row by row, both
matrices were transposed and the result was not the rotated band.
---
 include/math/sh.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 1e5a41b..be3b63d 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -140,9 +140,11 @@ static void multiply(const float m[25], const float v[5], float r[5]) noexcept
 //**********************************************************************************************************************
 static float3 rotateSphericalHarmonicBand1(float3 band1, const float3x3& m) noexcept
 {
-	constexpr auto invA1TimesK = float3x3(0.0f, -1.0f, 0.0f, 0.0f, 0.0f, 1.0f, -1.0f, 0.0f, 0.0f);
+	constexpr auto invA1TimesK = float3x3(float3(0.0f, -1.0f, 0.0f), 
+		float3(0.0f, 0.0f, 1.0f), float3(-1.0f, 0.0f, 0.0f));
     auto mn0 = m[0], mn1 = m[1], mn2 = m[2];
-	auto r1OverK = float3x3(-mn0.y, mn0.z, -mn0.x, -mn1.y, mn1.z, -mn1.x, -mn2.y, mn2.z, -mn2.x);
+	auto r1OverK = float3x3(float3(-mn0.y, mn0.z, -mn0.x), 
+		float3(-mn1.y, mn1.z, -mn1.x), float3(-mn2.y, mn2.z, -mn2.x));
 	return r1OverK * (invA1TimesK * band1);
 }
 static void rotateSphericalHarmonicBand2(const float band2[5], const float3x3& m, float r[5]) noexcept
-- 
2.43.0


From f21b90e6be4cda57cc136cdb560e0c0d93bc365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 26/46] fix: deringing tests every cut-off on the original
 coefficients

The window was applied to the coefficients already windowed and rotated
by the previous step, and the cut-off was limited before the search ended.
---
 include/math/sh.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index be3b63d..ca9469d 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -277,22 +277,22 @@ static void deringingSH(f32x4 sh[shCoeffCount]) noexcept
 
 	for (uint32 channel = 0; channel < 3; channel++)
 	{
-		for (uint32 i = 0; i < shCoeffCount; i++)
-			shw[i] = sh[i][channel];
-
 		float l = shBandCount;
 		float r = cutoff;
 
 		for (uint32 i = 0; i < 16 && l + 0.1f < r; i++)
 		{
+			for (uint32 j = 0; j < shCoeffCount; j++)
+				shw[j] = sh[j][channel];
+
 			float m = 0.5f * (l + r);
 			windowing(shw, m);
 			if (shmin(shw) < 0.0f)
 				r = m;
 			else
 				l = m;
-			cutoff = std::min(cutoff, l);
 		}
+		cutoff = std::min(cutoff, l);
 	}
 
 	for (int32 l = 0; l < shBandCount; l++)
-- 
2.43.0


From 9809070b2c54ba7368862179cfcbee243cc19197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 27/46] fix: PackedVector::set compiles

It was declared to return a value but returned the result of a void function.
---
 include/math/packed-vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 335ecd5..09eda86 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -85,7 +85,7 @@ public:
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
-	uint8 set(psize i, uint8 value) noexcept
+	void set(psize i, uint8 value) noexcept
 	{
 		if constexpr (Bits == 1)
 			assert(i / 8 < size());
@@ -93,7 +93,7 @@ public:
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
 			assert(i / 8 < size());
-		return unsafeSet(i, value);
+		unsafeSet(i, value);
 	}
 
 	void resize(psize elementCount)
-- 
2.43.0


From 41415ae1ad8e8804337624528134cee529e35d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 28/46] fix: PackedVector of 4 bit elements checks the index
 against two elements per byte

---
 include/math/packed-vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 09eda86..3372e2c 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -63,7 +63,7 @@ public:
 		else if constexpr (Bits == 2)
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
-			assert(i / 8 < size());
+			assert(i / 2 < size());
 		return unsafeGet(i);
 	}
 
@@ -92,7 +92,7 @@ public:
 		else if constexpr (Bits == 2)
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
-			assert(i / 8 < size());
+			assert(i / 2 < size());
 		unsafeSet(i, value);
 	}
 
-- 
2.43.0


From a698a90d78c2459a56e1e56481219622dcfe474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 29/46] fix: PackedVector reads and writes its own storage
 after a copy

The cached pointer was copied together with the vector and kept pointing
to the elements of the other vector, even after it was destroyed.
---
 include/math/packed-vector.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 3372e2c..f3958e5 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -27,8 +27,6 @@ namespace math
 template<int Bits = 1>
 class PackedVector final : public std::vector<uint8>
 {
-private:
-	uint8* ptr = nullptr;
 public:
 	PackedVector()
 	{
@@ -44,15 +42,15 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			return (ptr[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
+			return (data()[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
 		}
 		else if constexpr (Bits == 2)
 		{
-			return (ptr[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
+			return (data()[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
 		}
 		else if constexpr (Bits == 4)
 		{
-			return (ptr[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
+			return (data()[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
 		}
 		abort();
 	}
@@ -71,17 +69,17 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			auto& byte = ptr[i / 8]; auto shift = (uint8)(i % 8);
+			auto& byte = data()[i / 8]; auto shift = (uint8)(i % 8);
 			byte = (byte & ~((uint8)0x01 << shift)) | ((value & (uint8)0x01) << shift);
 		}
 		else if constexpr (Bits == 2)
 		{
-			auto& byte = ptr[i / 4]; auto shift = (uint8)((i % 4) * 2);
+			auto& byte = data()[i / 4]; auto shift = (uint8)((i % 4) * 2);
 			byte = (byte & ~((uint8)0x03 << shift)) | ((value & (uint8)0x03) << shift);
 		}
 		else if constexpr (Bits == 4)
 		{
-			auto& byte = ptr[i / 2]; auto shift = (uint8)((i % 2) * 4);
+			auto& byte = data()[i / 2]; auto shift = (uint8)((i % 2) * 4);
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
@@ -104,7 +102,6 @@ public:
 			std::vector<uint8>::resize(elementCount / 4 + (elementCount % 4 != 0 ? 1 : 0));
 		else if constexpr (Bits == 4)
 			std::vector<uint8>::resize(elementCount / 2 + (elementCount % 2 != 0 ? 1 : 0));
-		ptr = data();
 	}
 };
 
-- 
2.43.0


From 627d5899f866990edf5cf0891eab5bbcb42b83fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 30/46] fix: PackedVector rejects unsupported bit sizes in
 every constructor

---
 include/math/packed-vector.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index f3958e5..94f02eb 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -27,12 +27,10 @@ namespace math
 template<int Bits = 1>
 class PackedVector final : public std::vector<uint8>
 {
+	static_assert(Bits > 0, "Should be at least 1 bit.");
+	static_assert(Bits == 1 || Bits == 2 || Bits == 4, "Partial support of packing."); // TODO: pack odd bit sizes.
 public:
-	PackedVector()
-	{
-		static_assert(Bits > 0, "Should be at least 1 bit.");
-		static_assert(Bits == 1 || Bits == 2 || Bits == 4, "Partial support of packing."); // TODO: pack odd bit sizes.
-	}
+	PackedVector() { }
 	PackedVector(psize elementCount)
 	{
 		resize(elementCount);
-- 
2.43.0


From ab5a5b52abeef843d3c9bebe330efccfe14e060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 31/46] fix: toHex pads numbers shorter than the requested
 length with zeros

Shifting by the size of the type or more is undefined and repeated the
low digits on x86.
---
 include/math/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/hex.hpp b/include/math/hex.hpp
index 807e764..d623791 100644
--- a/include/math/hex.hpp
+++ b/include/math/hex.hpp
@@ -34,7 +34,7 @@ static string toHex(T value, psize length = sizeof(T) << 1) noexcept
 	constexpr const char* digits = "0123456789ABCDEF";
 	string hex(length, '0');
 	for (psize i = 0, j = (length - 1) * 4; i < length; i++, j -= 4)
-		hex[i] = digits[(value >> j) & 0x0f];
+		hex[i] = j < sizeof(T) * 8 ? digits[(value >> j) & 0x0f] : '0';
 	return hex;
 }
 
-- 
2.43.0


From d5aeec443a971da794ba2f2a8da1470245acb142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 32/46] fix: mip count of sizes just below a power of two

The single precision logarithm of 2^k - 1 rounds up to k from 2^21 on.
---
 include/math/simd/vector/uint.hpp | 2 +-
 include/math/vector/uint.hpp      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 71061c2..005e1c5 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -899,7 +899,7 @@ static u32x4 clamp(u32x4 v, u32x4 min, u32x4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount3(u32x4 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)max3(size)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)max3(size)))) + 1u;
 }
 static u32x4 calcSizeAtMip3(u32x4 sizeAt0, uint8 mip) noexcept
 {
diff --git a/include/math/vector/uint.hpp b/include/math/vector/uint.hpp
index cba2dbf..a07773a 100644
--- a/include/math/vector/uint.hpp
+++ b/include/math/vector/uint.hpp
@@ -903,15 +903,15 @@ static constexpr uint4 clamp(uint4 v, uint4 min, uint4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount(uint32 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)size))) + 1u;
+	return (uint8)(std::floor(std::log2((double)size))) + 1u;
 }
 static uint8 calcMipCount(uint2 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(size.x, size.y)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)std::max(size.x, size.y)))) + 1u;
 }
 static uint8 calcMipCount(uint3 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(std::max(size.x, size.y), size.z)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)std::max(std::max(size.x, size.y), size.z)))) + 1u;
 }
 
 static uint32 calcSizeAtMip(uint32 sizeAt0, uint8 mip) noexcept
-- 
2.43.0


From 5653cb14690fc30e53d8cb59779b0d2b0ab356dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 33/46] fix: BVH partition ran out of the primitive array when
 no centroid is below the split

---
 source/bvh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 9b8a83c..44788a8 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -326,13 +326,13 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = i + primitiveCount;
+		while (i < j)
 		{
 			if (centroidData[primitives[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitives[i], primitives[j--]);
+				std::swap(primitives[i], primitives[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
@@ -459,13 +459,13 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = i + primitiveCount;
+		while (i < j)
 		{
 			if (centroidData[primitiveData[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitiveData[i], primitiveData[j--]);
+				std::swap(primitiveData[i], primitiveData[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
-- 
2.43.0


From 52fd01f1ef237a604bbe6410eb8b789b7ef900e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 34/46] fix: BVH bin index was out of range for a very small
 centroid range

---
 source/bvh.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 44788a8..6df2651 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -72,6 +72,11 @@ namespace math
 	};
 }
 
+static int32 calcBinIndex(float value, float boundsMin, float scale) noexcept
+{
+	auto index = (value - boundsMin) * scale;
+	return index < BIN_COUNT - 1 ? (int32)index : BIN_COUNT - 1; // Note: infinity and NaN go to the last bin.
+}
 static float calcArea(f32x4 min, f32x4 max) // Faster than native Aabb calcArea.
 {
 	auto extent = max - min;
@@ -114,9 +119,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto v1 = f32x4(*(const float3*)(vertices + i1 * vertexSize));
 			auto v2 = f32x4(*(const float3*)(vertices + i2 * vertexSize));
 
-			auto binIndex = std::min((int32)(BIN_COUNT - 1), (int32)((
-				centroids[index][a] - boundsMin) * scale));
-			auto& bin = bins[binIndex];
+			auto& bin = bins[calcBinIndex(centroids[index][a], boundsMin, scale)];
 			bin.min = min(min(min(bin.min, v0), v1), v2);
 			bin.max = max(max(max(bin.max, v0), v1), v2);
 			bin.primitiveCount()++;
@@ -188,9 +191,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 		{
 			auto index = primitives[i];
 			auto aabb = aabbs[index];
-			auto binIndex = std::min((int32)(BIN_COUNT - 1), (int32)((
-				centroids[index][a] - boundsMin) * scale));
-			auto& bin = bins[binIndex];
+			auto& bin = bins[calcBinIndex(centroids[index][a], boundsMin, scale)];
 			bin.min = min(bin.min, aabb.getMin());
 			bin.max = max(bin.max, aabb.getMax());
 			bin.primitiveCount()++;
-- 
2.43.0


From d82ee726f7348e36d9d6f6e7f5dedbb69b36e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 35/46] fix: BVH bin primitive counts were overwritten by the
 bounds

---
 source/bvh.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 6df2651..b700825 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -67,8 +67,7 @@ namespace math
 	{
 		f32x4 min = f32x4::max;
 		f32x4 max = f32x4::minusMax;
-
-		int32& primitiveCount() noexcept { return max.ints.w; }
+		int32 primitiveCount = 0;
 	};
 }
 
@@ -122,7 +121,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto& bin = bins[calcBinIndex(centroids[index][a], boundsMin, scale)];
 			bin.min = min(min(min(bin.min, v0), v1), v2);
 			bin.max = max(max(max(bin.max, v0), v1), v2);
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		float leftArea[BIN_COUNT - 1], rightArea[BIN_COUNT - 1];
@@ -133,12 +132,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
@@ -194,7 +193,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 			auto& bin = bins[calcBinIndex(centroids[index][a], boundsMin, scale)];
 			bin.min = min(bin.min, aabb.getMin());
 			bin.max = max(bin.max, aabb.getMax());
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		// TODO: share this function part with a previous one?
@@ -206,12 +205,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
-- 
2.43.0


From 4e778d2a54385de8fac8e117e2c3b349157f1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 36/46] fix: Color does not access its bytes as an aligned 32
 bit integer

A color is aligned to one byte, reading it through an uint32 pointer is
undefined and also prevented the constexpr functions from being constant.
---
 include/math/color.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index cec9084..3a475e6 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -53,7 +53,8 @@ struct [[nodiscard]] Color
 	 * @brief Creates a new sRGB color structure from the binary data.
 	 * @param data target binary color data
 	 */
-	constexpr explicit Color(uint32 data) { *(uint32*)this = data; }
+	constexpr explicit Color(uint32 data) : r((uint8)data), g((uint8)(data >> 8u)), 
+		b((uint8)(data >> 16u)), a((uint8)(data >> 24u)) { }
 	/**
 	 * @brief Creates a new sRGB color structure from the hexadecimal string.
 	 * @param[in] hex target hexadecimal color string
@@ -125,7 +126,10 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Returns color binary data.
 	 */
-	constexpr explicit operator uint32() const noexcept { return *(const uint32*)this; }
+	constexpr explicit operator uint32() const noexcept
+	{
+		return (uint32)r | ((uint32)g << 8u) | ((uint32)b << 16u) | ((uint32)a << 24u);
+	}
 
 	/*******************************************************************************************************************
 	 * @brief Returns sRGB color normalizer R channel. (Red)
@@ -254,7 +258,7 @@ static constexpr bool operator>=(uint8 n, Color c) noexcept { return Color(n) >=
  * @param a first color to binary compare
  * @param b second color to binary compare
  */
-static bool isBinaryLess(Color a, Color b) noexcept { return  *((const uint32*)&a) < *((const uint32*)&b); }
+static bool isBinaryLess(Color a, Color b) noexcept { return (uint32)a < (uint32)b; }
 
 // TODO: color conversion functions.
 
-- 
2.43.0


From cdc592b1446bce680bfa6f1634a5187e51dd5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 37/46] fix: f32x4x4 of a float4x4 does not require a 16 byte
 aligned matrix

float4x4 is aligned to 4 bytes, the aligned loads of its columns fault
for a matrix at another address.
---
 include/math/simd/matrix/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index c93990a..eb77f86 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -77,7 +77,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * @param[in] m target 4x4 matrix value
 	 */
-	explicit f32x4x4(const float4x4& m) noexcept { *this = *((const f32x4x4*)&m); }
+	explicit f32x4x4(const float4x4& m) noexcept : c0(m.c0), c1(m.c1), c2(m.c2), c3(m.c3) { }
 	/**
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * 
-- 
2.43.0


From 77447a8cc7a83189600b44662af90497840f5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 38/46] fix: float4x3 element access accepts its fourth column

The debug assertion stopped on index 3 of a matrix with four columns.
---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 8fad1c2..143124a 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -306,7 +306,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3& operator[](psize i) noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 	/**
@@ -315,7 +315,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3 operator[](psize i) const noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 
-- 
2.43.0


From d679be26a6a757e1118b62b45ad3b1bbe53e0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 39/46] fix: SIMD integer vector headers include the vector
 types they convert from

Included on their own they did not compile.
---
 include/math/simd/vector/uint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 005e1c5..b14ae29 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -19,7 +19,7 @@
 
 #pragma once
 #include "math/simd/types.hpp"
-#include "math/vector/uint.hpp"
+#include "math/vector/float.hpp"
 
 namespace math
 {
-- 
2.43.0


From 5ff3668e4a8337c28f07d0b3084c87498967bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 40/46] fix: packed vector header includes the declaration of
 abort

---
 include/math/packed-vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 94f02eb..dd7d7d3 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -19,6 +19,7 @@
 
 #pragma once
 #include "math/types.hpp"
+#include <cstdlib>
 #include <vector>
 
 namespace math
-- 
2.43.0


From 2079544de9e5c3be0a1875c692865f79eb817d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 41/46] fix: hexadecimal parsing functions are not noexcept,
 malformed text throws

---
 include/math/hex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/hex.hpp b/include/math/hex.hpp
index d623791..7512bae 100644
--- a/include/math/hex.hpp
+++ b/include/math/hex.hpp
@@ -42,11 +42,11 @@ static string toHex(T value, psize length = sizeof(T) << 1) noexcept
  * @brief Converts hexadecimal string to the 32bit integer value.
  * @param[in] hex target hexadecimal string
  */
-static uint32 toInt32(const string& hex) noexcept { return std::stoul(hex, nullptr, 16); }
+static uint32 toInt32(const string& hex) { return std::stoul(hex, nullptr, 16); }
 /**
  * @brief Converts hexadecimal string to the 64bit integer value.
  * @param[in] hex target hexadecimal string
  */
-static uint64 toInt64(const string& hex) noexcept { return std::stoull(hex, nullptr, 16); }
+static uint64 toInt64(const string& hex) { return std::stoull(hex, nullptr, 16); }
 
 } // namespace math
\ No newline at end of file
-- 
2.43.0


From 2ac75aafc5617160007e27d5933268a26eb9fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 42/46] fix: packed vector header includes the declaration of
 assert

---
 include/math/packed-vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index dd7d7d3..4854fc1 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -19,6 +19,7 @@
 
 #pragma once
 #include "math/types.hpp"
+#include <cassert>
 #include <cstdlib>
 #include <vector>
 
-- 
2.43.0


From e639dc5599cee860e5f22d9bbf8e65f2e8056fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 43/46] fix: portable selection of SIMD vectors is controlled
 by the unsigned mask

---
 include/math/simd/vector/float.hpp | 2 +-
 include/math/simd/vector/int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 59ca141..b3dc2c5 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -740,7 +740,7 @@ static f32x4 select(u32x4 c, f32x4 t, f32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_f32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return f32x4(select(c.floats, t.floats, f.floats));
+	return f32x4(select(c.uints, t.floats, f.floats));
 	#endif
 }
 
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index b5a369d..d0c5433 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -759,7 +759,7 @@ static i32x4 select(u32x4 c, i32x4 t, i32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_s32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return i32x4(select(c.ints, t.ints, f.ints));
+	return i32x4(select(c.uints, t.ints, f.ints));
 	#endif
 }
 
-- 
2.43.0


From cfa3b9fe634d77d8d5dcb7d6a7892111c1eae5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 44/46] fix: portable SIMD vectors load four values from a
 pointer

---
 include/math/simd/vector/float.hpp | 2 +-
 include/math/simd/vector/int.hpp   | 2 +-
 include/math/simd/vector/uint.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index b3dc2c5..a698301 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -224,7 +224,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_f32(v);
 		#else
-		floats = *v;
+		floats = float4(v[0], v[1], v[2], v[3]);
 		#endif
 	}
 	
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index d0c5433..08182c5 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -199,7 +199,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_s32(v);
 		#else
-		ints = *v;
+		ints = int4(v[0], v[1], v[2], v[3]);
 		#endif
 	}
 	
diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index b14ae29..bf6d8aa 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -190,7 +190,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_u32(v);
 		#else
-		uints = *v;
+		uints = uint4(v[0], v[1], v[2], v[3]);
 		#endif
 	}
 	
-- 
2.43.0


From c18318b9cef2e87903abb30a1168b6f1a0eafad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 45/46] fix: portable SIMD vector conversions between integers
 and floats convert the values

---
 include/math/simd/vector/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index a698301..255c877 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -153,7 +153,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
-		floats = v.floats;
+		floats = (float4)v.uints;
 		#endif
 	}
 	/**
@@ -167,7 +167,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_s32(v.data);
 		#else
-		floats = v.floats;
+		floats = (float4)v.ints;
 		#endif
 	}
 
@@ -415,7 +415,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_s32_f32(data);
 		#else
-		return i32x4((uint4)floats);
+		return i32x4((int4)floats);
 		#endif
 	}
 
-- 
2.43.0


From b7073b13c764173a71fd78e98e6bd1453dd29e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:44 +0000
Subject: [PATCH 46/46] fix: portable transpose3x3 clears the fourth row like
 the SIMD versions

---
 include/math/simd/matrix/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index eb77f86..0f36c61 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -389,9 +389,9 @@ static f32x4x4 transpose3x3(const f32x4x4& m) noexcept
 	#else
 	auto r = transpose((float3x3)m);
 	return f32x4x4(
-		f32x4(r.c0.x, r.c0.y, r.c0.z, m.c3.floats.x), 
-		f32x4(r.c1.x, r.c1.y, r.c1.z, m.c3.floats.y), 
-		f32x4(r.c2.x, r.c2.y, r.c2.z, m.c3.floats.z), m.c3);
+		f32x4(r.c0.x, r.c0.y, r.c0.z, 0.0f), 
+		f32x4(r.c1.x, r.c1.y, r.c1.z, 0.0f), 
+		f32x4(r.c2.x, r.c2.y, r.c2.z, 0.0f), m.c3);
 	#endif
 }
 
-- 
2.43.0

