// The NEON operations used by the library, lane by lane as the ARM C Language
// Extensions define them, on compiler vectors
#pragma once
#include <cstdint>
#include <cstring>

typedef int8_t int8x16_t __attribute__((vector_size(16)));
typedef int16_t int16x8_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef int64_t int64x2_t __attribute__((vector_size(16)));
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef float float32x4_t __attribute__((vector_size(16)));
typedef int8_t int8x8_t __attribute__((vector_size(8)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef int16_t int16x4_t __attribute__((vector_size(8)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef int32_t int32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef float float32x2_t __attribute__((vector_size(8)));
struct int8x8x2_t { int8x8_t val[2]; };
struct uint8x8x2_t { uint8x8_t val[2]; };
struct int8x16x2_t { int8x16_t val[2]; };
struct uint8x16x2_t { uint8x16_t val[2]; };

#define SHIM static inline __attribute__((always_inline))

namespace shim {
template <int BYTES> struct wider;
template <> struct wider<1> { typedef int32_t type; };
template <> struct wider<2> { typedef int32_t type; };
template <> struct wider<4> { typedef int64_t type; };
template <typename T> SHIM T saturate(typename wider<sizeof(T)>::type v)
{
	typedef typename wider<sizeof(T)>::type W;
	const bool sign = T(-1) < T(0);
	const W top = sign ? (W(1) << (8 * sizeof(T) - 1)) - 1 : (W(1) << (8 * sizeof(T))) - 1;
	const W low = sign ? -top - 1 : 0;
	return v < low ? T(low) : v > top ? T(top) : T(v);
}
}

// S: element, V: vector, N: lanes, U: element of masks, M: vector of masks
#define SHIM_LOOP(V, N, EXPR) { V r; for (int i = 0; i < N; ++i) r[i] = (EXPR); return r; }
// wrapping arithmetic goes by way of the unsigned type
#define SHIM_ANY(X, S, V, N, U, M) \
	SHIM V vdupq_n_##X(S a) SHIM_LOOP(V, N, a) \
	SHIM V vmovq_n_##X(S a) SHIM_LOOP(V, N, a) \
	SHIM V vld1q_##X(const S *p) { V r; memcpy(&r, p, 16); return r; } \
	SHIM V vld1q_dup_##X(const S *p) SHIM_LOOP(V, N, *p) \
	SHIM void vst1q_##X(S *p, V a) { memcpy(p, &a, 16); } \
	SHIM V vbslq_##X(M m, V a, V b) { return (V)((m & (M)a) | (~m & (M)b)); }
#define SHIM_CMP(X, S, V, N, U, M) \
	SHIM M vcgtq_##X(V a, V b) SHIM_LOOP(M, N, a[i] > b[i] ? U(~U(0)) : U(0)) \
	SHIM M vcgeq_##X(V a, V b) SHIM_LOOP(M, N, a[i] >= b[i] ? U(~U(0)) : U(0)) \
	SHIM M vcltq_##X(V a, V b) SHIM_LOOP(M, N, a[i] < b[i] ? U(~U(0)) : U(0)) \
	SHIM M vcleq_##X(V a, V b) SHIM_LOOP(M, N, a[i] <= b[i] ? U(~U(0)) : U(0)) \
	SHIM M vceqq_##X(V a, V b) SHIM_LOOP(M, N, a[i] == b[i] ? U(~U(0)) : U(0)) \
	SHIM V vminq_##X(V a, V b) SHIM_LOOP(V, N, a[i] < b[i] ? a[i] : b[i]) \
	SHIM V vmaxq_##X(V a, V b) SHIM_LOOP(V, N, a[i] > b[i] ? a[i] : b[i])
#define SHIM_INT(X, S, V, N, U, M) \
	SHIM V vaddq_##X(V a, V b) SHIM_LOOP(V, N, S(U(U(a[i]) + U(b[i])))) \
	SHIM V vsubq_##X(V a, V b) SHIM_LOOP(V, N, S(U(U(a[i]) - U(b[i])))) \
	SHIM V vandq_##X(V a, V b) { return a & b; } \
	SHIM V vorrq_##X(V a, V b) { return a | b; } \
	SHIM V veorq_##X(V a, V b) { return a ^ b; } \
	SHIM V vbicq_##X(V a, V b) { return a & ~b; } \
	SHIM V vornq_##X(V a, V b) { return a | ~b; }
#define SHIM_NARROW(X, S, V, N, U, M) \
	SHIM V vmulq_##X(V a, V b) SHIM_LOOP(V, N, S(uint32_t(a[i]) * uint32_t(b[i]))) \
	SHIM V vmvnq_##X(V a) { return ~a; } \
	SHIM V vqaddq_##X(V a, V b) SHIM_LOOP(V, N, shim::saturate<S>(typename shim::wider<sizeof(S)>::type(a[i]) + b[i])) \
	SHIM V vqsubq_##X(V a, V b) SHIM_LOOP(V, N, shim::saturate<S>(typename shim::wider<sizeof(S)>::type(a[i]) - b[i]))
#define SHIM_SIGNED(X, S, V, N, U, M) \
	SHIM V vabsq_##X(V a) SHIM_LOOP(V, N, a[i] < 0 ? S(U(0) - U(a[i])) : a[i]) \
	SHIM V vnegq_##X(V a) SHIM_LOOP(V, N, S(U(0) - U(a[i]))) \
	SHIM V vqabsq_##X(V a) SHIM_LOOP(V, N, shim::saturate<S>(a[i] < 0 ? -typename shim::wider<sizeof(S)>::type(a[i]) : typename shim::wider<sizeof(S)>::type(a[i]))) \
	SHIM V vqnegq_##X(V a) SHIM_LOOP(V, N, shim::saturate<S>(-typename shim::wider<sizeof(S)>::type(a[i])))
#define SHIM_SHIFT(X, S, V, N, U, M) \
	SHIM V vshlq_n_##X(V a, int n) SHIM_LOOP(V, N, S(U(a[i]) << n)) \
	SHIM V vshrq_n_##X(V a, int n) SHIM_LOOP(V, N, n >= int(8 * sizeof(S)) ? S(a[i] < 0 ? -1 : 0) : S(a[i] >> n))

#define SHIM_EACH(F, X, S, V, N, U, M) F(X, S, V, N, U, M)
#define SHIM_TYPE_S(X, S, V, N, U, M) SHIM_ANY(X, S, V, N, U, M) SHIM_CMP(X, S, V, N, U, M) SHIM_INT(X, S, V, N, U, M) SHIM_SHIFT(X, S, V, N, U, M)

SHIM_TYPE_S(s8, int8_t, int8x16_t, 16, uint8_t, uint8x16_t)
SHIM_TYPE_S(s16, int16_t, int16x8_t, 8, uint16_t, uint16x8_t)
SHIM_TYPE_S(s32, int32_t, int32x4_t, 4, uint32_t, uint32x4_t)
SHIM_TYPE_S(s64, int64_t, int64x2_t, 2, uint64_t, uint64x2_t)
SHIM_TYPE_S(u8, uint8_t, uint8x16_t, 16, uint8_t, uint8x16_t)
SHIM_TYPE_S(u16, uint16_t, uint16x8_t, 8, uint16_t, uint16x8_t)
SHIM_TYPE_S(u32, uint32_t, uint32x4_t, 4, uint32_t, uint32x4_t)
SHIM_TYPE_S(u64, uint64_t, uint64x2_t, 2, uint64_t, uint64x2_t)
SHIM_NARROW(s8, int8_t, int8x16_t, 16, uint8_t, uint8x16_t)
SHIM_NARROW(s16, int16_t, int16x8_t, 8, uint16_t, uint16x8_t)
SHIM_NARROW(s32, int32_t, int32x4_t, 4, uint32_t, uint32x4_t)
SHIM_NARROW(u8, uint8_t, uint8x16_t, 16, uint8_t, uint8x16_t)
SHIM_NARROW(u16, uint16_t, uint16x8_t, 8, uint16_t, uint16x8_t)
SHIM_NARROW(u32, uint32_t, uint32x4_t, 4, uint32_t, uint32x4_t)
SHIM_SIGNED(s8, int8_t, int8x16_t, 16, uint8_t, uint8x16_t)
SHIM_SIGNED(s16, int16_t, int16x8_t, 8, uint16_t, uint16x8_t)
SHIM_SIGNED(s32, int32_t, int32x4_t, 4, uint32_t, uint32x4_t)
SHIM_ANY(f32, float, float32x4_t, 4, uint32_t, uint32x4_t)
SHIM_CMP(f32, float, float32x4_t, 4, uint32_t, uint32x4_t)
SHIM float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
SHIM float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
SHIM float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
SHIM float32x4_t vnegq_f32(float32x4_t a) { return -a; }
SHIM float32x4_t vabsq_f32(float32x4_t a) { return (float32x4_t)((uint32x4_t)a & vdupq_n_u32(0x7fffffffu)); }

// halves and table lookups: an index beyond the table gives zero
#define SHIM_BYTES(X, S, H, V) \
	SHIM H vget_low_##X(V a) SHIM_LOOP(H, 8, a[i]) \
	SHIM H vget_high_##X(V a) SHIM_LOOP(H, 8, a[i + 8]) \
	SHIM V vcombine_##X(H a, H b) SHIM_LOOP(V, 16, i < 8 ? a[i & 7] : b[i & 7]) \
	SHIM H vtbl1_##X(H t, H idx) SHIM_LOOP(H, 8, uint8_t(idx[i]) < 8 ? t[uint8_t(idx[i]) & 7] : S(0)) \
	SHIM H vtbl2_##X(H##x2 t, H idx) SHIM_LOOP(H, 8, uint8_t(idx[i]) < 16 ? t.val[(uint8_t(idx[i]) >> 3) & 1][uint8_t(idx[i]) & 7] : S(0))
#define int8x8_tx2 int8x8x2_t
#define uint8x8_tx2 uint8x8x2_t
SHIM_BYTES(s8, int8_t, int8x8_t, int8x16_t)
SHIM_BYTES(u8, uint8_t, uint8x8_t, uint8x16_t)
#undef int8x8_tx2
#undef uint8x8_tx2
#ifdef __aarch64__
SHIM int8x16_t vqtbl1q_s8(int8x16_t t, uint8x16_t idx) SHIM_LOOP(int8x16_t, 16, idx[i] < 16 ? t[idx[i] & 15] : int8_t(0))
SHIM uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t idx) SHIM_LOOP(uint8x16_t, 16, idx[i] < 16 ? t[idx[i] & 15] : uint8_t(0))
SHIM int8x16_t vqtbl2q_s8(int8x16x2_t t, uint8x16_t idx) SHIM_LOOP(int8x16_t, 16, idx[i] < 32 ? t.val[(idx[i] >> 4) & 1][idx[i] & 15] : int8_t(0))
SHIM uint8x16_t vqtbl2q_u8(uint8x16x2_t t, uint8x16_t idx) SHIM_LOOP(uint8x16_t, 16, idx[i] < 32 ? t.val[(idx[i] >> 4) & 1][idx[i] & 15] : uint8_t(0))
#endif

// reinterpretations
#define SHIM_CAST(X, V, Y, W) SHIM V vreinterpretq_##X##_##Y(W a) { return (V)a; }
#define SHIM_CASTS(X, V) \
	SHIM_CAST(X, V, s8, int8x16_t) SHIM_CAST(X, V, s16, int16x8_t) SHIM_CAST(X, V, s32, int32x4_t) SHIM_CAST(X, V, s64, int64x2_t) \
	SHIM_CAST(X, V, u8, uint8x16_t) SHIM_CAST(X, V, u16, uint16x8_t) SHIM_CAST(X, V, u32, uint32x4_t) SHIM_CAST(X, V, u64, uint64x2_t) \
	SHIM_CAST(X, V, f32, float32x4_t)
SHIM_CASTS(s8, int8x16_t)
SHIM_CASTS(s16, int16x8_t)
SHIM_CASTS(s32, int32x4_t)
SHIM_CASTS(s64, int64x2_t)
SHIM_CASTS(u8, uint8x16_t)
SHIM_CASTS(u16, uint16x8_t)
SHIM_CASTS(u32, uint32x4_t)
SHIM_CASTS(u64, uint64x2_t)
SHIM_CASTS(f32, float32x4_t)

#undef SHIM_LOOP
#undef SHIM_ANY
#undef SHIM_CMP
#undef SHIM_INT
#undef SHIM_NARROW
#undef SHIM_SIGNED
#undef SHIM_SHIFT
#undef SHIM_EACH
#undef SHIM_TYPE_S
#undef SHIM_BYTES
#undef SHIM_CAST
#undef SHIM_CASTS
#undef SHIM
