// Portable emulation of the NEON intrinsics the library uses, written from the Arm intrinsics reference
// (clang vector extensions; each function is one lane-wise definition).  Runs the __ARM_NEON code on any machine.
#pragma once
#include <stdint.h>
#define NT_(T, E, B) typedef E T __attribute__((vector_size(B)));
NT_(float32x4_t, float, 16) NT_(int8x16_t, int8_t, 16) NT_(int16x8_t, int16_t, 16) NT_(int32x4_t, int32_t, 16) NT_(int64x2_t, int64_t, 16)
NT_(uint8x16_t, uint8_t, 16) NT_(uint16x8_t, uint16_t, 16) NT_(uint32x4_t, uint32_t, 16) NT_(uint64x2_t, uint64_t, 16)
NT_(int8x8_t, int8_t, 8) NT_(uint8x8_t, uint8_t, 8)
#undef NT_
struct int8x8x2_t { int8x8_t val[2]; };
struct uint8x8x2_t { uint8x8_t val[2]; };
#define NF_ static inline __attribute__((always_inline))
#define DUP_(S, T, E, N) NF_ T vdupq_n_##S(E x) { T r; for (int i = 0; i < N; ++i) r[i] = x; return r; }
#define BIN_(name, S, T, N, expr) NF_ T name##_##S(T a, T b) { T r; for (int i = 0; i < N; ++i) r[i] = expr; return r; }
#define UN_(name, S, T, N, expr) NF_ T name##_##S(T a) { T r; for (int i = 0; i < N; ++i) r[i] = expr; return r; }
#define CMP_(name, S, T, U, N, op) NF_ U name##_##S(T a, T b) { U r; for (int i = 0; i < N; ++i) r[i] = a[i] op b[i] ? ~(decltype(r[0] + r[0]))0 : 0; return r; }
#define BSL_(S, T, U, N) NF_ T vbslq_##S(U m, T a, T b) { T r; for (int i = 0; i < N; ++i) r[i] = (m[i] & a[i]) | (~m[i] & b[i]); return r; }
#define SAT_(x, lo, hi) ((x) < (lo) ? (lo) : (x) > (hi) ? (hi) : (x))
#define ARITH_(S, T, E, U, N) DUP_(S, T, E, N) BIN_(vaddq, S, T, N, (E)((U)a[i] + (U)b[i])) BIN_(vsubq, S, T, N, (E)((U)a[i] - (U)b[i])) \
	BIN_(vmulq, S, T, N, (E)((uint64_t)(U)a[i] * (uint64_t)(U)b[i])) BIN_(vandq, S, T, N, a[i] & b[i]) BIN_(vorrq, S, T, N, a[i] | b[i]) BIN_(veorq, S, T, N, a[i] ^ b[i]) BIN_(vbicq, S, T, N, a[i] & ~b[i])
#define ORD_(S, T, U, N) BIN_(vminq, S, T, N, b[i] < a[i] ? b[i] : a[i]) BIN_(vmaxq, S, T, N, b[i] > a[i] ? b[i] : a[i]) \
	CMP_(vceqq, S, T, U, N, ==) CMP_(vcgtq, S, T, U, N, >) CMP_(vcgeq, S, T, U, N, >=) CMP_(vcltq, S, T, U, N, <) CMP_(vcleq, S, T, U, N, <=)
ARITH_(s8, int8x16_t, int8_t, uint8_t, 16) ARITH_(s16, int16x8_t, int16_t, uint16_t, 8) ARITH_(s32, int32x4_t, int32_t, uint32_t, 4) ARITH_(s64, int64x2_t, int64_t, uint64_t, 2)
ARITH_(u8, uint8x16_t, uint8_t, uint8_t, 16) ARITH_(u16, uint16x8_t, uint16_t, uint16_t, 8) ARITH_(u32, uint32x4_t, uint32_t, uint32_t, 4) ARITH_(u64, uint64x2_t, uint64_t, uint64_t, 2)
ORD_(s8, int8x16_t, uint8x16_t, 16) ORD_(s16, int16x8_t, uint16x8_t, 8) ORD_(s32, int32x4_t, uint32x4_t, 4) ORD_(s64, int64x2_t, uint64x2_t, 2)
ORD_(u8, uint8x16_t, uint8x16_t, 16) ORD_(u16, uint16x8_t, uint16x8_t, 8) ORD_(u32, uint32x4_t, uint32x4_t, 4) ORD_(f32, float32x4_t, uint32x4_t, 4)
DUP_(f32, float32x4_t, float, 4) BIN_(vaddq, f32, float32x4_t, 4, a[i] + b[i]) BIN_(vsubq, f32, float32x4_t, 4, a[i] - b[i]) BIN_(vmulq, f32, float32x4_t, 4, a[i] * b[i])
UN_(vabsq, f32, float32x4_t, 4, a[i] < 0 ? -a[i] : a[i] + 0.f)
UN_(vnegq, s8, int8x16_t, 16, (int8_t)-(uint8_t)a[i]) UN_(vnegq, s16, int16x8_t, 8, (int16_t)-(uint16_t)a[i])
UN_(vqabsq, s8, int8x16_t, 16, (int8_t)(a[i] == -128 ? 127 : a[i] < 0 ? -a[i] : a[i])) UN_(vqabsq, s16, int16x8_t, 8, (int16_t)(a[i] == -32768 ? 32767 : a[i] < 0 ? -a[i] : a[i]))
BIN_(vqaddq, s8, int8x16_t, 16, SAT_(a[i] + b[i], -128, 127)) BIN_(vqaddq, s16, int16x8_t, 8, SAT_(a[i] + b[i], -32768, 32767))
BIN_(vqsubq, s8, int8x16_t, 16, SAT_(a[i] - b[i], -128, 127)) BIN_(vqsubq, s16, int16x8_t, 8, SAT_(a[i] - b[i], -32768, 32767))
BIN_(vqaddq, u8, uint8x16_t, 16, SAT_(a[i] + b[i], 0, 255)) BIN_(vqaddq, u16, uint16x8_t, 8, SAT_(a[i] + b[i], 0, 65535))
BIN_(vqsubq, u8, uint8x16_t, 16, SAT_(a[i] - b[i], 0, 255)) BIN_(vqsubq, u16, uint16x8_t, 8, SAT_(a[i] - b[i], 0, 65535))
BSL_(s8, int8x16_t, uint8x16_t, 16) BSL_(u8, uint8x16_t, uint8x16_t, 16) BSL_(u16, uint16x8_t, uint16x8_t, 8) BSL_(u32, uint32x4_t, uint32x4_t, 4) BSL_(u64, uint64x2_t, uint64x2_t, 2)
#define SHR_(S, T, N) NF_ T vshrq_n_##S(T a, int n) { T r; for (int i = 0; i < N; ++i) r[i] = a[i] >> n; return r; } NF_ T vshlq_n_##S(T a, int n) { T r; for (int i = 0; i < N; ++i) r[i] = a[i] << n; return r; }
SHR_(u8, uint8x16_t, 16) SHR_(u16, uint16x8_t, 8)
#define HALF_(S, T, H) NF_ H vget_low_##S(T a) { H r; for (int i = 0; i < 8; ++i) r[i] = a[i]; return r; } NF_ H vget_high_##S(T a) { H r; for (int i = 0; i < 8; ++i) r[i] = a[i + 8]; return r; } \
	NF_ T vcombine_##S(H a, H b) { T r; for (int i = 0; i < 8; ++i) r[i] = a[i], r[i + 8] = b[i]; return r; }
HALF_(s8, int8x16_t, int8x8_t) HALF_(u8, uint8x16_t, uint8x8_t)
#define TBL_(S, H, H2) NF_ H vtbl2_##S(H2 t, H x) { H r; for (int i = 0; i < 8; ++i) { uint8_t k = (uint8_t)x[i]; r[i] = k < 16 ? t.val[k / 8][k % 8] : 0; } return r; }
TBL_(s8, int8x8_t, int8x8x2_t) TBL_(u8, uint8x8_t, uint8x8x2_t)
#ifdef __aarch64__
NF_ int8x16_t vqtbl1q_s8(int8x16_t t, uint8x16_t x) { int8x16_t r; for (int i = 0; i < 16; ++i) r[i] = x[i] < 16 ? t[x[i]] : 0; return r; }
NF_ uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t x) { uint8x16_t r; for (int i = 0; i < 16; ++i) r[i] = x[i] < 16 ? t[x[i]] : 0; return r; }
#endif
#define LS_(S, T, E, N) NF_ T vld1q_##S(const E *p) { T r; for (int i = 0; i < N; ++i) r[i] = p[i]; return r; } NF_ void vst1q_##S(E *p, T a) { for (int i = 0; i < N; ++i) p[i] = a[i]; }
LS_(u8, uint8x16_t, uint8_t, 16) LS_(u16, uint16x8_t, uint16_t, 8)
