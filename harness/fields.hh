// Field polynomials used across the harnesses and an arithmetic oracle independent of the library.
#pragma once
#include "mc.hh"
namespace orc {
typedef uint64_t u64;
// polynomial product modulo POLY (degree M), straight from the definition
inline u64 mul(u64 a, u64 b, int M, u64 poly)
{
	unsigned __int128 r = 0;
	for (int i = 0; i < M; ++i) if (b >> i & 1) r ^= (unsigned __int128)a << i;
	for (int i = 2 * M; i >= M; --i) if (r >> i & 1) r ^= (unsigned __int128)poly << (i - M);
	return (u64)r;
}
struct Field {
	int M, Q, N; u64 poly; std::vector<int> lg, ex;
	Field(int M, u64 poly) : M(M), Q(1 << M), N(Q - 1), poly(poly), lg(Q, -1), ex(2 * N + 2)
	{
		u64 a = 1;
		for (int i = 0; i < 2 * N + 2; ++i) { ex[i] = (int)a; if (i < N) lg[a] = i; a = mul(a, 2, M, poly); }
	}
	int m(int a, int b) const { return a && b ? ex[lg[a] + lg[b]] : 0; }
	int inv(int a) const { return ex[(N - lg[a]) % N]; }
	int d(int a, int b) const { return a ? ex[lg[a] + N - lg[b]] : 0; }
	int pw(long long e) const { e %= N; if (e < 0) e += N; return ex[e]; }
	int pow(int a, long long e) const { if (!e) return 1; return a ? pw((long long)lg[a] * (e % N)) : 0; }
};
}
template <int... P> struct Polys {};
typedef Polys<7> P2; typedef Polys<11, 13> P3; typedef Polys<19, 25> P4; typedef Polys<37, 41, 47, 55, 59, 61> P5;
typedef Polys<67, 91, 97, 103, 109, 115> P6;
typedef Polys<131, 137, 143, 145, 157, 167, 171, 185, 191, 193, 203, 211, 213, 229, 239, 241, 247, 253> P7;
typedef Polys<285, 299, 301, 333, 351, 355, 357, 361, 369, 391, 397, 425, 451, 463, 487, 501> P8;
typedef Polys<529, 789, 1019> P9; typedef Polys<1033, 1557, 2041> P10; typedef Polys<2053, 3053, 4073> P11;
typedef Polys<4179, 6231, 8137> P12; typedef Polys<8219, 8495> P13; typedef Polys<16427, 17287> P14;
typedef Polys<32771, 32813, 33559> P15; typedef Polys<65581, 66157, 69643> P16;
