// C13: every error/erasure pattern inside the design distance is corrected, return value = symbols changed.
#include "rs_decode.hh"
void explore(RS &c) { decode_explore(c); }
template <int M, typename T, int NR, int FCR, int... P> void pairs(Polys<P...>) { (job(fmt("all position pairs GF(2^%d,%#x) NR=%d FCR=%d", M, P, NR, FCR), [] { RS *c = new RSC<M, P, T, NR, FCR>; pairs_full(*c); delete c; }), ...); }
// errors at the first and every other position: every constant the double error shortcut can meet
template <int M, int NR, int FCR, int... P> void dists(Polys<P...>) { (job(fmt("all position distances GF(2^%d,%#x) NR=%d FCR=%d", M, P, NR, FCR), [] { RS *c = new RSC<M, P, u16, NR, FCR>; pair_distances(*c); delete c; }), ...); }
template <int M, int POLY, typename T, int NR, int FCR> void wide() { job(fmt("many roots GF(2^%d,%#x) NR=%d FCR=%d", M, POLY, NR, FCR), [] { RS *c = new RSC<M, POLY, T, NR, FCR>; wide_decode(*c); delete c; }); }

void mc_register()
{
#if PART == 0
	fcrs<2, 7, u8, 1, 0, 1, 2>(); fcrs<2, 7, u8, 2, 0, 1, 2>();
	fcrs<3, 11, u8, 1, 0, 1, 6>(); fcrs<3, 11, u8, 2, 0, 1, 5>(); fcrs<3, 11, u8, 3, 0, 1, 2>(); fcrs<3, 11, u8, 4, 0, 1, 3>(); fcrs<3, 11, u8, 5, 0, 1>(); fcrs<3, 11, u8, 6, 0, 1, 6>();
	fcrs<3, 13, u8, 2, 0, 1>(); fcrs<3, 13, u8, 4, 0, 2>(); fcrs<3, 13, u16, 5, 1>();
#elif PART == 1
	fcrs<4, 19, u8, 1, 0, 1, 14>(); fcrs<4, 19, u8, 2, 0, 1, 7>(); fcrs<4, 19, u8, 3, 1>(); fcrs<4, 19, u8, 4, 0, 1, 3>(); fcrs<4, 19, u8, 5, 1>(); fcrs<4, 19, u8, 6, 0, 1>(); fcrs<4, 19, u8, 7, 2>(); fcrs<4, 19, u8, 8, 0, 1>(); fcrs<4, 19, u8, 11, 1>(); fcrs<4, 19, u8, 14, 0, 1>();
#elif PART == 2
	fcrs<4, 25, u8, 2, 1>(); fcrs<4, 25, u8, 3, 0>(); fcrs<4, 25, u8, 4, 1, 2>(); fcrs<4, 25, u16, 6, 1>();
	fcrs<5, 37, u8, 2, 0, 1>(); fcrs<5, 37, u8, 4, 0, 1>(); fcrs<5, 41, u8, 6, 1, 3>(); fcrs<5, 61, u8, 10, 0>(); fcrs<5, 47, u16, 30, 1>(); fcrs<5, 55, u8, 5, 1>(); fcrs<5, 59, u8, 7, 30>();
#elif PART == 3
	fcrs<6, 67, u8, 4, 0, 1>(); fcrs<6, 91, u8, 9, 2>(); fcrs<6, 115, u8, 16, 1>(); fcrs<6, 103, u8, 6, 0>();
	fcrs<7, 137, u8, 3, 1>(); fcrs<7, 253, u8, 12, 0, 5>(); fcrs<7, 131, u8, 8, 1>();
#elif PART == 4
	fcrs<8, 285, u8, 2, 0, 1>(); fcrs<8, 285, u8, 16, 0, 1>(); fcrs<8, 285, u8, 32, 0, 1>(); fcrs<8, 391, u8, 8, 112>(); fcrs<8, 501, u8, 7, 3>(); fcrs<8, 299, u16, 6, 1>();
	fcrs<10, 1033, u16, 6, 0>(); fcrs<16, 69643, u16, 4, 1>();
#elif PART == 5
	pairs<3, u8, 4, 0>(P3()); pairs<4, u8, 4, 1>(P4()); pairs<5, u8, 4, 0>(P5()); pairs<6, u8, 4, 1>(P6()); pairs<7, u8, 4, 0>(P7());
#elif PART == 6
	pairs<8, u8, 4, 1>(P8()); pairs<9, u16, 4, 0>(Polys<529>());
	dists<9, 4, 1>(P9()); dists<10, 4, 0>(P10()); dists<11, 5, 1>(P11()); dists<12, 4, 1>(P12()); dists<13, 4, 0>(P13()); dists<14, 4, 1>(Polys<16427>()); dists<16, 4, 1>(Polys<69643>());
#elif PART == 7
	wide<8, 285, u8, 130, 0>(); wide<8, 285, u8, 254, 1>(); wide<8, 391, u8, 129, 112>(); wide<8, 285, u8, 64, 1>(); wide<9, 529, u16, 300, 1>(); wide<9, 529, u16, 510, 0>(); wide<10, 1033, u16, 600, 0>(); wide<10, 1033, u16, 1022, 1>(); wide<12, 4179, u16, 270, 1>(); wide<16, 69643, u16, 300, 1>(); wide<16, 65581, u16, 20, 0>();
#endif
}
