// C14: honesty of the algebraic decoders for every received word (all cosets).
#include "rs_honest.hh"
void explore(RS &c) { honesty_explore(c); }
template <int M, int POLY, typename T, int NR, int FCR> void wide() { job(fmt("many roots GF(2^%d,%#x) NR=%d FCR=%d", M, POLY, NR, FCR), [] { RS *c = new RSC<M, POLY, T, NR, FCR>; wide_honesty(*c); delete c; }); }
void mc_register()
{
#if PART == 0
	fcrs<2, 7, u8, 1, 0, 1, 2>(); fcrs<2, 7, u8, 2, 0, 1, 2>();
	fcrs<3, 11, u8, 1, 0, 1, 6>(); fcrs<3, 11, u8, 2, 0, 1, 5>(); fcrs<3, 11, u8, 3, 0, 1, 2>(); fcrs<3, 11, u8, 4, 0, 1, 3>(); fcrs<3, 11, u8, 5, 0, 1>(); fcrs<3, 11, u8, 6, 0, 1>();
	fcrs<3, 13, u8, 2, 0, 1>(); fcrs<3, 13, u8, 4, 0, 2>(); fcrs<3, 13, u16, 3, 1>();
#elif PART == 1
	fcrs<4, 19, u8, 1, 0, 1, 14>(); fcrs<4, 19, u8, 2, 0, 1, 7>(); fcrs<4, 19, u8, 3, 0, 1>(); fcrs<4, 19, u8, 4, 0, 1, 3>(); fcrs<4, 19, u8, 5, 1>(); fcrs<4, 19, u8, 6, 0, 1>(); fcrs<4, 19, u8, 8, 1>(); fcrs<4, 19, u8, 14, 1>();
	fcrs<4, 25, u8, 2, 1>(); fcrs<4, 25, u8, 3, 0>(); fcrs<4, 25, u8, 4, 1>(); fcrs<4, 25, u16, 6, 1>();
#elif PART == 2
	fcrs<5, 37, u8, 2, 0, 1>(); fcrs<5, 37, u8, 4, 0, 1>(); fcrs<5, 41, u8, 6, 3>(); fcrs<5, 61, u8, 10, 0>(); fcrs<5, 55, u8, 3, 1>();
	fcrs<6, 67, u8, 2, 0>(); fcrs<6, 67, u8, 4, 1>(); fcrs<6, 91, u8, 3, 2>(); fcrs<7, 137, u8, 2, 1>(); fcrs<7, 253, u8, 6, 0>();
#elif PART == 3
	fcrs<8, 285, u8, 1, 0>(); fcrs<8, 285, u8, 2, 0, 1>(); fcrs<8, 285, u8, 4, 0, 1>(); fcrs<8, 285, u8, 16, 1>(); fcrs<8, 285, u8, 32, 0>(); fcrs<8, 391, u8, 6, 112>(); fcrs<10, 1033, u16, 4, 0>(); fcrs<16, 69643, u16, 3, 1>();
#elif PART == 4
	std::vector<std::pair<const char *, void (*)(RS &)>> H_ = {{"", honesty_explore}};
	bchs<3, 11, u8, 1, 1>(H_); bchs<3, 11, u8, 2, 1>(H_); bchs<3, 13, u8, 3, 0>(H_);
	bchs<4, 19, u8, 2, 1>(H_); bchs<4, 19, u8, 4, 1>(H_); bchs<4, 25, u8, 6, 1>(H_); bchs<4, 19, u16, 5, 0>(H_); bchs<4, 19, u8, 2, 3>(H_);
	bchs<5, 37, u8, 4, 1>(H_); bchs<5, 61, u8, 6, 1>(H_); bchs<5, 41, u8, 5, 0>(H_, false);
	bchs<4, 19, u8, 4, 2>(H_); bchs<3, 11, u8, 2, 2>(H_); bchs<3, 13, u8, 2, 5>(H_); bchs<4, 25, u8, 3, 4>(H_); bchs<4, 19, u8, 3, 6>(H_);
#elif PART == 5
	std::vector<std::pair<const char *, void (*)(RS &)>> H_ = {{"", honesty_explore}};
	bchs<6, 67, u8, 4, 1>(H_); bchs<6, 91, u8, 6, 1>(H_, false); bchs<6, 67, u8, 3, 0>(H_, false); bchs<7, 137, u8, 4, 1>(H_, false); bchs<7, 253, u8, 6, 1>(H_, false);
	bchs<8, 285, u8, 4, 1>(H_); bchs<8, 391, u8, 3, 0>(H_, false); bchs<8, 285, u8, 16, 1>(H_, false); bchs<10, 1033, u16, 4, 1>(H_, false); bchs<6, 67, u8, 4, 2>(H_); bchs<5, 37, u8, 4, 2>(H_);
#elif PART == 6
	wide<8, 285, u8, 130, 0>(); wide<8, 285, u8, 254, 1>(); wide<8, 391, u8, 129, 112>(); wide<8, 285, u8, 64, 1>(); wide<9, 529, u16, 300, 1>(); wide<9, 529, u16, 510, 0>(); wide<10, 1033, u16, 600, 0>(); wide<10, 1033, u16, 1022, 1>(); wide<12, 4179, u16, 270, 1>(); wide<16, 69643, u16, 300, 1>(); wide<16, 65581, u16, 20, 0>();
	std::vector<std::pair<const char *, void (*)(RS &)>> H_ = {{"many roots ", wide_honesty}};
	bchs<9, 529, u16, 100, 1>(H_, false); bchs<10, 1033, u16, 300, 1>(H_, false); bchs<8, 285, u8, 60, 0>(H_);
#endif
}
