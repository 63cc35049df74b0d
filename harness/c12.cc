// C12: encoder output is the systematic codeword; syndromes are the values at the roots.
#include "rs_encode.hh"
void explore(RS &c) { encode_explore(c); }
void mc_register()
{
#if PART == 0
	fcrs<2, 7, u8, 1, 0, 1, 2>(); fcrs<2, 7, u8, 2, 0, 1, 2>(); fcrs<2, 7, u16, 2, 1>();
	fcrs<3, 11, u8, 1, 0, 1, 6>(); fcrs<3, 11, u8, 2, 0, 1, 5>(); fcrs<3, 11, u8, 3, 0, 1, 2>(); fcrs<3, 11, u8, 4, 0, 1, 3>(); fcrs<3, 11, u8, 5, 0, 1>(); fcrs<3, 11, u8, 6, 0, 1>();
	fcrs<3, 13, u8, 2, 0, 1>(); fcrs<3, 13, u16, 4, 2>();
#elif PART == 1
	fcrs<4, 19, u8, 1, 0, 1, 14>(); fcrs<4, 19, u8, 2, 0, 1, 7>(); fcrs<4, 19, u8, 4, 0, 1, 3>(); fcrs<4, 19, u8, 5, 1>(); fcrs<4, 19, u8, 8, 0, 1>(); fcrs<4, 19, u8, 11, 1>(); fcrs<4, 19, u8, 14, 0, 1>();
	fcrs<4, 25, u8, 3, 0, 2>(); fcrs<4, 25, u16, 6, 1>();
	fcrs<5, 37, u8, 2, 0, 1>(); fcrs<5, 41, u8, 6, 1, 3>(); fcrs<5, 61, u8, 10, 0>(); fcrs<5, 47, u16, 30, 1>();
#elif PART == 2
	fcrs<6, 67, u8, 4, 0, 1>(); fcrs<6, 91, u8, 9, 2>(); fcrs<6, 115, u8, 16, 1>();
	fcrs<7, 137, u8, 3, 1>(); fcrs<7, 253, u8, 12, 0, 5>(); fcrs<7, 131, u8, 32, 1>();
#elif PART == 3
	fcrs<8, 285, u8, 1, 0>(); fcrs<8, 285, u8, 2, 0, 1>(); fcrs<8, 285, u8, 16, 0, 1>(); fcrs<8, 285, u8, 32, 0, 1, 112>(); fcrs<8, 391, u8, 32, 112>(); fcrs<8, 501, u8, 7, 3>(); fcrs<8, 299, u16, 64, 1>();
#elif PART == 4
	fcrs<9, 529, u16, 8, 1>(); fcrs<10, 1033, u16, 6, 0>(); fcrs<12, 4179, u16, 10, 1>(); fcrs<16, 69643, u16, 64, 1>(); fcrs<16, 65581, u16, 3, 0>();
#elif PART == 5
	fcrs<8, 285, u8, 130, 0>(); fcrs<8, 285, u8, 254, 1>(); fcrs<9, 529, u16, 300, 1>(); fcrs<10, 1033, u16, 600, 0>(); fcrs<16, 69643, u16, 300, 1>();
#endif
}
