// C28: ordered statistics list decoding.
#include "osdx.hh"
void mc_register()
{
#if PART == 0
	mats<1, 1, 1, 1>({a8}); mats<1, 1, 1, 2>({a8}); mats<2, 1, 1, 2>({a8}); mats<2, 2, 2, 4>({a8, a3}); mats<2, 2, 1, 3>({a8}); mats<3, 1, 0, 1>({a8}); mats<3, 1, 1, 2>({a8}); mats<3, 2, 1, 2>({a8}); mats<3, 2, 1, 3>({a8}); mats<3, 2, 2, 4>({a8, a5}); mats<4, 2, 2, 2>({a5, a3}); mats<4, 2, 1, 3>({a5, a8}); mats<4, 2, 2, 4>({a5, a4});
	mats<4, 3, 1, 4>({a5}); mats<4, 3, 2, 5>({a5}); mats<4, 3, 3, 8>({a5, a3}); mats<4, 4, 2, 3>({a4}); mats<4, 4, 4, 16>({a3});
#elif PART == 1
	mats<5, 2, 1, 3>({a5, a3}); mats<5, 2, 2, 4>({a5}); mats<5, 3, 1, 1>({a5}); mats<5, 3, 1, 4>({a5, a4}); mats<5, 3, 2, 7>({a5, a3}); mats<5, 3, 3, 8>({a4, ax});
	mats<6, 3, 1, 4>({a4, a3}); mats<6, 3, 2, 4>({a4, a3}); mats<6, 3, 3, 5>({a4}); mats<7, 3, 1, 2>({a3}); mats<7, 4, 2, 8>({a3, a4}); mats<7, 4, 4, 16>({a3, ax}); mats<8, 4, 1, 5>({a3, a4b}); mats<8, 4, 2, 3>({a3, a4}); mats<8, 4, 3, 15>({a3}); mats<9, 3, 1, 4>({a3}); mats<9, 5, 5, 32>({a2}); mats<10, 2, 1, 3>({a3}); mats<8, 8, 1, 9>({a2});
#elif PART == 2
	bchs<7, 4, 1, 5>(); bchs<7, 4, 4, 16>(); bchs<15, 11, 1, 4>(); bchs<15, 11, 3, 8>(); bchs<15, 7, 0, 1>(); bchs<15, 7, 2, 8>(); bchs<15, 7, 2, 29>(); bchs<15, 7, 4, 4>(); bchs<15, 5, 1, 6>(); bchs<15, 5, 2, 16>(); bchs<15, 5, 5, 32>(); bchs<31, 16, 1, 4>(); bchs<31, 16, 2, 16>(); bchs<31, 21, 2, 5>(); bchs<63, 45, 1, 8>(); bchs<63, 16, 2, 4>(); bchs<127, 64, 1, 8>(); bchs<127, 64, 2, 4>(); bchs<15, 7, 6, 8>(); bchs<15, 7, 5, 16>(); bchs<15, 11, 5, 32>(); bchs<31, 16, 3, 8>();
	plant<28, 7, 0, 1>(); plant<28, 7, 1, 8>(); plant<28, 7, 2, 5>(); plant<28, 7, 3, 16>(); plant<28, 7, 4, 32>(); plant<28, 7, 5, 3>(); plant<28, 7, 6, 127>(); plant<24, 6, 6, 64>(); plant<25, 5, 4, 1>();
#elif PART == 3
	wides<129, 5, 2, 5>(); wides<200, 7, 6, 8>(); wides<255, 8, 2, 4>(); wides<256, 9, 3, 16>(); wides<257, 6, 6, 64>(); wides<300, 12, 2, 32>(); wides<511, 10, 1, 11>(); wides<520, 4, 4, 16>(); wides<640, 33, 1, 3>(); wides<700, 3, 3, 8>(); wides<300, 9, 3, 129>(800000); wides<200, 10, 4, 300>(800000); bchs<255, 239, 1, 4>(500000);
#endif
}
