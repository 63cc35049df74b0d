// C27: ordered statistics decoding, linear encoder, BCH generator matrices.
#include "osdx.hh"
template <int N, int K> void linear(std::initializer_list<int> mp)
{
	std::vector<int> mpv(mp);
	job(fmt("generator N=%d K=%d", N, K), [=] {
		// generator polynomial and matrices
		std::vector<int> g = {1};   // g[i] = coefficient of x^i
		for (int m : mpv) { std::vector<int> r(g.size() + 31 - __builtin_clz(m), 0); for (size_t i = 0; i < g.size(); ++i) for (int j = 0; j < 31; ++j) if (m >> j & 1) r[i + j] ^= g[i]; g = r; }
		while (!g.back()) g.pop_back();
		MC_CHECK((int)g.size() == N - K + 1, "oracle degree %d", (int)g.size());
		std::vector<int8_t> poly(N - K + 3, 9), mat((size_t)N * K + 8, 9);
		auto run = [&](auto f) { switch (mpv.size()) { case 1: f(std::initializer_list<int>{mpv[0]}); break; case 2: f(std::initializer_list<int>{mpv[0], mpv[1]}); break; case 3: f(std::initializer_list<int>{mpv[0], mpv[1], mpv[2]}); break; case 9: f(std::initializer_list<int>{mpv[0], mpv[1], mpv[2], mpv[3], mpv[4], mpv[5], mpv[6], mpv[7], mpv[8]}); break; default: abort(); } };
		run([&](std::initializer_list<int> l) { CODE::BoseChaudhuriHocquenghemGenerator<N, K>::poly(poly.data() + 1, l); });
		for (int i = 0; i <= N - K; ++i) MC_CHECK(poly[1 + i] == g[N - K - i], "poly coefficient %d", i);
		MC_CHECK(poly[0] == 9 && poly[N - K + 2] == 9, "poly wrote outside");
		auto multiple = [&](std::vector<int> w) { for (int i = 0; i < K; ++i) if (w[i]) for (int j = 0; j <= N - K; ++j) w[i + j] ^= g[N - K - j]; for (int x : w) if (x) return false; return true; };
		for (int sys = 0; sys < 2; ++sys) {
			run([&](std::initializer_list<int> l) { CODE::BoseChaudhuriHocquenghemGenerator<N, K>::matrix(mat.data() + 4, sys, l); });
			for (int i = 0; i < 4; ++i) MC_CHECK(mat[i] == 9 && mat[(size_t)N * K + 4 + i] == 9, "matrix wrote outside");
			for (int k = 0; k < K; ++k) {
				std::vector<int> w(N); for (int i = 0; i < N; ++i) { w[i] = mat[4 + k * N + i]; MC_CHECK(w[i] == 0 || w[i] == 1, "matrix entry %d", w[i]); }
				MC_CHECK(multiple(w), "sys=%d row %d is no codeword", sys, k);
				for (int i = 0; i < k; ++i) MC_CHECK(!w[i], "sys=%d row %d col %d not zero", sys, k, i);
				MC_CHECK(w[k] == 1, "row %d lacks leading one", k);
				if (sys) for (int i = k + 1; i < K; ++i) MC_CHECK(!w[i], "row %d col %d: not systematic", k, i);
				++states; ++transitions;
			}
			CODE::LinearEncoder<N, K> enc;
			auto msg = [&](const std::vector<int> &m) {
				const int B = 96; u8 mb[B], mc_[B], cw[B]; memset(mb, 0x5a, B); memset(cw, 0xa5, B);
				for (int i = 0; i < K; ++i) { mb[i / 8] &= ~(128 >> i % 8); if (m[i]) mb[i / 8] |= 128 >> i % 8; }
				memcpy(mc_, mb, B); enc(cw + 2, mb, mat.data() + 4); ++states; ++transitions;
				MC_CHECK(!memcmp(mc_, mb, B), "message modified");
				for (int i = 0; i < B * 8; ++i) { int b = cw[i / 8] >> (7 - i % 8) & 1, want; int p = i - 16; if (p < 0 || p >= N) want = 0xa5 >> (7 - i % 8) & 1; else { want = 0; for (int k = 0; k < K; ++k) want ^= m[k] & mat[4 + k * N + p]; } MC_CHECK(b == want, "encode: bit %d is %d", p, b); }
			};
			if (K <= 11) tuples(K, 2, [&](const int *t) { msg(std::vector<int>(t, t + K)); });
			else for (int e = 0; e <= 2; ++e) subsets(K, e, [&](const int *p) { if (K > 100 && e == 2 && (p[0] * 7 + p[1]) % 61) return; std::vector<int> m(K, 0), q(K, 1); for (int i = 0; i < e; ++i) m[p[i]] = 1, q[p[i]] = 0; msg(m); msg(q); });
		}
		++traces;
	});
}
void mc_register()
{
#if PART == 0
	linear<7, 4>({0b1011}); linear<15, 11>({0b10011}); linear<15, 7>({0b10011, 0b11111}); linear<15, 5>({0b10011, 0b11111, 0b111}); linear<31, 16>({0b100101, 0b111101, 0b110111}); linear<127, 64>({0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011});
	mats<1, 1, 1>({a8}); mats<2, 1, 1>({a8}); mats<2, 2, 2>({a8, a3}); mats<3, 1, 0>({a8}); mats<3, 1, 1>({a8}); mats<3, 2, 1>({a8, a5}); mats<3, 2, 2>({a8}); mats<4, 1, 0>({a8}); mats<4, 2, 0>({a5}); mats<4, 2, 1>({a8, a5, a3}); mats<4, 2, 2>({a5, a8});
	mats<4, 3, 1>({a5}); mats<4, 3, 2>({a5}); mats<4, 3, 3>({a5, a3}); mats<4, 4, 2>({a4}); mats<4, 4, 4>({a3});
#elif PART == 1
	mats<5, 2, 1>({a8, a5, a3}); mats<5, 2, 2>({a5}); mats<5, 3, 0>({a4}); mats<5, 3, 1>({a5, a4}); mats<5, 3, 2>({a5, a3}); mats<5, 3, 3>({a4, ax});
	mats<6, 3, 1>({a4, a3, a5}); mats<6, 3, 2>({a4, a3}); mats<6, 3, 3>({a4, a3}); mats<6, 2, 0>({a4}); mats<7, 3, 1>({a4b, a3}); mats<7, 4, 2>({a3, a4}); mats<7, 4, 4>({a3, ax}); mats<8, 4, 1>({a3, a4b}); mats<8, 4, 2>({a3, a4}); mats<8, 4, 3>({a3}); mats<9, 2, 0>({a3}); mats<9, 3, 1>({a3}); mats<9, 5, 5>({a3}); mats<10, 2, 1>({a3}); mats<8, 8, 1>({a3});
	mats<8, 6, 6>({a3}); mats<8, 5, 5>({a2});
	plant<28, 7, 0>(); plant<28, 7, 1>(); plant<28, 7, 2>(); plant<28, 7, 3>(); plant<28, 7, 4>(); plant<28, 7, 5>(); plant<28, 7, 6>(); plant<24, 6, 6>(); plant<25, 5, 4>();
#elif PART == 2
	bchs<7, 4, 1>(); bchs<7, 4, 4>(); bchs<15, 11, 1>(); bchs<15, 11, 3>(); bchs<15, 7, 0>(); bchs<15, 7, 2>(); bchs<15, 7, 4>(); bchs<15, 5, 1>(); bchs<15, 5, 2>(); bchs<15, 5, 5>(); bchs<31, 16, 1>(); bchs<31, 16, 2>(); bchs<31, 21, 2>(); bchs<63, 45, 1>(); bchs<63, 16, 0>(); bchs<63, 16, 2>(); bchs<127, 64, 0>(); bchs<127, 64, 1>(); bchs<127, 64, 2>();
	bchs<15, 7, 6>(); bchs<15, 11, 5>(); bchs<31, 16, 3>();
#elif PART == 3
	linear<255, 239>({0b100011101, 0b101110111}); linear<511, 502>({0b1000010001}); linear<511, 493>({0b1000010001, 0b1001011001});
	wides<129, 5, 2>(); wides<200, 7, 6>(); wides<255, 8, 2>(); wides<256, 9, 3>(); wides<257, 6, 6>(); wides<300, 12, 2>(); wides<511, 10, 1>(); wides<520, 4, 4>(); wides<640, 33, 1>(); wides<300, 150, 0>(500000); wides<700, 3, 3>(); bchs<255, 239, 1>(500000); bchs<511, 502, 0>(300000);
#endif
}
