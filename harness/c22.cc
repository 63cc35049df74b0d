// C22: list decoding against plain list decoding and exhaustive search.
#include "polar_list.hh"
#include "polar_list_decoder.hh"
template <typename V, int L_, int MAX_M> struct ListI : ListDec {
	typedef SIMD<V, L_> T; typedef CODE::PolarListDecoder<T, MAX_M> D;
	T *b; V *a; D *d; std::vector<V> c;
	u64 calls = 0; static const int NN = 1 << MAX_M;
	ListI() : ListDec(L_, sizeof(V) == 1 ? 127 : 6000, false), b((T *)aligned_alloc(64, sizeof(T) * (NN + 64))), a((V *)malloc(sizeof(V) * NN)), d((D *)aligned_alloc(64, (sizeof(D) + 63) & ~(size_t)63)) { memset((void *)d, 0x3c, sizeof(D)); new (d) D; }
	~ListI() { free(a); free(b); free((void *)d); }
	void run(const Soft &y, const Frozen &f, int level, int, int, std::vector<int> &rk, std::vector<Bits> &m, int K, bool norank) override
	{
		int N = 1 << level; V scale = unit<V>(calls++); for (int i = 0; i < N; ++i) a[i] = (V)(y[i] * scale);
		T *p = b + 8; memset((void *)b, 0x11, sizeof(T) * (K + 16)); c.assign(a, a + N); Frozen g = f; int r[L_ + 8]; for (int &v : r) v = -7;
		(*d)(norank ? nullptr : r + 4, p, a, g.data(), level);
		MC_CHECK(g == f && !memcmp(c.data(), a, sizeof(V) * N), "input modified");
		for (int i = 0; i < 4; ++i) MC_CHECK(r[i] == -7 && r[4 + L_ + i] == -7, "wrote outside the ranks");
		for (size_t i = 0; i < sizeof(T) * 8; ++i) MC_CHECK(((u8 *)b)[i] == 0x11 && ((u8 *)(p + K))[i] == 0x11, "level %d frozen %s: wrote outside the message of %d symbols", level, str(f).c_str(), K);
		for (int l = 0; l < L_; ++l) { rk[l] = r[4 + l]; for (int k = 0; k < K; ++k) { int v = (int)p[k].v[l]; m[l][k] = v == 1 ? 0 : v == -1 ? 1 : 7; } }
		digest(p, sizeof(T) * K); digest(r, sizeof r);
	}
};
template <typename V, int L, int MAX_M> void reg(const char *t, int scale)
{
	auto j = [=](const std::string &n, std::function<void(ListDec &)> f) { job(fmt("%s %s", t, n.c_str()), [=] { ListDec *e = new ListI<V, L, MAX_M>; f(*e); delete e; }); };
	for (u32 bg : {~0u, 0x0117177fu, 0x177f7fffu, 0u}) for (int sz : {4, 8}) j(fmt("windows of %d in %08x", sz, bg), [=](ListDec &e) { e.windows(bg, sz, bg ? 4 : 2); });
	int n = 0; std::vector<std::vector<int>> als{{-3, -1, 1, 2}, {-2, 0, 3}, {-1, 1}};
	for (u32 w : {0x0117177fu, 0x177f7fffu, 0x7fff7f70u, 0x12345678u, 0xff00ff01u}) { j(fmt("alphabet %08x", w), [=](ListDec &e) { e.alphabet(w, n, 1 + n * 2, n % 3 == 2 ? 10 : n % 3 ? 7 - scale : 6 - scale, als[n % 3], n); }); j(fmt("flips %08x", w), [=](ListDec &e) { e.flips(w, scale ? 2 : 3, n); }); ++n; }
	for (int s = 0; s < 3; ++s) j(fmt("complete list %d", s), [=](ListDec &e) { e.complete(s); });
	j("level 6 pairs", [=](ListDec &e) { e.pairs(scale ? 2 : 4); });
	j("level 6, frozen halves", [=](ListDec &e) { int seed = 0; for (u32 a : {0xffff0000u, 0xffff0117u, 0xffff177fu, 0xff00ff00u, 0xff017f00u, 0xf0f01700u, 0xfff0ff0fu, 0x0100ffffu, 0xffff8000u, 0x3f3f0f03u}) for (u32 b : {0u, 0x0117177fu, 0x0000ffffu, 0x00ff0000u, 0x00ffffffu, 0x177f7fffu}) e.some({a, b}, 6, 6, seed += 8); e.done(); });
	if (sizeof(V) > 1) j("large", [=](ListDec &e) { e.large(7, std::min(MAX_M, thorough ? 12 : 9), 6); }); else j("level 6 shapes", [](ListDec &e) { e.large(5, 6, 40); });
	if (sizeof(V) != 2) for (int l = 9; l <= MAX_M; ++l) j(fmt("level %d", l), [=](ListDec &e) { e.deep(l, 127); });
	j("undistorted", [](ListDec &e) { e.clean_all(sizeof(V) == 2 ? 5 : std::min(MAX_M, 10), sizeof(V) == 2 ? 63 : 127); });
}
void mc_register()
{
#if PART == 0
	reg<int8_t, 16, 16>("SIMD<int8,16>", 0);
#elif PART == 1
	reg<int8_t, 32, 13>("SIMD<int8,32>", 1);
#elif PART == 2
	reg<int8_t, 4, 7>("SIMD<int8,4>", 0); reg<int8_t, 2, 6>("SIMD<int8,2>", 0);
#elif PART == 3
	reg<float, 8, 16>("SIMD<float,8>", 0);
#elif PART == 4
	reg<int16_t, 8, 8>("SIMD<int16,8>", 0);
#elif PART == 5
	reg<int8_t, 8, 7>("SIMD<int8,8>", 0); reg<float, 4, 8>("SIMD<float,4>", 0);
#endif
}
