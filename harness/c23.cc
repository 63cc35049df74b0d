// C23: parity-aided list decoding against plain list decoding with the parity rule.
#include "polar_list.hh"
#include "polar_parity_aided.hh"
template <typename V, int L_, int MAX_M> struct ListI : ListDec {
	typedef SIMD<V, L_> T; typedef CODE::PolarParityDecoder<T, MAX_M> D;
	T *b; V *a; D *d; std::vector<V> c; CODE::PolarParityEncoder<V> enc;
	u64 calls = 0; static const int NN = 1 << MAX_M;
	ListI() : ListDec(L_, sizeof(V) == 1 ? 127 : 6000, true), b((T *)aligned_alloc(64, sizeof(T) * (NN + 64))), a((V *)malloc(sizeof(V) * NN)), d((D *)aligned_alloc(64, (sizeof(D) + 63) & ~(size_t)63)) { memset((void *)d, 0x3c, sizeof(D)); new (d) D; }
	~ListI() { free(a); free(b); free((void *)d); }
	void run(const Soft &y, const Frozen &f, int level, int stride, int first, std::vector<int> &rk, std::vector<Bits> &m, int K, bool norank) override
	{
		int N = 1 << level; V scale = unit<V>(calls++); for (int i = 0; i < N; ++i) a[i] = (V)(y[i] * scale);
		T *p = b + 8; memset((void *)b, 0x11, sizeof(T) * (K + 16)); c.assign(a, a + N); Frozen g = f; int r[L_ + 8]; for (int &v : r) v = -7;
		(*d)(norank ? nullptr : r + 4, p, a, g.data(), level, stride, first);
		MC_CHECK(g == f && !memcmp(c.data(), a, sizeof(V) * N), "input modified");
		for (int i = 0; i < 4; ++i) MC_CHECK(r[i] == -7 && r[4 + L_ + i] == -7, "wrote outside the ranks");
		for (size_t i = 0; i < sizeof(T) * 8; ++i) MC_CHECK(((u8 *)b)[i] == 0x11 && ((u8 *)(p + K))[i] == 0x11, "level %d frozen %s stride %d first %d: wrote outside the message of %d symbols", level, str(f).c_str(), stride, first, K);
		for (int l = 0; l < L_; ++l) { rk[l] = r[4 + l]; for (int k = 0; k < K; ++k) { int v = (int)p[k].v[l]; m[l][k] = v == 1 ? 0 : v == -1 ? 1 : 7; } }
		digest(p, sizeof(T) * K); digest(r, sizeof r);
		// every lane re-encodes under the real encoder to the codeword the oracle's metric is computed on
		static std::vector<V> in, out; in.resize(K); out.resize(N); static u64 n = 0;
		if (n++ % 16 == 0) for (int l = 0; l < L_; l += L_ / 2) { bool okay = true; for (int k = 0; k < K; ++k) { in[k] = (V)(1 - 2 * m[l][k]); okay &= m[l][k] < 2; } enc(out.data(), in.data(), f.data(), level, stride, first); if (okay) { Bits x = code(m[l], f, N, stride, first); for (int i = 0; i < N; ++i) MC_CHECK(out[i] == 1 - 2 * x[i], "encoder and parity rule disagree at level %d frozen %s stride %d first %d", level, str(f).c_str(), stride, first); } }
	}
};
static const u32 FR[] = {0, 0x0117177f, 0x177f7fff, 0x7fff7f70, 0x0000ffff, 0x00ff00ff, 0xff00ff01, 0x12345678, 0xaaaaaaaa};
template <typename V, int L, int MAX_M> void reg(const char *t, int scale)
{
	auto j = [=](const std::string &n, std::function<void(ListDec &)> f) { job(fmt("%s %s", t, n.c_str()), [=] { ListDec *e = new ListI<V, L, MAX_M>; f(*e); delete e; }); };
	for (u32 w : FR) j(fmt("stride/first %08x", w), [=](ListDec &e) { int K = info({w}, 32); for (int stride = 0; stride <= K; ++stride) for (int first = 0; first <= K; first += first && scale && stride > 3 ? 3 : 1) { if (parity_count({w}, 32, stride, first) < 1) continue; e.some({w}, 5, 4, stride * 40 + first, stride, first); for (int s = 0; s < 4; ++s) { int k = parity_count({w}, 32, stride, first); Bits m(k); Fill r(s); for (auto &b : m) b = s ? r(2) : 1; e.clean(m, s == 0 ? 1 : s == 1 ? (sizeof(V) == 2 ? 60 : 127) : 5 + s, {w}, 5, stride, first, s == 3); } } e.done(); });
	int n = 0; std::vector<std::vector<int>> als{{-3, -1, 1, 2}, {-2, 0, 3}, {-1, 1}};
	for (auto c : std::vector<std::array<u32, 3>>{{0x0117177f, 3, 2}, {0x177f7fff, 4, 1}, {0x7fff7f70, 2, 5}, {0x12345678, 5, 7}, {0xff00ff01, 1, 3}, {0x0000ffff, 0, 9}, {0x00ff00ff, 3, 0}, {0x0117177f, 1, 0}}) { j(fmt("alphabet %08x %d %d", c[0], c[1], c[2]), [=](ListDec &e) { e.alphabet(c[0], n, 1 + n * 2, n % 3 == 2 ? 9 : n % 3 ? 6 - scale : 5 - scale, als[n % 3], n, c[1], c[2]); }); j(fmt("flips %08x %d %d", c[0], c[1], c[2]), [=](ListDec &e) { e.flips(c[0], 2, n, c[1], c[2]); }); ++n; }
	for (u32 bg : {~0u, 0x0117177fu, 0u}) j(fmt("windows of 8 in %08x", bg), [=](ListDec &e) { int seed = 0; for (int o = 0; o < 32; o += 8) for (u32 p = 0; p < 256; ++p) { u32 w = (bg & ~(0xffu << o)) | p << o; for (int s = 0; s < 2; ++s) { ++seed; e.some({w}, 5, 2, seed * 4, 1 + seed % 5, seed % 8); } } e.done(); });
	j("level 6", [=](ListDec &e) { int seed = 0; for (u32 a : FR) for (u32 b : FR) for (int s = 0; s < 3; ++s) { ++seed; e.some({a, b}, 6, 2, seed * 4, 1 + (seed * 5) % 31, (seed * 3) % 17); } e.done(); });
	// frozen halves, quarters and eighths in every word but the last one, whose last position is always free
	j("level 6, frozen halves", [=](ListDec &e) { int seed = 0; for (u32 a : {0xffff0000u, 0xffff0117u, 0xffff177fu, 0xff00ff00u, 0xff017f00u, 0xf0f01700u, 0xfff0ff0fu, 0x0000ffffu, 0x0100ffffu, 0xffff8000u, 0xffffff00u, 0x3f3f0f03u}) for (u32 b : {0u, 0x0117177fu, 0x0000ffffu, 0x00ff0000u, 0x00ffffffu, 0x177f7fffu}) for (int s = 0; s < 4; ++s) { ++seed; e.some({a, b}, 6, 2, seed * 4, 1 + (seed * 5) % 13, (seed * 3) % 11); } e.done(); });
	if (sizeof(V) > 1) j("large", [=](ListDec &e) { for (int level = 7; level <= std::min(MAX_M, thorough ? 12 : 9); ++level) for (int sh = 0; sh < 7; ++sh) for (int s = 0; s < 3; ++s) e.some(ListDec::shape(level, sh), level, 2, level * 30 + sh * 3 + s, s == 0 ? 31 : s == 1 ? 5 : 64, s == 0 ? 32 : s == 1 ? sh % 2 : 17); e.done(); });
	if (sizeof(V) != 2) for (int l = 9; l <= MAX_M; ++l) j(fmt("level %d", l), [=](ListDec &e) { e.deep(l, 127, l % 3 ? 31 : 5, l % 4 ? 32 : 1); });
	j("undistorted", [=](ListDec &e) { for (int level = 5; level <= (sizeof(V) == 2 ? 5 : std::min(MAX_M, 10)); ++level) for (int sh = 0; sh < 7; ++sh) for (int stride : {1, 4, 31}) for (int first : {0, 1, 5, 32}) { Frozen f = ListDec::shape(level, sh); int k = parity_count(f, 1 << level, stride, first); if (k < 1) continue; for (int s = 0; s < 3; ++s) { Bits m(k); Fill r(s); for (auto &b : m) b = s == 0 ? 1 : r(2); e.clean(m, s == 0 ? 1 : s == 1 ? 33 : (sizeof(V) == 2 ? 60 : 127), f, level, stride, first); } } ++traces; });
}
void mc_register()
{
#if PART == 0
	reg<int8_t, 16, 16>("SIMD<int8,16>", 0);
#elif PART == 1
	reg<int8_t, 32, 13>("SIMD<int8,32>", 1);
#elif PART == 2
	reg<int8_t, 4, 7>("SIMD<int8,4>", 0); reg<int8_t, 2, 6>("SIMD<int8,2>", 0);
#elif PART == 3
	reg<float, 8, 16>("SIMD<float,8>", 0);
#elif PART == 4
	reg<int16_t, 8, 8>("SIMD<int16,8>", 0);
#endif
}
