// C21: successive cancellation decoding with subtree shortcuts against plain successive cancellation.
#include "polar.hh"
#include "polar_decoder.hh"

typedef std::vector<int> Soft;
struct Dec {
	int lanes, lim; u64 compared = 0, skipped = 0;
	Dec(int lanes, int lim) : lanes(lanes), lim(lim) {}
	virtual ~Dec() {}
	virtual void run(const std::vector<Soft> &y, const Frozen &f, int level, std::vector<Soft> &msg, int K) = 0;   // checks guards
	std::vector<Soft> pend, got; std::vector<long long> yl;
	void flush(const Frozen &f, int level)
	{
		if (pend.empty()) return;
		int N = 1 << level, K = info(f, N); size_t real = pend.size();
		while ((int)pend.size() < lanes) pend.push_back(pend[0]);
		got.assign(lanes, Soft(K, 0));
		run(pend, f, level, got, K);
		for (size_t l = 0; l < real; ++l) {
			++states;
			SC sc{lim}; Bits u; yl.assign(pend[l].begin(), pend[l].end()); sc.run(yl, f, 0, u);
			if (sc.tie) { ++skipped; continue; }
			++compared; ++transitions;
			int k = 0;
			for (int i = 0; i < N; ++i) if (!fz(f, i)) { MC_CHECK(got[l][k] == 1 - 2 * u[i], "level %d frozen %s lane %d soft %s: message bit %d is %d want %d", level, str(f).c_str(), (int)l, str(pend[l]).c_str(), k, got[l][k], 1 - 2 * u[i]); ++k; }
		}
		pend.clear();
	}
	void feed(const Soft &y, const Frozen &f, int level) { pend.push_back(y); if ((int)pend.size() == lanes) flush(f, level); }
	// undistorted codewords: the message itself is the oracle
	void clean(const Bits &m, int amp, const Frozen &f, int level)
	{
		int N = 1 << level; Bits x = transform(place(m, f, N)); Soft y(N); for (int i = 0; i < N; ++i) y[i] = x[i] ? -amp : amp;
		std::vector<Soft> in(lanes, y); int K = (int)m.size(); for (int l = 1; l < lanes; l += 2) for (auto &v : in[l]) v = amp;   // odd lanes: the all-zero message
		got.assign(lanes, Soft(K, 0)); run(in, f, level, got, K); ++states; ++transitions;
		for (int l = 0; l < lanes; ++l) for (int k = 0; k < K; ++k) MC_CHECK(got[l][k] == (l & 1 ? 1 : 1 - 2 * m[k]), "level %d frozen %s undistorted codeword of %s, amplitude %d, lane %d: message bit %d is %d", level, str(f).c_str(), str(m).c_str(), amp, l, k, got[l][k]);
	}
	// deterministic soft words of different character
	Soft word(int N, int s)
	{
		Fill r(s + 1); Soft y(N); int mode = s % 6;
		for (auto &v : y) { int a = mode == 0 ? 1 + (int)r(3) : mode == 1 ? 1 + (int)r(127) : mode == 2 ? 100 + (int)r(28) : mode == 3 ? 1 : mode == 4 ? 1 << r(7) : (int)r(20); v = r(mode == 5 ? 5 : 2) ? a : -a; }
		return y;
	}
	// codeword with a few flipped and weakened positions
	Soft near(int N, const Frozen &f, int s)
	{
		Fill r(s + 77); int K = info(f, N); Bits m(K); for (auto &b : m) b = r(2); Bits x = transform(place(m, f, N)); Soft y(N); int a = 5 + (int)r(60);
		for (int i = 0; i < N; ++i) y[i] = (x[i] ? -1 : 1) * (a + (int)r(13));
		for (int k = 0; k < 1 + s % 5; ++k) { int i = (int)r(N); y[i] = (int)r(2) ? -y[i] : -(y[i] % 7); }
		return y;
	}
	void frozen5(u32 w, int words, int seed) { Frozen f{w}; for (int s = 0; s < words; ++s) feed(s & 1 ? near(32, f, seed + s) : word(32, seed + s / 2), f, 5); flush(f, 5); }
	void windows(u32 bg, int sz) { int seed = 0; for (int o = 0; o < 32; o += sz) for (u64 p = 0; p < 1ull << sz; ++p) { u32 mask = (u32)((1ull << sz) - 1) << o; frozen5((bg & ~mask) | (u32)p << o, sz == 16 ? 2 : std::max(12, lanes), seed += 16); } done(); }
	void done() { ++traces; MC_SAMPLE("%llu soft words compared, %llu with a tie left out", (unsigned long long)compared, (unsigned long long)skipped); MC_CHECK(compared * 1000 > skipped, "nearly every input was a tie"); }
	// every word over a small alphabet on eight positions
	void alphabet(u32 w, int o, int step, std::vector<int> al, int seed)
	{
		Frozen f{w}; Soft base; for (;; ++seed) { base = near(32, f, seed); SC sc{lim}; Bits u; yl.assign(base.begin(), base.end()); sc.run(yl, f, 0, u); if (!sc.tie) break; }
		tuples(8, (int)al.size(), [&](const int *t) { Soft y = base; for (int i = 0; i < 8; ++i) y[(o + i * step) % 32] = al[t[i]]; feed(y, f, 5); }); flush(f, 5); done();
	}
	// every pattern of up to three flips of a codeword
	void flips(u32 w, int seed) { Frozen f{w}; for (int p = 0; p < 3; ++p) { Fill r(seed); Soft b = near(32, f, seed); for (auto &v : b) v = v < 0 ? -9 - (int)r(p ? 5 : 1) * p * 3 : 9 + (int)r(p ? 5 : 1) * p * 3;
		for (int k = 0; k <= 3; ++k) subsets(32, k, [&](const int *c) { Soft y = b; for (int i = 0; i < k; ++i) y[c[i]] = -y[c[i]]; feed(y, f, 5); }); flush(f, 5); } done(); }
	static std::vector<u32> words() { return {0, ~0u, 0x0000ffff, 0xffff0000, 0x00ff00ff, 0x55555555, 0xaaaaaaaa, 0x0117177f, 0x177f7fff, 0x7fffffff, 1, 0x80000000, 0xfffffffe, 0x12345678, 0x0fffffff, 0x00010117}; }
	void pairs() { int seed = 0; for (u32 a : words()) for (u32 b : words()) { Frozen f{a, b}; for (int s = 0; s < std::max(12, lanes); ++s) feed(s & 1 ? near(64, f, seed + s) : word(64, seed + s / 2), f, 6); flush(f, 6); seed += 16; } done(); }
	// levels 7 and 8: every arrangement of four kinds of words
	void arrangements(int level, std::vector<u32> kinds, int words_)
	{
		int n = (1 << level) / 32, seed = 0;
		tuples(n, (int)kinds.size(), [&](const int *t) { Frozen f(n); for (int i = 0; i < n; ++i) f[i] = kinds[t[i]]; for (int s = 0; s < words_; ++s) feed(s & 1 ? near(32 * n, f, seed + s) : word(32 * n, seed + s / 2), f, level); flush(f, level); seed += 4; }); done();
	}
	Frozen shape(int level, int s) { int N = 1 << level; Frozen f(N / 32); for (int i = 0; i < N; ++i) { bool z = s == 0 ? __builtin_popcount(i) < level / 2 : s == 1 ? (i * 7 + i / 5) % 3 == 0 : s == 2 ? i < N / 2 - 5 : s == 3 ? __builtin_popcount(i) * 3 < level + (i >> (level - 2)) : s == 4 ? i != N - 1 : s == 5 ? i / 64 % 2 == 0 : false; if (z) f[i / 32] |= 1u << i % 32; } return f; }
	void large(int lo, int hi) { for (int level = lo; level <= hi; ++level) for (int sh = 0; sh < 7; ++sh) { Frozen f = shape(level, sh); int N = 1 << level; for (int s = 0; s < lanes * 2; ++s) feed(s & 1 ? near(N, f, s) : word(N, s / 2), f, level); flush(f, level); } done(); }
	// long codes: every level has its own instance of the decoder
	void deep(int level)
	{
		int N = 1 << level, n = 0;
		for (int sh = 0; sh < 7; ++sh) if (level < 16 || sh % 2 == 0 || thorough) { Frozen f = shape(level, sh); for (int s = 0; s < 2; ++s, ++n) feed(s & 1 ? near(N, f, n) : word(N, n), f, level); flush(f, level);
			int K = info(f, N); Bits m(K); Fill r(level * 7 + sh); for (auto &b : m) b = r(2); clean(m, 1 + (int)r(127), f, level); }
		done();
	}
	int max_m = 10;
	void clean_all()
	{
		for (int level = 5; level <= max_m; ++level) for (int sh = 0; sh < 7; ++sh) { Frozen f = shape(level, sh); int K = info(f, 1 << level);
			std::vector<Bits> ms{Bits(K, 0), Bits(K, 1)}; for (int i = 0; i < K; i += 1 + K / 40) { Bits b(K, 0); b[i] = 1; ms.push_back(b); }
			for (auto &m : ms) for (int a : {1, 2, 31, 64, 127}) clean(m, a, f, level); }
		for (u32 w : {0x7fffffffu, 0x177f7fffu, 0xfefefefeu, 0x7f7fffffu, 0xfffffff0u, 0x0fffffffu, 0xffff00ffu}) { int K = info({w}, 32); for (int m = 0; m < 1 << std::min(K, 10); ++m) { Bits b(K, 0); for (int i = 0; i < K && i < 10; ++i) b[i] = m >> i & 1; for (int a = 1; a <= 127; a += (m % 16 ? 42 : 1)) clean(b, a, {w}, 5); } }
		++traces;
	}
};
template <typename T> struct Lane { static const int L = 1; static T unit_(u64 n) { return unit<T>(n); } static void set(T &t, int, int v, T u) { t = (T)(v * u); } static int get(const T &t, int) { return (int)t; } };
template <typename T, int W> struct Lane<SIMD<T, W>> { static const int L = W; static T unit_(u64 n) { return unit<T>(n); } static void set(SIMD<T, W> &t, int l, int v, T u) { t.v[l] = (T)(v * u); } static int get(const SIMD<T, W> &t, int l) { return (int)t.v[l]; } };
template <typename T> struct Lim { static const int v = 0; }; template <> struct Lim<int8_t> { static const int v = 127; }; template <int W> struct Lim<SIMD<int8_t, W>> { static const int v = 127; };
template <typename T, int MAX_M> struct DecI : Dec {
	typedef Lane<T> L; typedef CODE::PolarDecoder<T, MAX_M> D;
	T *a, *b; D *d; u64 calls = 0;
	DecI() : Dec(L::L, Lim<T>::v), a((T *)aligned_alloc(64, sizeof(T) * ((1 << MAX_M) + 64))), b((T *)aligned_alloc(64, sizeof(T) * ((1 << MAX_M) + 64))), d(new D) { max_m = std::min(MAX_M, 10); }
	~DecI() { free(a); free(b); delete d; }
	void run(const std::vector<Soft> &y, const Frozen &f, int level, std::vector<Soft> &msg, int K) override
	{
		int N = 1 << level; T *x = a + 8, *m = b + 8; auto u = L::unit_(calls++);
		for (int l = 0; l < lanes; ++l) for (int i = 0; i < N; ++i) L::set(x[i], l, y[l][i], u);
		memset((void *)b, 0x11, sizeof(T) * (K + 16)); static std::vector<u8> c; c.assign((u8 *)x, (u8 *)(x + N)); Frozen g = f;
		(*d)(m, x, g.data(), level);
		MC_CHECK(g == f, "frozen bits modified"); MC_CHECK(!memcmp(c.data(), x, c.size()), "codeword modified");
		for (size_t i = 0; i < sizeof(T) * 8; ++i) MC_CHECK(((u8 *)b)[i] == 0x11 && ((u8 *)(m + K))[i] == 0x11, "level %d frozen %s: wrote outside the message of %d symbols", level, str(f).c_str(), K);
		for (int l = 0; l < lanes; ++l) for (int k = 0; k < K; ++k) msg[l][k] = L::get(m[k], l);
		if (lanes > 1) digest(m, sizeof(T) * K);
	}
};
template <typename T, int MAX_M> void reg(const char *t, bool full)
{
	auto j = [=](const std::string &n, std::function<void(Dec &)> f) { job(fmt("%s %s", t, n.c_str()), [=] { Dec *e = new DecI<T, MAX_M>; f(*e); delete e; }); };
	for (u32 bg : {0u, ~0u, 0x0117177fu, 0x00ff1777u}) for (int sz : {1, 2, 4, 8}) j(fmt("windows of %d in %08x", sz, bg), [=](Dec &e) { e.windows(bg, sz); });
	if (full) for (u32 bg : {0u, ~0u, 0x0117177fu}) j(fmt("windows of 16 in %08x", bg), [=](Dec &e) { e.windows(bg, 16); });
	std::vector<std::vector<int>> als{{-3, -1, 1, 2}, {-127, -60, 2, 70}, {-1, 0, 5}};
	int n = 0; for (u32 w : {0x0117177fu, 0x00000000u, 0x177f7fffu, 0x12345678u, 0x0000ffffu, 0xff00ff01u}) { for (int s : {1, 4, 5}) { if (full || n % 3 == 0) j(fmt("alphabet %08x step %d", w, s), [=](Dec &e) { e.alphabet(w, n, s, als[n % 3], n); }); ++n; } j(fmt("flips %08x", w), [=](Dec &e) { e.flips(w, n); }); }
	j("level 6 pairs", [](Dec &e) { e.pairs(); });
	j("level 7", [](Dec &e) { e.arrangements(7, {0, ~0u, 0x0117177f, 0xfffefee8, 0x80000001}, 4); });
	j("level 8", [](Dec &e) { e.arrangements(8, {0, ~0u, 0x0117177f}, 2); });
	j("large", [=](Dec &e) { e.large(5, std::min(MAX_M, thorough ? 13 : 11)); });
	for (int l = 9; l <= MAX_M; ++l) j(fmt("level %d", l), [=](Dec &e) { e.deep(l); });
	j("undistorted", [](Dec &e) { e.clean_all(); });
}
void mc_register()
{
#if PART == 0
	reg<int8_t, 20>("int8", true);
#elif PART == 1
	reg<float, 17>("float", true); reg<int, 20>("int", true);
#elif PART == 2
	reg<SIMD<int8_t, 16>, 17>("SIMD<int8,16>", false);
#elif PART == 3
	reg<SIMD<int8_t, 32>, 16>("SIMD<int8,32>", false);
#elif PART == 4
	reg<SIMD<float, 8>, 16>("SIMD<float,8>", false); reg<SIMD<int16_t, 8>, 8>("SIMD<int16,8>", false);
#endif
}
