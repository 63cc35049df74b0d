// C20: polar encoders against the Kronecker transform from its definition.
#include "polar.hh"
#include "polar_encoder.hh"
#include "polar_parity_aided.hh"

struct Enc {
	int lanes; Enc(int lanes) : lanes(lanes) {}
	virtual ~Enc() {}
	// kind 0 plain, 1 systematic, 2 parity; messages for each lane; returns codewords; checks guards and that the message is untouched
	virtual void run(int kind, std::vector<Bits> &cw, const std::vector<Bits> &m, const Frozen &f, int level, int stride, int first) = 0;
	void one(const Frozen &f, int level, const std::vector<Bits> &ms, int kinds = 7, int stride = 0, int first = 0)
	{
		int N = 1 << level; static std::vector<Bits> cw; 
		for (int kind = 0; kind < 3; ++kind) if (kinds >> kind & 1) {
			cw.assign(lanes, Bits(N, 9));
			run(kind, cw, ms, f, level, stride, first); ++transitions; ++states;
			for (int l = 0; l < lanes; ++l) {
				Bits u; if (kind == 2) parity_place(u, ms[l], f, N, stride, first); else u = place(ms[l], f, N);
				if (kind != 1) {
					Bits x = transform(u);
					if (x != cw[l]) { int i = 0; while (x[i] == cw[l][i]) ++i; fail(current, fmt("%s level %d frozen %s stride %d first %d lane %d message %s: symbol %d is %d want %d", kind ? "parity" : "plain", level, str(f).c_str(), stride, first, l, str(ms[l]).c_str(), i, cw[l][i], x[i])); }
				} else {
					Bits v = transform(cw[l]);   // the transform is an involution: the frozen part of u must be neutral
					for (int i = 0; i < N; ++i) MC_CHECK(!fz(f, i) || !v[i], "systematic level %d frozen %s message %s: output is not in the code (position %d)", level, str(f).c_str(), str(ms[l]).c_str(), i);
					if (convex_) { int k = 0; for (int i = 0; i < N; ++i) if (!fz(f, i)) { MC_CHECK(cw[l][i] == ms[l][k], "systematic level %d frozen %s message %s: position %d does not show message bit %d", level, str(f).c_str(), str(ms[l]).c_str(), i, k); ++k; } }
				}
			}
		}
	}
	bool convex_ = true;
	static bool convex(const Frozen &f, int N)   // i within k within j, i and j free => k free
	{
		for (int k = 0; k < N; ++k) if (fz(f, k)) {
			bool lo = false, hi = false;
			for (int i = 0; i < N; ++i) if (!fz(f, i)) { if ((i & k) == i) lo = true; if ((i & k) == k) hi = true; }
			if (lo && hi) return false;
		}
		return true;
	}
	// a list of messages pushed through in groups of `lanes`
	std::vector<Bits> pend; Frozen pf; int plevel = -1;
	void feed(const Frozen &f, int level, const std::vector<Bits> &list, int kinds, int stride = 0, int first = 0)
	{
		convex_ = (kinds & 2) ? convex(f, 1 << level) : false;
		std::vector<Bits> g;
		for (size_t i = 0; i < list.size(); ++i) { g.push_back(list[i]); if ((int)g.size() == lanes) { one(f, level, g, kinds, stride, first); g.clear(); } }
		if (g.size()) { while ((int)g.size() < lanes) g.push_back(list[0]); one(f, level, g, kinds, stride, first); }
	}
	static std::vector<Bits> spanning(int k) { std::vector<Bits> r; r.push_back(Bits(k, 0)); if (k) { r.push_back(Bits(k, 1)); for (int i = 0; i < k; ++i) { Bits b(k, 0); b[i] = 1; r.push_back(b); } Bits a(k, 0); for (int i = 0; i < k; ++i) a[i] = (i * i + i / 3) & 1; r.push_back(a); } return r; }
	static std::vector<Bits> every(int k) { std::vector<Bits> r; for (int m = 0; m < 1 << k; ++m) { Bits b(k); for (int i = 0; i < k; ++i) b[i] = m >> i & 1; r.push_back(b); } return r; }
	static std::vector<Bits> ends(int k) { std::vector<Bits> r; r.push_back(Bits(k, 1)); for (int i : {0, 1, k / 2, k - 2, k - 1}) if (i >= 0 && i < k) { Bits b(k, 0); b[i] = 1; r.push_back(b); } return r; }
	void small(int level) { int N = 1 << level; for (u32 w = 0; w < 1u << N; ++w) { int k = info({w}, N); feed({w}, level, N <= 8 ? every(k) : ends(k), 3); } ++traces; }
	void small_parity(int level) { int N = 1 << level; for (u32 w = 0; w < 1u << N; ++w) for (int first = 0; first <= N; ++first) for (int stride = 0; stride <= N; ++stride) { int k = parity_count({w}, N, stride, first); feed({w}, level, N <= 4 ? every(k) : spanning(k), 4, stride, first); } ++traces; }
	std::vector<u32> words() { std::vector<u32> w = {0, ~0u, 0x0000ffff, 0xffff0000, 0x00ff00ff, 0x55555555, 0xaaaaaaaa, 0x0117177f, 0x177f7fff, 0x7fffffff, 1, 0x80000000, 0xfffffffe, 0x12345678, 0x0fffffff, 0x00010117}; return w; }
	void level5()
	{
		auto ws = words();
		for (u32 bg : {0u, ~0u, 0x0117177fu}) for (int sz : {1, 2, 4, 8}) for (int o = 0; o < 32; o += sz) for (u32 p = 0; p < 1u << sz; ++p) { u32 mask = (u32)((1ull << sz) - 1) << o; u32 w = (bg & ~mask) | p << o; feed({w}, 5, ends(info({w}, 32)), 3); }
		for (u32 w : ws) feed({w}, 5, spanning(info({w}, 32)), 3);
		for (u32 a : ws) for (u32 b : ws) feed({a, b}, 6, ends(info({a, b}, 64)), 3);
		++traces;
	}
	void large()
	{
		for (int level = 7; level <= (thorough ? 14 : 11); ++level) for (int s = 0; s < 4; ++s) {
			int N = 1 << level; Frozen f(N / 32); for (int i = 0; i < N; ++i) { bool z = s == 0 ? false : s == 1 ? __builtin_popcount(i) < level / 2 : s == 2 ? (i * 7 + i / 5) % 3 == 0 : i < N / 2 - 5; if (z) f[i / 32] |= 1u << i % 32; }
			int k = info(f, N); convex_ = s != 2; std::vector<Bits> e = ends(k), g; for (size_t i = 0; i < e.size(); ++i) g.push_back(e[i]); while (g.size() % lanes) g.push_back(e[0]);
			for (size_t i = 0; i < g.size(); i += lanes) one(f, level, std::vector<Bits>(g.begin() + i, g.begin() + i + lanes), 3);
			for (int stride : {1, 5, 31, 64}) for (int first : {1, 7, 32}) { int kp = parity_count(f, N, stride, first); auto q = ends(kp); q.resize(3); feed(f, level, q, 4, stride, first); }
		}
		++traces;
	}
	// long codes: positions beyond 16 bits
	void deep(int level)
	{
		int N = 1 << level;
		for (int s = 0; s < 4; ++s) {
			Frozen f(N / 32); for (int i = 0; i < N; ++i) { bool z = s == 0 ? __builtin_popcount(i) * 2 < level : s == 1 ? (i * 7LL + i / 5) % 3 == 0 : s == 2 ? i < N / 2 - 5 : __builtin_popcount(i) < 3; if (z) f[i / 32] |= 1u << i % 32; }
			int k = info(f, N); convex_ = s != 1;
			std::vector<Bits> g; for (int l = 0; l < lanes; ++l) { Bits b(k); Fill r(level * 64 + s * 32 + l % 4); if (l % 4 == 3) b[k - 1 - l / 4] = 1; else for (auto &v : b) v = r(2); g.push_back(b); }
			one(f, level, g, 3);
			int stride = s == 0 ? 31 : s == 1 ? 1 : s == 2 ? 64 : 4097, first = s == 0 ? 32 : s == 1 ? 0 : s == 2 ? 70000 : 1, kp = parity_count(f, N, stride, first);
			for (auto &b : g) b.resize(kp);
			one(f, level, g, 4, stride, first);
		}
		++traces;
	}
	void parity5() { for (u32 w : words()) for (int stride = 0; stride <= 33; ++stride) for (int first = 0; first <= 33; first += (stride % 3 ? 3 : 1)) { int k = parity_count({w}, 32, stride, first); feed({w}, 5, stride < 3 ? spanning(k) : ends(k), 4, stride, first); feed({w, ~w}, 6, ends(parity_count({w, ~w}, 64, stride, first)), 4, stride, first); } ++traces; }
};
template <typename T> struct Lane { typedef T V; static const int L = 1; static void set(T &t, int, int v) { t = (T)v; } static int get(const T &t, int) { return t == (T)1 ? 0 : t == (T)-1 ? 1 : 7; } };
template <typename T, int W> struct Lane<SIMD<T, W>> { static const int L = W; static void set(SIMD<T, W> &t, int l, int v) { t.v[l] = (T)v; } static int get(const SIMD<T, W> &t, int l) { return t.v[l] == (T)1 ? 0 : t.v[l] == (T)-1 ? 1 : 7; } };
template <typename T> struct EncI : Enc {
	typedef Lane<T> L;
	T *a, *b; CODE::PolarEncoder<T> *e; CODE::PolarSysEnc<T> *s; CODE::PolarParityEncoder<T> *p;
	EncI() : Enc(L::L), a((T *)aligned_alloc(64, sizeof(T) * ((1 << 20) + 64))), b((T *)aligned_alloc(64, sizeof(T) * ((1 << 20) + 64))), e(new CODE::PolarEncoder<T>), s(new CODE::PolarSysEnc<T>), p(new CODE::PolarParityEncoder<T>) {}
	~EncI() { free(a); free(b); delete e; delete s; delete p; }
	void run(int kind, std::vector<Bits> &cw, const std::vector<Bits> &m, const Frozen &f, int level, int stride, int first) override
	{
		int N = 1 << level, k = (int)m[0].size(); T *x = a + 8, *y = b + 8;
		for (int i = -8; i < k + 8; ++i) for (int l = 0; l < lanes; ++l) L::set(x[i], l, i < 0 || i >= k ? 3 : 1 - 2 * m[l][i]);
		memset((void *)b, 0x11, sizeof(T) * (N + 16)); static std::vector<u8> c; c.assign((u8 *)a, (u8 *)(a + k + 16));
		Frozen g = f;
		if (kind == 0) (*e)(y, x, g.data(), level); else if (kind == 1) (*s)(y, x, g.data(), level); else (*p)(y, x, g.data(), level, stride, first);
		MC_CHECK(g == f, "frozen bits modified");
		MC_CHECK(!memcmp(c.data(), a, c.size()), "message modified");
		for (size_t i = 0; i < sizeof(T) * 8; ++i) MC_CHECK(((u8 *)b)[i] == 0x11 && ((u8 *)(y + N))[i] == 0x11, "wrote outside the codeword");
		for (int i = 0; i < N; ++i) for (int l = 0; l < lanes; ++l) cw[l][i] = L::get(y[i], l);
	}
};
template <typename T> void reg(const char *t, bool full)
{
	auto j = [=](const std::string &n, std::function<void(Enc &)> f) { job(fmt("%s %s", t, n.c_str()), [=] { Enc *e = new EncI<T>; f(*e); delete e; }); };
	for (int l = 1; l <= (full ? 4 : 3); ++l) j(fmt("level %d", l), [=](Enc &e) { e.small(l); });
	for (int l = 1; l <= 3; ++l) j(fmt("parity level %d", l), [=](Enc &e) { e.small_parity(l); });
	j("level 5, 6", [](Enc &e) { e.level5(); }); j("parity level 5, 6", [](Enc &e) { e.parity5(); }); j("large", [](Enc &e) { e.large(); });
	for (int l = 12; l <= (thorough || Lane<T>::L == 1 ? 20 : 17); ++l) j(fmt("level %d", l), [=](Enc &e) { e.deep(l); });
}
void mc_register()
{
#if PART == 0
	reg<int8_t>("int8", true); reg<float>("float", false); reg<int>("int", false);
#elif PART == 1
	reg<SIMD<int8_t, 16>>("SIMD<int8,16>", false); reg<SIMD<int8_t, 32>>("SIMD<int8,32>", false); reg<SIMD<float, 4>>("SIMD<float,4>", false); reg<SIMD<int16_t, 16>>("SIMD<int16,16>", false); reg<SIMD<int8_t, 8>>("SIMD<int8,8>", false);
#endif
}
