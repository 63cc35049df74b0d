// C16: short cyclic codes: encoder, hard decoder, soft decoder.
#include "mc.hh"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
using namespace mc;

struct Short {
	int N, K, T, P; u32 G;
	std::vector<int> cw;                       // oracle codewords by message
	std::unordered_map<u32, u32> leader;       // syndrome -> error pattern of weight <= T
	Short(int N, int K, u32 G, int T) : N(N), K(K), T(T), P(N - K), G(G)
	{
		for (int m = 0; m < 1 << K; ++m) cw.push_back((int)(((u32)m << P) | rem((u32)m << P)));
		for (int w = 0; w <= T; ++w) subsets(N, w, [&](const int *s) { u32 e = 0; for (int i = 0; i < w; ++i) e |= 1u << s[i]; u32 y = rem(e); if (leader.count(y)) fail(current, "oracle: distance too small"); leader[y] = e; });
	}
	virtual ~Short() {}
	u32 rem(u32 x) const { for (int i = N - 1; i >= P; --i) if (x >> i & 1) x ^= G << (i - P); return x; }
	int nearest(u32 w) const { auto it = leader.find(rem(w)); return it == leader.end() ? -1 : (int)(w ^ it->second); }
	virtual int encode(int m) = 0; virtual int encode(int8_t *c, int m) = 0;
	virtual int hard(int w) = 0; virtual int soft(const int8_t *c) = 0;
	std::string name() const { return fmt("(%d,%d) T=%d", N, K, T); }
	int corr(const int8_t *c, int w) const { int s = 0; for (int i = 0; i < N; ++i) s += w >> i & 1 ? -c[i] : c[i]; return s; }
	std::string show(const int8_t *c) const { return str(c, N); }
	// word in, whatever the amplitudes: the claims that hold for every soft input
	int any(const int8_t *c)
	{
		int8_t b[34]; memset(b, 99, sizeof b); memcpy(b + 1, c, N);
		int r = soft(b + 1);
		++transitions; ++states;
		MC_CHECK(r == -1 || (r >= 0 && rem((u32)r) == 0 && (u32)r < 1u << N), "%s soft %s: returned %#x which is no codeword", name().c_str(), show(c).c_str(), r);
		return r;
	}
	void ml(const int8_t *c)   // full search
	{
		int r = any(c), best = INT32_MIN, cnt = 0, w = -1;
		for (int x : cw) { int m = corr(c, x); if (m > best) best = m, cnt = 1, w = x; else if (m == best) ++cnt; }
		int want = cnt > 1 ? -1 : w;
		MC_CHECK(r == want, "%s soft %s: got %d want %d (best correlation %d attained %d times)", name().c_str(), show(c).c_str(), r, want, best, cnt);
	}
	// Chase: best of the hard decodings of all words that differ from the hard decisions in the T least reliable positions
	void chase(const int8_t *c)
	{
		int r = any(c);
		std::vector<int> o(N); for (int i = 0; i < N; ++i) o[i] = i;
		std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return std::abs((int)c[a]) < std::abs((int)c[b]); });
		if (T < N && std::abs((int)c[o[T - 1]]) == std::abs((int)c[o[T]])) return;   // the least reliable set is not determined
		u32 h = 0; for (int i = 0; i < N; ++i) h |= (u32)(c[i] < 0) << i;
		std::set<int> cand;
		for (int s = 0; s < 1 << T; ++s) { u32 x = h; for (int i = 0; i < T; ++i) if (s >> i & 1) x ^= 1u << o[i]; int d = nearest(x); if (d >= 0) cand.insert(d); }
		int best = INT32_MIN, cnt = 0, w = -1;
		for (int x : cand) { int m = corr(c, x); if (m > best) best = m, cnt = 1, w = x; else if (m == best) ++cnt; }
		int want = cnt > 1 ? -1 : w;
		MC_CHECK(r == want, "%s soft %s: got %#x want %#x (%d candidates, best correlation %d attained %d times)", name().c_str(), show(c).c_str(), r, want, (int)cand.size(), best, cnt);
	}
	std::vector<int> some() const { std::vector<int> r; int W = 1 << K; for (int m : {0, 1, W - 1, W / 2, W / 3, W / 5 * 2 + 1}) if (m < W && std::find(r.begin(), r.end(), cw[m]) == r.end()) r.push_back(cw[m]); return r; }

	void enc()
	{
		for (int m = 0; m < 1 << K; ++m) {
			int8_t c[40]; memset(c, 77, sizeof c);
			int w = encode(m), v = encode(c + 2, m);
			++states; transitions += 2;
			MC_CHECK(w == cw[m], "%s encode(%d)=%#x want %#x", name().c_str(), m, w, cw[m]);
			MC_CHECK(v == cw[m], "%s encode(code,%d) returned %#x want %#x", name().c_str(), m, v, cw[m]);
			for (int i = -2; i < N + 4; ++i) { int want = i < 0 || i >= N ? 77 : cw[m] >> i & 1 ? -1 : 1; MC_CHECK(c[i + 2] == want, "%s encode(code,%d): symbol %d is %d want %d", name().c_str(), m, i, c[i + 2], want); }
		}
		++traces;
	}
	void hard_one(u32 w) { int r = hard((int)w); ++states; ++transitions; int want = nearest(w); MC_CHECK(r == want, "%s hard(%#x)=%#x want %#x", name().c_str(), w, r, want); }
	void hard_all()
	{
		if (N <= 23 || thorough) { for (u64 w = 0; w < 1ull << N; ++w) hard_one((u32)w); }
		else {
			for (int c : some()) for (u32 p = 0; p < 1u << P; ++p) hard_one((u32)c ^ p);   // every syndrome
			for (int c : some()) for (int e = 0; e <= T + 1; ++e) subsets(N, e, [&](const int *s) { u32 x = 0; for (int i = 0; i < e; ++i) x |= 1u << s[i]; hard_one((u32)c ^ x); });
			for (int m = 0; m < 1 << K; ++m) hard_one((u32)cw[m]);
		}
		++traces;
	}
	// equally reliable symbols: every error pattern up to the radius, every amplitude of a grid
	void soft_radius()
	{
		std::vector<int> base = K <= 7 ? cw : some();
		for (int amp : {1, 2, 63, 127, 128}) for (int c : base) for (int e = 0; e <= T; ++e)
			subsets(N, e, [&](const int *s) {
				u32 x = (u32)c; for (int i = 0; i < e; ++i) x ^= 1u << s[i];
				int8_t y[32]; bool skip = false;
				for (int i = 0; i < N; ++i) { int v = x >> i & 1 ? -amp : amp; if (v > 127) v = 127; y[i] = (int8_t)v; }
				int r = any(y);
				MC_CHECK(r == c, "%s amplitude %d codeword %#x hard decisions %#x: decoded %#x", name().c_str(), amp, c, x, r);
			});
		++traces;
	}
	void soft_small()   // full search codes
	{
		std::vector<int> al = N <= 3 ? std::vector<int>{-128, -127, -64, -3, -2, -1, 0, 1, 2, 3, 64, 126, 127} : N <= 5 ? std::vector<int>{-128, -127, -2, -1, 0, 1, 2, 127} : N <= 7 ? std::vector<int>{-128, -2, -1, 0, 1, 3, 127} : std::vector<int>();
		int8_t y[32];
		if (!al.empty()) tuples(N, (int)al.size(), [&](const int *t) { for (int i = 0; i < N; ++i) y[i] = (int8_t)al[t[i]]; ml(y); });
		else {
			tuples(N, 2, [&](const int *t) { for (int i = 0; i < N; ++i) y[i] = t[i] ? 1 : -1; ml(y); });
			if (N <= 12 || thorough) tuples(std::min(N, 15), 3, [&](const int *t) { for (int i = 0; i < N; ++i) y[i] = t[i % 15] - 1; ml(y); });
			for (int c : cw) for (int e = 0; e <= 3; ++e) subsets(N, e, [&](const int *s) { tuples(e, 5, [&](const int *v) {
				for (int i = 0; i < N; ++i) y[i] = c >> i & 1 ? -5 : 5;
				for (int i = 0; i < e; ++i) { const int d[] = {0, -1, 1, -5, -127}; y[s[i]] = (int8_t)((c >> s[i] & 1 ? -1 : 1) * d[v[i]]); }
				ml(y); }); });
		}
		++traces;
	}
	void soft_chase(int part, int parts)
	{
		std::vector<int> base = some(); if (N > 15) base.resize(std::min((size_t)2, base.size()));
		if (N > 15) base[0] = cw[(1 << K) - 1] , base.resize(1);
		const int E = N > 23 && !thorough ? 1 : N > 15 && !thorough ? 2 : T;
		int idx = 0;
		for (int c : base) subsets(N, T, [&](const int *u) {
			if (idx++ % parts != part) return;
			std::vector<int> rest; for (int i = 0; i < N; ++i) if (std::find(u, u + T, i) == u + T) rest.push_back(i);
			for (int fl = 0; fl < 1 << T; ++fl) for (int e = 0; e <= E; ++e) subsets((int)rest.size(), e, [&](const int *s) {
				u32 x = (u32)c; for (int i = 0; i < T; ++i) if (fl >> i & 1) x ^= 1u << u[i];
				for (int i = 0; i < e; ++i) x ^= 1u << rest[s[i]];
				for (int prof = 0; prof < (N > 15 ? 1 : 3); ++prof) {
					int8_t y[32];
					for (int i = 0; i < N; ++i) { int a = prof == 0 ? 9 : prof == 1 ? 5 + i : 120 - i; y[i] = (int8_t)(x >> i & 1 ? -a : a); }
					for (int i = 0; i < T; ++i) { int a = prof == 0 ? 1 + (i + fl) % 3 : prof == 1 ? 2 : 3 - i; y[u[i]] = (int8_t)(x >> u[i] & 1 ? -a : a); }
					chase(y);
				}
			});
		});
		++traces;
	}
	void soft_amplitudes()   // arbitrary amplitudes: every hard word near codewords with strongly uneven amplitudes, incl. zeros and extremes
	{
		int8_t y[32];
		const int amps[] = {0, 1, 4, 127};
		for (int c : some()) for (int e = 0; e <= T + 1 && e <= 3; ++e) subsets(N, e, [&](const int *s) {
			for (int big : {127, 4}) for (int lo : {0, 1, 2}) for (int rot = 0; rot < N; rot += (N > 15 ? 5 : 1)) {
				for (int i = 0; i < N; ++i) { int a = lo + 1 + (i + rot) % N; y[i] = (int8_t)(c >> i & 1 ? -a : a); }
				for (int i = 0; i < e; ++i) y[s[i]] = (int8_t)(c >> s[i] & 1 ? big : -big);
				chase(y);
			}
		});
		// full alphabet on a window of positions over a boundary codeword
		for (int c : some()) for (int w0 = 0; w0 < N; w0 += 3) tuples(5, 6, [&](const int *t) {
			const int d[] = {0, 1, -1, 127, -128, 9};
			for (int i = 0; i < N; ++i) y[i] = (int8_t)((c >> i & 1 ? -1 : 1) * (6 + i % 3));
			for (int i = 0; i < 5; ++i) y[(w0 + i * 3) % N] = (int8_t)d[t[i]];
			chase(y);
		});
		(void)amps; ++traces;
	}
};
template <int N_, int K_, int G_, int T_> struct Impl : Short {
	CODE::ShortBCHCodeEncoder<N_, K_, G_> *e; CODE::ShortBCHCodeDecoder<N_, K_, G_, T_> *d;
	Impl() : Short(N_, K_, G_, T_), e(new CODE::ShortBCHCodeEncoder<N_, K_, G_>), d(new CODE::ShortBCHCodeDecoder<N_, K_, G_, T_>) {}
	~Impl() { delete e; delete d; }
	int encode(int m) override { return (*e)(m); }
	int encode(int8_t *c, int m) override { return (*e)(c, m); }
	int hard(int w) override { return (*d)(w); }
	int soft(const int8_t *c) override { return (*d)(c); }
};
template <int N, int K, int G, int T> void reg()
{
	auto j = [](const std::string &n, std::function<void(Short &)> f) { job(fmt("(%d,%d) G=%#x T=%d %s", N, K, G, T, n.c_str()), [=] { Short *s = new Impl<N, K, G, T>; f(*s); delete s; }); };
	j("encode", [](Short &s) { s.enc(); });
	j("hard", [](Short &s) { s.hard_all(); });
	j("soft radius", [](Short &s) { s.soft_radius(); });
	if (K <= 4) j("soft full search", [](Short &s) { s.soft_small(); });
	else {
		const int parts = N > 15 ? 6 : 1;
		for (int p = 0; p < parts; ++p) j(fmt("soft chase %d", p), [=](Short &s) { s.soft_chase(p, parts); });
		j("soft amplitudes", [](Short &s) { s.soft_amplitudes(); });
	}
}
void mc_register()
{
#if PART == 0
	reg<3, 1, 7, 1>(); reg<5, 1, 31, 2>(); reg<7, 1, 127, 3>(); reg<7, 3, 0x17, 1>(); reg<7, 4, 0xb, 1>(); reg<7, 4, 0xd, 1>(); reg<15, 4, 0x9af, 3>(); reg<15, 2, 0x36db, 3>(); reg<6, 3, 0xb, 1>(); reg<9, 1, 511, 3>();
#elif PART == 1
	reg<15, 5, 0x537, 3>(); reg<15, 7, 0x1d1, 2>(); reg<15, 11, 0x13, 1>(); reg<15, 5, 0x765, 3>(); reg<14, 6, 0x1d1, 2>();
#elif PART == 2
	reg<23, 12, 0xae3, 3>(); reg<23, 12, 0xc75, 3>();
#elif PART == 3
	reg<31, 16, 0x8faf, 3>(); reg<31, 21, 0x769, 2>();
#endif
}
