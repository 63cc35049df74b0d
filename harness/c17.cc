// C17: Hadamard and simplex encoders/decoders against correlation with every codeword.
#include "mc.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
using namespace mc;

struct Lin {
	int K, N, W; bool had; std::vector<int8_t> cw;
	Lin(int K, bool had) : K(K), N(had ? 1 << (K - 1) : (1 << K) - 1), W(1 << K), had(had), cw((size_t)W * N)
	{
		for (int m = 0; m < W; ++m) for (int i = 0; i < N; ++i) cw[(size_t)m * N + i] = __builtin_parity(m & (had ? i | N : i + 1)) ? -1 : 1;
	}
	virtual ~Lin() {}
	virtual void encode(int8_t *c, int m) = 0; virtual int decode(const int8_t *c) = 0;
	std::vector<int8_t> buf; 
	void one(const int8_t *c)
	{
		if (buf.size() != (size_t)N + 16) buf.assign(N + 16, 55);
		memcpy(buf.data() + 8, c, N);
		int r = decode(buf.data() + 8);
		++states; ++transitions;
		int best = INT32_MIN, cnt = 0, w = -1;
		for (int m = 0; m < W; ++m) {
			const int8_t *x = &cw[(size_t)m * N]; int s = 0;
			for (int i = 0; i < N; ++i) s += x[i] * c[i];
			if (s > best) best = s, cnt = 1, w = m; else if (s == best) ++cnt;
		}
		if (cnt > 1) { MC_CHECK(r < 0, "%s K=%d soft %s: returned %d though the best correlation %d is shared by %d messages", had ? "Hadamard" : "simplex", K, str(c, N).c_str(), r, best, cnt); }
		else MC_CHECK(r == w, "%s K=%d soft %s: returned %d want %d (correlation %d)", had ? "Hadamard" : "simplex", K, str(c, N).c_str(), r, w, best);
		MC_CHECK(!memcmp(buf.data() + 8, c, N), "input modified");
	}
	void enc()
	{
		std::vector<int8_t> c(N + 8);
		for (int m = 0; m < W; ++m) {
			std::fill(c.begin(), c.end(), 33);
			encode(c.data() + 4, m);
			++states; ++transitions;
			for (int i = -4; i < N + 4; ++i) { int want = i < 0 || i >= N ? 33 : cw[(size_t)m * N + i]; MC_CHECK(c[i + 4] == want, "%s K=%d encode(%d): symbol %d is %d want %d", had ? "Hadamard" : "simplex", K, m, i, c[i + 4], want); }
		}
		++traces;
	}
	void alphabet(const std::vector<int> &al)
	{
		int8_t c[32];
		tuples(N, (int)al.size(), [&](const int *t) { for (int i = 0; i < N; ++i) c[i] = (int8_t)al[t[i]]; one(c); });
		++traces;
	}
	void clean()
	{
		std::vector<int8_t> c(N);
		for (int m = 0; m < W; m += (K > 9 ? W / 61 : 1)) for (int amp : {1, 2, 64, 127, 128}) {
			for (int i = 0; i < N; ++i) { int v = amp * cw[(size_t)m * N + i]; c[i] = v > 127 ? 127 : v; }
			one(c.data());
		}
		++traces;
	}
	// every deviation of up to d positions from codewords
	void near(int d, int msgs)
	{
		std::vector<int8_t> c(N);
		for (int k = 0; k < msgs; ++k) {
			int m = msgs >= W ? k : (int)((long long)k * (W - 1) / std::max(1, msgs - 1));
			if (m >= W) break;
			for (int e = 0; e <= d; ++e) subsets(N, e, [&](const int *s) { tuples(e, 4, [&](const int *t) {
				for (int i = 0; i < N; ++i) c[i] = 3 * cw[(size_t)m * N + i];
				const int v[] = {0, -3, -127, 127};
				for (int i = 0; i < e; ++i) c[s[i]] = (int8_t)(v[t[i]] * cw[(size_t)m * N + s[i]]);
				one(c.data());
			}); });
		}
		++traces;
	}
	// halfway words: mixtures of two codewords (ties) and their one-position neighbours
	void ties()
	{
		std::vector<int8_t> c(N);
		int step = std::max(1, W / (K > 6 ? 12 : 32));
		for (int a = 0; a < W; a += step) for (int b = 0; b < W; b += step) for (int mode = 0; mode < 3; ++mode) {
			for (int i = 0; i < N; ++i) { int x = cw[(size_t)a * N + i], y = cw[(size_t)b * N + i]; c[i] = mode == 0 ? x + y : mode == 1 ? (i & 1 ? x : y) : (x == y ? x : (i & 1 ? 1 : -1)); }
			one(c.data());
			for (int i = 0; i < N; i += std::max(1, N / 16)) { int8_t o = c[i]; c[i] += 1; one(c.data()); c[i] = o - 1; one(c.data()); c[i] = o; }
		}
		++traces;
	}
};
template <int K_> struct Had : Lin { CODE::HadamardEncoder<K_> *e; CODE::HadamardDecoder<K_> *d; Had() : Lin(K_, true), e(new CODE::HadamardEncoder<K_>), d(new CODE::HadamardDecoder<K_>) {} ~Had() { delete e; delete d; }
	void encode(int8_t *c, int m) override { (*e)(c, m); } int decode(const int8_t *c) override { return (*d)(c); } };
template <int K_> struct Sim : Lin { CODE::SimplexEncoder<K_> *e; CODE::SimplexDecoder<K_> *d; Sim() : Lin(K_, false), e(new CODE::SimplexEncoder<K_>), d(new CODE::SimplexDecoder<K_>) {} ~Sim() { delete e; delete d; }
	void encode(int8_t *c, int m) override { (*e)(c, m); } int decode(const int8_t *c) override { return (*d)(c); } };

// large dimensions: structured messages and words, correlations by the Walsh recursion (itself compared with the definition)
static std::vector<long long> correl(bool had, int K, const int8_t *c)
{
	int W = 1 << K, N = had ? W / 2 : W - 1; std::vector<long long> s(W, 0);
	for (int i = 0; i < N; ++i) s[had ? i | N : i + 1] = c[i]; // column of symbol i
	for (int h = 1; h < W; h *= 2) for (int i = 0; i < W; ++i) if (!(i & h)) { long long a = s[i], b = s[i | h]; s[i] = a + b; s[i | h] = a - b; }
	return s;
}
template <typename C> void huge_dim(int K, bool had)
{
	int W = 1 << K, N = had ? W / 2 : W - 1; const char *t = had ? "Hadamard" : "simplex";
	std::unique_ptr<typename C::E> e(new typename C::E); std::unique_ptr<typename C::D> d(new typename C::D);
	std::vector<int> ms = {0, W - 1, W / 3, W / 5 * 2, 1 | W / 2}; for (int b = 0; b < K; ++b) { ms.push_back(1 << b); ms.push_back(W - 1 - (1 << b)); ms.push_back((2 << b) - 1); }
	std::vector<int8_t> x(N + 16, 33), y(N + 16, 44), z(N);
	auto sym = [&](int m, int i) { return __builtin_parity(m & (had ? i | N : i + 1)) ? -1 : 1; };
	auto dec = [&](const char *what, int m) {
		++states; ++transitions; memcpy(z.data(), y.data() + 8, N); int r = (*d)(y.data() + 8);
		MC_CHECK(!memcmp(z.data(), y.data() + 8, N), "%s K=%d: input modified", t, K);
		std::vector<long long> c = correl(had, K, z.data()); int best = 0, cnt = 0; for (int i = 0; i < W; ++i) if (c[i] > c[best]) best = i; for (int i = 0; i < W; ++i) cnt += c[i] == c[best];
		MC_CHECK(cnt > 1 ? r < 0 : r == best, "%s K=%d %s of message %d: returned %d, best is %d (%lld), shared by %d", t, K, what, m, r, best, c[best], cnt);
	};
	for (int m : ms) {
		std::fill(x.begin(), x.end(), 33); (*e)(x.data() + 8, m); ++states; ++transitions;
		for (int i = -8; i < N + 8; ++i) { int w = i < 0 || i >= N ? 33 : sym(m, i); MC_CHECK(x[i + 8] == w, "%s K=%d encode(%d): symbol %d is %d want %d", t, K, m, i, x[i + 8], w); }
		for (int amp : {1, 127, 128}) { for (int i = 0; i < N; ++i) y[i + 8] = (int8_t)std::min(127, amp * sym(m, i)); dec("clean word", m); }
		for (int k = 0; k < 3; ++k) { int o = ms[(m + 3 + k * 7) % ms.size()]; for (int i = 0; i < N; ++i) y[i + 8] = (int8_t)(k == 0 ? 60 * sym(m, i) + 59 * sym(o, i) : k == 1 ? sym(m, i) + sym(o, i) : (i & 1 ? sym(m, i) : 3 * sym(o, i))); dec("mixed word", m); }
		for (int i = 0; i < N; ++i) y[i + 8] = (int8_t)(i % 5 < 3 ? 2 * sym(m, i) : -sym(m, i)); dec("two in five wrong", m);
	}
	++traces; MC_SAMPLE("%s K=%d: %d messages encoded, 7 words decoded for each", t, K, (int)ms.size());
}
template <int K> struct HadT { typedef CODE::HadamardEncoder<K> E; typedef CODE::HadamardDecoder<K> D; };
template <int K> struct SimT { typedef CODE::SimplexEncoder<K> E; typedef CODE::SimplexDecoder<K> D; };
static void correl_check() { for (int h = 0; h < 2; ++h) for (int K = 2; K <= 8; ++K) { int W = 1 << K, N = h ? W / 2 : W - 1; std::vector<int8_t> c(N); for (int k = 0; k < 5; ++k) { Fill f(K * 10 + k); for (auto &v : c) v = (int8_t)f(); auto s = correl(h, K, c.data()); for (int m = 0; m < W; ++m) { long long w = 0; for (int i = 0; i < N; ++i) w += c[i] * (__builtin_parity(m & (h ? i | N : i + 1)) ? -1 : 1); MC_CHECK(w == s[m], "oracle recursion K=%d", K); } ++states; } } ++traces; }
static std::vector<int> rng(int a, int b, int s = 1) { std::vector<int> v; for (; a <= b; a += s) v.push_back(a); return v; }
template <typename C> void reg(const char *t, int K)
{
	auto j = [=](const std::string &n, std::function<void(Lin &)> f) { job(fmt("%s K=%d %s", t, K, n.c_str()), [=] { Lin *l = new C; f(*l); delete l; }); };
	int N = C().N;
	j("encode", [](Lin &l) { l.enc(); });
	j("clean", [](Lin &l) { l.clean(); });
	if (N == 1) j("all inputs", [](Lin &l) { l.alphabet(rng(-128, 127)); });
	else if (N == 2) j("all inputs", [](Lin &l) { l.alphabet(rng(-128, 127)); });
	else if (N == 3) { j("all inputs (step 2)", [](Lin &l) { l.alphabet(rng(-128, 127, 2)); }); j("small inputs", [](Lin &l) { l.alphabet(rng(-40, 40)); }); }
	else if (N == 4) { j("small inputs", [](Lin &l) { l.alphabet(rng(-16, 16)); }); j("extremes", [](Lin &l) { std::vector<int> v = rng(-128, 127, 15); v.push_back(127); v.push_back(0); v.push_back(-127); l.alphabet(v); }); }
	else if (N == 7 || N == 8) { j("alphabet 5", [](Lin &l) { l.alphabet({-2, -1, 0, 1, 2}); }); j("extremes", [](Lin &l) { l.alphabet({-128, -1, 0, 127}); }); if (N == 7) j("alphabet 7", [](Lin &l) { l.alphabet({-128, -3, -1, 0, 1, 2, 127}); }); }
	else if (N == 15 || N == 16) { j("binary", [](Lin &l) { l.alphabet({-1, 1}); }); j("binary extremes", [](Lin &l) { l.alphabet({-128, 127}); }); j("near", [](Lin &l) { l.near(3, 8); }); if (thorough) j("ternary", [](Lin &l) { l.alphabet({-1, 0, 1}); }); }
	else if (N <= 64) j("near", [=](Lin &l) { l.near(N <= 32 ? 3 : 2, 6); });
	else j("near", [=](Lin &l) { l.near(1, 6); });
	j("ties", [](Lin &l) { l.ties(); });
}
void mc_register()
{
#if PART == 0
	reg<Had<2>>("Hadamard", 2); reg<Had<3>>("Hadamard", 3); reg<Had<4>>("Hadamard", 4); reg<Had<5>>("Hadamard", 5); reg<Had<6>>("Hadamard", 6); reg<Had<7>>("Hadamard", 7); reg<Had<8>>("Hadamard", 8); reg<Had<9>>("Hadamard", 9); reg<Had<11>>("Hadamard", 11);
	job("oracle recursion", correl_check); job("Hadamard K=12 large", []() { huge_dim<HadT<12>>(12, true); }); job("Hadamard K=15 large", []() { huge_dim<HadT<15>>(15, true); }); job("Hadamard K=17 large", []() { huge_dim<HadT<17>>(17, true); }); job("Hadamard K=18 large", []() { huge_dim<HadT<18>>(18, true); });
#elif PART == 1
	reg<Sim<1>>("simplex", 1); reg<Sim<2>>("simplex", 2); reg<Sim<3>>("simplex", 3); reg<Sim<4>>("simplex", 4); reg<Sim<5>>("simplex", 5); reg<Sim<6>>("simplex", 6); reg<Sim<7>>("simplex", 7); reg<Sim<8>>("simplex", 8); reg<Sim<10>>("simplex", 10);
	job("simplex K=11 large", []() { huge_dim<SimT<11>>(11, false); }); job("simplex K=14 large", []() { huge_dim<SimT<14>>(14, false); }); job("simplex K=16 large", []() { huge_dim<SimT<16>>(16, false); }); job("simplex K=17 large", []() { huge_dim<SimT<17>>(17, false); });
#endif
}
