// Ordered statistics decoding: oracle by definition, explorations shared by C27 and C28.
#pragma once
#include "mc.hh"
#include "osd.hh"
using namespace mc;
#if PART == 3
struct u128 {   // codes longer than 128 symbols: 704 bit words
	static const int Q = 11; u64 q[Q];
	u128(u64 v = 0) { memset(q, 0, sizeof q); q[0] = v; }
	u128 &operator^=(const u128 &o) { for (int i = 0; i < Q; ++i) q[i] ^= o.q[i]; return *this; }
	u128 &operator|=(const u128 &o) { for (int i = 0; i < Q; ++i) q[i] |= o.q[i]; return *this; }
	u128 operator^(const u128 &o) const { u128 r(*this); return r ^= o; }
	u128 operator&(u64 m) const { return u128(q[0] & m); }
	u128 operator<<(int n) const { u128 r; for (int i = 0; i < Q; ++i) { int s = i - n / 64; if (s >= 0) r.q[i] = q[s] << n % 64; if (s >= 1 && n % 64) r.q[i] |= q[s - 1] >> (64 - n % 64); } return r; }
	u128 operator>>(int n) const { u128 r; for (int i = 0; i < Q; ++i) { int s = i + n / 64; if (s < Q) r.q[i] = q[s] >> n % 64; if (s + 1 < Q && n % 64) r.q[i] |= q[s + 1] << (64 - n % 64); } return r; }
	bool operator==(const u128 &o) const { return !memcmp(q, o.q, sizeof q); }
	bool operator!=(const u128 &o) const { return !(*this == o); }
	bool operator<(const u128 &o) const { for (int i = Q - 1; i >= 0; --i) if (q[i] != o.q[i]) return q[i] < o.q[i]; return false; }
	bool operator>(const u128 &o) const { return o < *this; }
	explicit operator bool() const { for (u64 x : q) if (x) return true; return false; }
	explicit operator int() const { return (int)q[0]; }
};
static const int SMAX = 704;
#else
typedef unsigned __int128 u128;
static const int SMAX = 160;
#endif

struct Osd {
	int N, K, O, L;          // L = 0: plain decoder
	std::vector<int8_t> G; std::vector<u128> rows;
	Osd(int N, int K, int O, int L) : N(N), K(K), O(O), L(L), G(N * K), rows(K) {}
	virtual ~Osd() {}
	virtual bool dec(u8 *hard, const int8_t *soft, const int8_t *g) { return false; }
	virtual void list(int *rank, u8 *hard, const int8_t *soft, const int8_t *g) {}
	virtual void matrix(bool sys) {}
	std::string name() const { return fmt("N=%d K=%d O=%d L=%d", N, K, O, L); }
	std::string mat() const { std::string s; for (int k = 0; k < K && k < 12; ++k) { if (k) s += "/"; for (int i = 0; i < N; ++i) s += '0' + G[k * N + i]; } return s; }
	bool load(const std::vector<u128> &r)   // false when not of full rank
	{
		std::vector<u128> e; for (u128 x : r) { for (u128 y : e) if ((x ^ y) < x) x ^= y; if (!x) return false; e.push_back(x); std::sort(e.begin(), e.end(), [](u128 a, u128 b) { return a > b; }); }
		rows = r;
		for (int k = 0; k < K; ++k) for (int i = 0; i < N; ++i) G[k * N + i] = (int)(r[k] >> i & 1);
		return true;
	}
	bool isword(u128 w) const { auto e = red; for (u128 x : e) if ((w ^ x) < w) w ^= x; return !w; }
	std::vector<u128> red; bool fresh = false;
	void reduce() { red.clear(); for (u128 x : rows) { for (u128 y : red) if ((x ^ y) < x) x ^= y; red.push_back(x); std::sort(red.begin(), red.end(), [](u128 a, u128 b) { return a > b; }); } }
	std::vector<int> order(const int *rel) const { std::vector<int> o(N); for (int i = 0; i < N; ++i) o[i] = i; std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return rel[a] > rel[b]; }); return o; }
	// the rows of the generator that is the identity on the greedy basis of the given order
	struct Basis { std::vector<int> pos; std::vector<u128> gen; bool unique; };
	Basis basis(const std::vector<int> &o, const int *rel) const
	{
		Basis b; std::vector<u128> g = rows; b.unique = true;
		int last = -1; std::vector<int> cls; // positions of the current reliability class that were independent of the higher classes but not taken
		std::vector<int> spanAt; (void)last; (void)cls; (void)spanAt;
		size_t i = 0;
		while (i < o.size() && (int)b.pos.size() < K) {
			size_t e = i; while (e < o.size() && rel[o[e]] == rel[o[i]]) ++e;
			int before = (int)b.pos.size(); int indep = 0;
			for (size_t q = i; q < e; ++q) { bool in = false; for (int k = before; k < K; ++k) in |= (int)(g[k] >> o[q] & 1); indep += in; }
			for (size_t q = i; q < e && (int)b.pos.size() < K; ++q) {
				int k = (int)b.pos.size(), p = k; while (p < K && !(g[p] >> o[q] & 1)) ++p;
				if (p == K) continue;
				std::swap(g[k], g[p]); for (int r = 0; r < K; ++r) if (r != k && (g[r] >> o[q] & 1)) g[r] ^= g[k];
				b.pos.push_back(o[q]);
			}
			if (indep != (int)b.pos.size() - before) b.unique = false;
			i = e;
		}
		b.gen = g; return b;
	}
	int corr(u128 w, const int8_t *s) const { int m = 0; for (int i = 0; i < N; ++i) { int v = s[i] < -127 ? -127 : s[i]; m += w >> i & 1 ? -v : v; } return m; }
	struct Cand { int m; u128 w; };
	void examined(const Basis &b, const int8_t *s, std::vector<Cand> &out) const
	{
		out.clear();
		u128 w = 0; for (int k = 0; k < K; ++k) if (s[b.pos[k]] < 0) w ^= b.gen[k];
		rec(b, s, w, 0, O, out);
	}
	void rec(const Basis &b, const int8_t *s, u128 w, int from, int left, std::vector<Cand> &out) const
	{
		out.push_back({corr(w, s), w});
		if (left) for (int k = from; k < K; ++k) rec(b, s, w ^ b.gen[k], k + 1, left - 1, out);
	}
	std::string bad(const std::vector<Cand> &c, const u128 *got, const int *rank, bool flag, const int8_t *s) const
	{
		if (!L) {
			int best = INT32_MIN, cnt = 0; u128 w = 0; for (auto &x : c) { if (x.m > best) best = x.m, cnt = 1, w = x.w; else if (x.m == best) ++cnt; }
			if (flag != (cnt == 1)) return fmt("uniqueness flag %d but best correlation %d attained by %d of %d examined codewords", flag, best, cnt, (int)c.size());
			if (cnt == 1) return got[0] == w ? "" : fmt("not the best codeword (correlation %d want %d)", corr(got[0], s), best);
			for (auto &x : c) if (x.m == best && x.w == got[0]) return "";
			return fmt("output (correlation %d) is none of the %d best codewords (correlation %d)", corr(got[0], s), cnt, best);
		}
		std::vector<int> m; for (auto &x : c) m.push_back(x.m);
		std::partial_sort(m.begin(), m.begin() + L, m.end(), [](int a, int b) { return a > b; });
		int r = 0;
		for (int l = 0; l < L; ++l) {
			for (int k = 0; k < l; ++k) if (got[k] == got[l]) return fmt("entries %d and %d are the same codeword", k, l);
			int q = corr(got[l], s);
			if (q != m[l]) return fmt("entry %d has correlation %d, %d-th greatest is %d", l, q, l + 1, m[l]);
			if (l && m[l] != m[l - 1]) ++r;
			if (rank[l] != r) return fmt("rank[%d]=%d want %d", l, rank[l], r);
			bool in = false; for (auto &x : c) if (x.w == got[l]) { in = true; break; }
			if (!in) return fmt("entry %d was not examined", l);
		}
		return "";
	}
	std::vector<Cand> cand; std::vector<u8> buf;
	void one(const int8_t *s)
	{
		const int B = (N + 7) / 8, C = L ? L : 1;
		buf.assign(B * C + 8, 0xa5);
		std::vector<int> rank(C + 2, -7); int rel[SMAX]; bool flag = true;
		int8_t sc[SMAX]; memcpy(sc, s, N);
		if (L) list(rank.data() + 1, buf.data() + 4, s, G.data()); else flag = dec(buf.data() + 4, s, G.data());
		++states; ++transitions;
		MC_CHECK(!memcmp(sc, s, N), "soft input modified");
		std::vector<u128> got(C, 0);
		for (int i = 0; i < B * C + 8; ++i) {
			int o = i - 4; u8 own = 0;
			if (o >= 0 && o < B * C) for (int t = 0; t < 8; ++t) if (o % B * 8 + t < N) own |= 128 >> t;
			MC_CHECK(((buf[i] ^ 0xa5) & (u8)~own) == 0, "%s soft %s: byte %d outside the codeword bits changed", name().c_str(), str(s, N).c_str(), o);
		}
		for (int l = 0; l < C; ++l) for (int i = 0; i < N; ++i) if (buf[4 + l * B + i / 8] >> (7 - i % 8) & 1) got[l] |= (u128)1 << i;
		for (int l = 0; l < C; ++l) MC_CHECK(isword(got[l]), "%s G=%s soft %s: output %d is no codeword", name().c_str(), mat().c_str(), str(s, N).c_str(), l);
		for (int i = 0; i < N; ++i) rel[i] = std::min(127, std::abs((int)s[i]));
		auto o = order(rel); Basis b = basis(o, rel);
		examined(b, s, cand);
		std::string e = bad(cand, got.data(), rank.data() + 1, flag, s);
		if (e.size() && !b.unique && N <= 12) {   // some other choice among equally reliable positions?
			std::vector<int> q = o;
			std::function<bool(int)> perm = [&](int i) {
				if (i == N) { std::vector<Cand> c2; Basis b2 = basis(q, rel); examined(b2, s, c2); return bad(c2, got.data(), rank.data() + 1, flag, s).empty(); }
				for (int j = i; j < N && rel[q[j]] == rel[q[i]]; ++j) { std::swap(q[i], q[j]); if (perm(i + 1)) return true; std::swap(q[i], q[j]); }
				return false;
			};
			if (perm(0)) e.clear();
		} else if (e.size() && !b.unique && O < K) e.clear();
		MC_CHECK(e.empty(), "%s G=%s soft %s: %s", name().c_str(), mat().c_str(), str(s, N, 128).c_str(), e.c_str());
		if (states <= 2) MC_SAMPLE("%s soft %s", name().c_str(), str(s, N).c_str());
	}
	void words(const std::vector<int> &al) { int8_t s[SMAX]; reduce(); tuples(N, (int)al.size(), [&](const int *t) { for (int i = 0; i < N; ++i) s[i] = (int8_t)al[t[i]]; one(s); }); }
	// every matrix of full rank (up to the number given, spread evenly), every word over the alphabet
	void all_matrices(const std::vector<int> &al, u64 budget)
	{
		u64 total = 1ull << (N * K), per = 1; for (int i = 0; i < N; ++i) per *= al.size();
		per *= (u64)cost();
		u64 want = std::max<u64>(1, budget / per), step = std::max<u64>(1, total / want) | 1;
		for (u64 x = 0, n = 0; n < total && n * step < total; ++n, x += step) {
			u64 y = step == 1 ? x : (x * 0x9E3779B97F4A7C15ull >> 7) % total;
			std::vector<u128> r(K); for (int k = 0; k < K; ++k) r[k] = y >> (k * N) & ((1ull << N) - 1);
			if (load(r)) words(al);
		}
		++traces;
	}
	int cost() const { double c = 30; for (int w = 0; w <= O && w <= K; ++w) c += (double)binom(K, w); return 1 + (int)(c * N / 40); }
	// code of the BCH helper, both forms
	void bch(u64 budget)
	{
		for (int sys = 0; sys < 2; ++sys) {
			matrix(sys); for (int k = 0; k < K; ++k) { rows[k] = 0; for (int i = 0; i < N; ++i) if (G[k * N + i]) rows[k] |= (u128)1 << i; }
			reduce(); near(budget);
		}
		++traces;
	}
	// deviations of up to three positions from codewords, flat and uneven amplitudes
	void near(u64 budget)
	{
		u64 per = (u64)cost() * 3, n = budget / per; int8_t s[SMAX];
		std::vector<u128> base; base.push_back(0); base.push_back(rows[K - 1]); u128 a = 0; for (auto r : rows) a ^= r; base.push_back(a); u128 c = 0; for (int k = 0; k < K; k += 2) c ^= rows[k]; base.push_back(c);
		auto go = [&](u128 w, int prof, int e, const int *p, const int *v) {
			for (int i = 0; i < N; ++i) { int m = prof == 0 ? 5 : prof == 1 ? 1 + i % 127 : prof == 2 ? 127 - i % 127 : 1 + i * 37 % 60; s[i] = (int8_t)(w >> i & 1 ? -m : m); }
			const int d[] = {0, -1, -127, -3, 127};
			for (int i = 0; i < e; ++i) { int m = w >> p[i] & 1 ? -1 : 1; s[p[i]] = (int8_t)(m * d[v[i]]); }
			one(s);
		};
		for (int e = 0; e <= 3; ++e) {
			u64 cnt = base.size() * 4; for (int i = 0; i < e; ++i) cnt *= 5; cnt *= binom(N, e);
			int st = 1; while (cnt / st > n) ++st;    // stride over the position sets when there are too many
			u64 k = 0;
			for (u128 w : base) subsets(N, e, [&](const int *p) { if (k++ % st) return; for (int prof = 0; prof < 4; ++prof) tuples(e, 5, [&](const int *v) { go(w, prof, e, p, v); }); });
		}
		// hard words far from every codeword
		for (int x = 0; x < 64; ++x) for (int prof = 0; prof < 4; ++prof) { for (int i = 0; i < N; ++i) { int m = prof == 0 ? 1 : prof == 1 ? 1 + i % 127 : prof == 2 ? 127 - i % 127 : 1 + i * 37 % 60; s[i] = (int8_t)((((i * i * (x + 3) + x * i) >> 2) + x) & 1 ? -m : m); } one(s); }
	}
	// long codes: structured generators whose leading columns may be dependent
	void wide(u64 budget)
	{
		for (int pat = 0; pat < 3; ++pat) {
			std::vector<u128> r(K);
			for (int k = 0; k < K; ++k) { r[k] = 0; for (int i = 0; i < N; ++i) { int b = pat == 0 ? (i < K ? i == k : (i * (k + 3) + (i * i >> 3) * (k + 1)) >> 2 & 1) : pat == 1 ? (i >= N - K ? N - 1 - i == k : ((i >> 2) * (2 * k + 5) >> 3 ^ i * k) & 1) : (i % K == k || (i / 3 + k) % 5 == 0); if (b) r[k] |= (u128)1 << i; } }
			if (!load(r)) { MC_SAMPLE("%s pattern %d has not full rank", name().c_str(), pat); continue; }
			reduce(); near(budget);
		}
		++traces;
	}
	// every set of flipped basis positions is made the best one in turn: the parity part repeats the basis bits R times and votes for the flips
	void planted()
	{
		const int R = N / K - 1; int8_t s[SMAX];
		for (int mix = 0; mix < 3; ++mix) {
			std::vector<u128> r(K); for (int k = 0; k < K; ++k) { r[k] = (u128)1 << k; for (int q = 0; q < R; ++q) { int t = mix == 0 ? k : mix == 1 ? (k * (q + 1)) % K : (k + q) % K; if (mix == 1 && std::gcd(q + 1, K) != 1) t = k; r[k] |= (u128)1 << (K + q * K + t); } }
			if (!load(r)) continue;
			reduce();
			for (u32 base = 0; base < 1u << K; base += (1u << K) / 4 - 1) for (int shape = 0; shape < 4; ++shape) for (u32 F = 0; F < 1u << K; ++F) {
				u128 w = 0; for (int k = 0; k < K; ++k) if ((base ^ F) >> k & 1) w ^= rows[k];
				for (int i = 0; i < N; ++i) {
					int b = i < K ? base >> i & 1 : (int)(w >> i & 1);
					int m = i >= K ? 20 + (shape == 3 ? i % 3 : 0) : shape == 0 ? 30 : shape == 1 ? 30 + i : shape == 2 ? 30 + K - i : 30 + i * 5 % K;
					s[i] = (int8_t)(b ? -m : m);
				}
				one(s);
			}
		}
		++traces;
	}
	void unit()   // repetition-like and unit matrices with heavy right part: correlations far below zero
	{
		for (int pat = 0; pat < 4; ++pat) {
			std::vector<u128> r(K); for (int k = 0; k < K; ++k) { r[k] = (u128)1 << k; for (int i = K; i < N; ++i) if (pat == 0 ? i % K == k : pat == 1 ? true : pat == 2 ? (i + k) % 2 : (i * (k + 1)) % 3 == 0) r[k] |= (u128)1 << i; }
			if (!load(r)) continue;
			int8_t s[SMAX]; reduce();
			for (int a : {1, 2, 127}) for (int b : {0, 1, 2, 126}) for (u32 sg = 0; sg < 1u << std::min(N, 9); ++sg) { for (int i = 0; i < N; ++i) { int m = i < K ? a : std::min(a, b); s[i] = (int8_t)(sg >> (i % 9) & 1 ? -m : m); } one(s); }
		}
		++traces;
	}
};
template <int N_, int K_, int O_, int L_> struct OsdI : Osd {
	CODE::OrderedStatisticsListDecoder<N_, K_, O_, L_> *d;
	OsdI() : Osd(N_, K_, O_, L_), d(new CODE::OrderedStatisticsListDecoder<N_, K_, O_, L_>) {} ~OsdI() { delete d; }
	void list(int *rank, u8 *hard, const int8_t *soft, const int8_t *g) override { (*d)(rank, hard, soft, g); }
	void matrix(bool sys) override;
};
template <int N_, int K_, int O_> struct OsdI<N_, K_, O_, 0> : Osd {
	CODE::OrderedStatisticsDecoder<N_, K_, O_> *d;
	OsdI() : Osd(N_, K_, O_, 0), d(new CODE::OrderedStatisticsDecoder<N_, K_, O_>) {} ~OsdI() { delete d; }
	bool dec(u8 *hard, const int8_t *soft, const int8_t *g) override { return (*d)(hard, soft, g); }
	void matrix(bool sys) override;
};
template <int N_, int K_> void bchmat(int8_t *g, bool sys)
{
	typedef CODE::BoseChaudhuriHocquenghemGenerator<N_, K_> B;
	if constexpr (N_ == 7 && K_ == 4) B::matrix(g, sys, {0b1011});
	else if constexpr (N_ == 15 && K_ == 11) B::matrix(g, sys, {0b10011});
	else if constexpr (N_ == 15 && K_ == 7) B::matrix(g, sys, {0b10011, 0b11111});
	else if constexpr (N_ == 15 && K_ == 5) B::matrix(g, sys, {0b10011, 0b11111, 0b111});
	else if constexpr (N_ == 31 && K_ == 16) B::matrix(g, sys, {0b100101, 0b111101, 0b110111});
	else if constexpr (N_ == 31 && K_ == 21) B::matrix(g, sys, {0b100101, 0b111101});
	else if constexpr (N_ == 63 && K_ == 45) B::matrix(g, sys, {0b1000011, 0b1010111, 0b1100111});
	else if constexpr (N_ == 63 && K_ == 16) B::matrix(g, sys, {0b1000011, 0b1010111, 0b1100111, 0b1001001, 0b1101, 0b1101101, 0b1011011, 0b1110101, 0b111});
	else if constexpr (N_ == 127 && K_ == 64) B::matrix(g, sys, {0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011});
	else if constexpr (N_ == 255 && K_ == 239) B::matrix(g, sys, {0b100011101, 0b101110111});
	else if constexpr (N_ == 511 && K_ == 502) B::matrix(g, sys, {0b1000010001});
	else abort();
}
template <int N_, int K_, int O_, int L_> void OsdI<N_, K_, O_, L_>::matrix(bool sys) { bchmat<N_, K_>(G.data(), sys); }
template <int N_, int K_, int O_> void OsdI<N_, K_, O_, 0>::matrix(bool sys) { bchmat<N_, K_>(G.data(), sys); }

typedef std::vector<int> AL;
template <int N, int K, int O, int L> void go(const std::string &n, std::function<void(Osd &)> f) { job(fmt("N=%d K=%d O=%d L=%d %s", N, K, O, L, n.c_str()), [=] { Osd *o = new OsdI<N, K, O, L>; f(*o); delete o; }); }
template <int N, int K, int O, int L = 0> void mats(std::vector<AL> als)
{
	const u64 B = thorough ? 60000000 : 12000000;
	for (size_t i = 0; i < als.size(); ++i) { AL al = als[i]; go<N, K, O, L>(fmt("matrices x words %d", (int)i), [=](Osd &o) { o.all_matrices(al, B); }); }
	go<N, K, O, L>("structured matrices", [](Osd &o) { o.unit(); });
}
template <int N, int K, int O, int L = 0> void plant() { go<N, K, O, L>("planted flips", [](Osd &o) { o.planted(); }); }
template <int N, int K, int O, int L = 0> void bchs(u64 B = 9000000) { if (thorough) B *= 20; go<N, K, O, L>("bch", [=](Osd &o) { o.bch(B); }); }
template <int N, int K, int O, int L = 0> void wides(u64 B = 1500000) { if (thorough) B *= 20; go<N, K, O, L>("wide", [=](Osd &o) { o.wide(B); }); }
static const AL a8 = {-128, -127, -2, -1, 0, 1, 2, 127}, a5 = {-2, -1, 0, 1, 2}, a4 = {-3, -1, 2, 4}, a3 = {-1, 0, 1}, a2 = {-1, 1}, ax = {-128, -126, 127}, a4b = {-1, 1, -2, 2};
