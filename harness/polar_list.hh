// Shared by C22 and C23: list decoders against plain list decoding on explicit path vectors.
#pragma once
#include "polar.hh"
typedef std::vector<int> Soft;
typedef long long ll;
// plain successive cancellation list decoding; par: parity rule (stride < 0: none)
struct SCL {
	const Frozen *f; int L, stride; ll lim = 0; bool und, sat; std::vector<ll> met; std::vector<Bits> msg; std::vector<u8> parity; int left;
	typedef std::vector<std::vector<ll>> A;
	void start(const Soft &y, const Frozen &fr, int L_, int stride_, int first)
	{
		f = &fr; L = L_; stride = stride_; und = sat = false; met.assign(1, 0); msg.assign(1, Bits()); parity.assign(1, 0); left = first;
		A a(1, std::vector<ll>(y.begin(), y.end())); std::vector<Bits> b; std::vector<int> par; node(a, 0, b, par);
	}
	void node(const A &a, int at, std::vector<Bits> &beta, std::vector<int> &par)
	{
		int n = (int)a[0].size(), P = (int)a.size();
		if (n == 1) {
			par.clear(); beta.clear();
			if (fz(*f, at)) { for (int p = 0; p < P; ++p) { met[p] += std::max<ll>(0, -a[p][0]); par.push_back(p); beta.push_back(Bits(1, 0)); } return; }
			if (stride >= 0 && !left) {
				for (int p = 0; p < P; ++p) { int b = parity[p]; met[p] += std::max<ll>(0, b ? a[p][0] : -a[p][0]); par.push_back(p); beta.push_back(Bits(1, b)); parity[p] = 0; }
				left = stride; return;
			}
			if (stride >= 0) --left;
			std::vector<std::pair<ll, int>> c; for (int p = 0; p < P; ++p) for (int b = 0; b < 2; ++b) c.push_back({met[p] + std::max<ll>(0, b ? a[p][0] : -a[p][0]), 2 * p + b});
			std::sort(c.begin(), c.end());
			int keep = std::min((int)c.size(), L);
			if ((int)c.size() > L && c[L - 1].first == c[L].first) und = true;
			std::vector<ll> m2; std::vector<Bits> u2; std::vector<u8> p2;
			for (int k = 0; k < keep; ++k) { int p = c[k].second / 2, b = c[k].second & 1; m2.push_back(c[k].first); u2.push_back(msg[p]); u2.back().push_back(b); p2.push_back(parity[p] ^ b); par.push_back(p); beta.push_back(Bits(1, b)); }
			met.swap(m2); msg.swap(u2); parity.swap(p2); return;
		}
		int h = n / 2; A x(P, std::vector<ll>(h)); std::vector<Bits> bl, br; std::vector<int> pl, pr;
		for (int p = 0; p < P; ++p) for (int i = 0; i < h; ++i) x[p][i] = SC::fmin_(a[p][i], a[p][i + h]);
		node(x, at, bl, pl);
		x.assign(pl.size(), std::vector<ll>(h));
		for (size_t p = 0; p < pl.size(); ++p) for (int i = 0; i < h; ++i) x[p][i] = (bl[p][i] ? -a[pl[p]][i] : a[pl[p]][i]) + a[pl[p]][i + h], sat |= lim && std::abs(x[p][i]) > lim;
		node(x, at + h, br, pr);
		par.clear(); beta.clear();
		for (size_t p = 0; p < pr.size(); ++p) { par.push_back(pl[pr[p]]); Bits b(n); for (int i = 0; i < h; ++i) b[i] = bl[pr[p]][i] ^ br[p][i], b[i + h] = br[p][i]; beta.push_back(b); }
	}
};
struct ListDec {
	int L, vmax; bool par; SCL o; u64 determined = 0, undetermined = 0, saturated = 0;   // vmax: sum of amplitudes that cannot saturate
	ListDec(int L, int vmax, bool par) : L(L), vmax(vmax), par(par) {}
	virtual ~ListDec() {}
	virtual void run(const Soft &y, const Frozen &f, int level, int stride, int first, std::vector<int> &rank, std::vector<Bits> &msg, int K, bool norank) = 0;
	int count(const Frozen &f, int N, int stride, int first) { return par ? parity_count(f, N, stride, first) : info(f, N); }
	Bits code(const Bits &m, const Frozen &f, int N, int stride, int first) { Bits u; if (par) parity_place(u, m, f, N, stride, first); else u = place(m, f, N); return transform(u); }
	std::vector<int> rank; std::vector<Bits> msg;
	std::string ctx(const Soft &y, const Frozen &f, int level, int stride, int first) { std::string s = fmt("L=%d level %d frozen %s", L, level, str(f).c_str()); if (par) s += fmt(" stride %d first %d", stride, first); return s + " soft " + str(y); }
	// the last position, the best of all channels, is free in every code considered
	bool one(const Soft &y, Frozen f, int level, int stride = -1, int first = 0)
	{
		f.back() &= 0x7fffffff; int N = 1 << level, K = count(f, N, stride, first); if (K < 1 || (K < 20 && 1 << K < L)) return false;
		o.lim = vmax == 127 ? 127 : 0; o.start(y, f, L, par ? stride : -1, first); ll sum = 0; for (int v : y) sum += std::abs(v); if (o.sat || (o.und && o.lim && sum > o.lim)) { ++saturated; return false; }
		++states; rank.assign(L, -1); msg.assign(L, Bits(K, 9));
		run(y, f, level, stride, first, rank, msg, K, false); ++transitions;
		std::vector<ll> m(L);
		for (int l = 0; l < L; ++l) {
			Bits x = code(msg[l], f, N, stride, first); ll s = 0; for (int i = 0; i < N; ++i) s += std::max(0, x[i] ? y[i] : -y[i]); m[l] = s;
			for (int k = 0; k < l; ++k) MC_CHECK(msg[k] != msg[l], "%s: lanes %d and %d hold the same message %s", ctx(y, f, level, stride, first).c_str(), k, l, str(msg[l]).c_str());
			if (l) MC_CHECK(m[l] >= m[l - 1], "%s: lane %d has metric %lld after %lld", ctx(y, f, level, stride, first).c_str(), l, m[l], m[l - 1]);
			int want = l ? rank[l - 1] + (m[l] != m[l - 1]) : 0;
			MC_CHECK(rank[l] == want, "%s: rank of lane %d is %d want %d (metrics %s)", ctx(y, f, level, stride, first).c_str(), l, rank[l], want, str(m).c_str());
		}
		if (o.und) { ++undetermined; return true; }
		++determined;
		std::vector<ll> w = o.met; std::sort(w.begin(), w.end());
		for (int l = 0; l < L; ++l) MC_CHECK(w[l] == m[l], "%s: metrics %s, plain list decoding has %s", ctx(y, f, level, stride, first).c_str(), str(m).c_str(), str(w).c_str());
		std::vector<Bits> a = msg, b = o.msg; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
		for (int l = 0; l < L; ++l) MC_CHECK(a[l] == b[l], "%s: survivor %s, plain list decoding has %s", ctx(y, f, level, stride, first).c_str(), str(a[l]).c_str(), str(b[l]).c_str());
		return true;
	}
	void clean(const Bits &m, int amp, const Frozen &f, int level, int stride = -1, int first = 0, bool norank = false)
	{
		int N = 1 << level, K = (int)m.size(); if (K < 20 && 1 << K < L) return;
		Bits x = code(m, f, N, stride, first); Soft y(N); for (int i = 0; i < N; ++i) y[i] = x[i] ? -amp : amp;
		++states; rank.assign(L, -1); msg.assign(L, Bits(K, 9));
		run(y, f, level, stride, first, rank, msg, K, norank); ++transitions;
		MC_CHECK(msg[0] == m, "%s: undistorted codeword of %s decoded to %s", ctx(y, f, level, stride, first).c_str(), str(m).c_str(), str(msg[0]).c_str());
		if (!norank && L > 1) MC_CHECK(rank[0] == 0 && rank[1] == 1, "%s: undistorted codeword ranks %d %d", ctx(y, f, level, stride, first).c_str(), rank[0], rank[1]);
	}
	Soft word(int N, int s)
	{
		Fill r(s + 1); Soft y(N); int a = vmax == 127 ? 5 + s / 4 % 3 * 5 : vmax / N, mode = s % 4; if (a < 1) abort();
		for (auto &v : y) v = mode == 0 ? (int)r(2 * a + 1) - a : (r(2) ? 1 : -1) * (mode == 1 ? 1 + (int)r(a) : mode == 2 ? a - (int)r((a + 1) / 2) : 1 + (int)(r(a) * r(a) / std::max(1, a)));
		return y;
	}
	Soft near(int N, const Frozen &f, int s, int stride, int first)
	{
		Fill r(s + 77); int K = count(f, N, stride, first); Bits m(K); for (auto &b : m) b = r(2); Bits x = code(m, f, N, stride, first); Soft y(N); int a = vmax / N, lo = std::max(1, a / 2);
		for (int i = 0; i < N; ++i) y[i] = (x[i] ? -1 : 1) * (lo + (int)r(a - lo + 1));
		for (int k = 0; k < 1 + s % 6; ++k) { int i = (int)r(N); y[i] = r(2) ? -y[i] : vmax == 127 ? (int)r(3) - 1 : (int)r(41) - 20; }
		return y;
	}
	void some(const Frozen &f, int level, int words, int seed, int stride = -1, int first = 0) { for (int s = 0; s < words; ++s) one(s & 1 ? near(1 << level, f, seed + s, stride, first) : word(1 << level, seed + s / 2), f, level, stride, first); }
	void done(bool need = true) { ++traces; MC_SAMPLE("survivors determined for %llu words, tie at the cut for %llu, saturation for %llu", (unsigned long long)determined, (unsigned long long)undetermined, (unsigned long long)saturated); MC_CHECK(!need || vmax == 127 || determined * 10 > undetermined, "hardly any word has determined survivors"); }
	void windows(u32 bg, int sz, int words) { int seed = 0; for (int o = 0; o < 32; o += sz) for (u64 p = 0; p < 1ull << sz; ++p) { u32 mask = (u32)((1ull << sz) - 1) << o; some({(bg & ~mask) | (u32)p << o}, 5, words, seed += 8); } done(); }
	void alphabet(u32 w, int o, int step, int n, std::vector<int> al, int seed, int stride = -1, int first = 0)
	{
		Soft base = near(32, {w}, seed, stride, first);
		tuples(n, (int)al.size(), [&](const int *t) { Soft y = base; for (int i = 0; i < n; ++i) y[(o + i * step) % 32] = al[t[i]] * (vmax == 127 ? 1 : 23 + 17 * i); one(y, {w}, 5, stride, first); }); done(false);
	}
	void flips(u32 w, int k, int seed, int stride = -1, int first = 0) { Soft b = near(32, {w}, seed, stride, first); Fill r(seed); int a = vmax / 32; for (auto &v : b) v = (v < 0 ? -1 : 1) * (a - (int)r((a + 1) / 2)); for (int i = 0; i <= k; ++i) subsets(32, i, [&](const int *c) { Soft y = b; for (int j = 0; j < i; ++j) y[c[j]] = -y[c[j]]; one(y, {w}, 5, stride, first); }); done(false); }
	// codes with exactly as many messages as lanes: the list must hold all of them, best first
	void complete(int seed)
	{
		int K = 0; while (1 << K < L) ++K; if (1 << K != L || !K) return;
		int n = 0;
		subsets(16, K, [&](const int *c) {
			if (n++ % (K > 3 ? 7 : 1)) return;
			u32 w = ~0u; if (!(seed & 1) && c[K - 1] != 15) return; for (int i = 0; i < K; ++i) w &= ~(1u << ((seed & 1) ? 31 - (c[i] - c[0]) : i == K - 1 ? 31 : (c[i] * 2 + (c[i] * c[i] + seed) % 2)));
			for (int s = 0; s < 4; ++s) {
				Soft y = s & 1 ? near(32, {w}, seed + n + s, -1, 0) : word(32, seed + n + s / 2); if (!one(y, {w}, 5)) continue;
				ll best = -1; for (int m = 0; m < L; ++m) { Bits b(K); for (int i = 0; i < K; ++i) b[i] = m >> i & 1; Bits x = transform(place(b, {w}, 32)); ll q = 0; for (int i = 0; i < 32; ++i) q += x[i] ? -y[i] : y[i]; best = m ? std::max(best, q) : q; }
				Bits x = transform(place(msg[0], {w}, 32)); ll q = 0; for (int i = 0; i < 32; ++i) q += x[i] ? -y[i] : y[i];
				MC_CHECK(q == best, "%s: first lane has correlation %lld, the maximum is %lld", ctx(y, {w}, 5, -1, 0).c_str(), q, best);
			}
		}); done();
	}
	static std::vector<u32> words() { return {0, ~0u, 0x0000ffff, 0xffff0000, 0x00ff00ff, 0x55555555, 0xaaaaaaaa, 0x0117177f, 0x177f7fff, 0x7fffffff, 1, 0x80000000, 0xfffffffe, 0x12345678, 0x0fffffff, 0x00010117}; }
	static Frozen shape(int level, int s) { int N = 1 << level; Frozen f(N / 32); for (int i = 0; i < N; ++i) { bool z = s == 0 ? __builtin_popcount(i) < level / 2 : s == 1 ? (i * 7 + i / 5) % 3 == 0 : s == 2 ? i < N / 2 - 5 : s == 3 ? __builtin_popcount(i) * 3 < level + (i >> (level - 2)) : s == 4 ? i < N - 9 : s == 5 ? i / 64 % 2 == 0 : __builtin_popcount(i) < level - 1; if (z) f[i / 32] |= 1u << i % 32; } return f; }
	void pairs(int words_) { int seed = 0; for (u32 a : words()) for (u32 b : words()) some({a, b}, 6, words_, seed += 4); done(); }
	void large(int lo, int hi, int words_) { for (int level = lo; level <= hi; ++level) for (int sh = 0; sh < 7; ++sh) some(shape(level, sh), level, words_, level * 100 + sh * 10); done(); }
	// long codes: every level has its own instance of the decoder
	void deep(int level, int maxamp, int stride = -1, int first = 0)
	{
		int keep = vmax; if (vmax != 127) vmax = 900000;   // below the initial penalty, exact in float
		for (int sh = 0; sh < 7; ++sh) if (level < 15 || sh % 2 == 0 || thorough) { Frozen f = shape(level, sh); int K = count(f, 1 << level, stride, first); Bits m(K); Fill r(level * 7 + sh); for (auto &b : m) b = r(2); clean(m, 1 + (int)r(maxamp), f, level, stride, first, sh == 2); if (vmax != 127) some(f, level, level < 13 ? 4 : 2, level * 100 + sh * 10, stride, first); }
		vmax = keep; done(false);
	}
	void clean_all(int hi, int maxamp)
	{
		for (int level = 5; level <= hi; ++level) for (int sh = 0; sh < 7; ++sh) { Frozen f = shape(level, sh); int K = info(f, 1 << level);
			std::vector<Bits> ms{Bits(K, 0), Bits(K, 1)}; for (int i = 0; i < K; i += 1 + K / 12) { Bits b(K, 0); b[i] = 1; ms.push_back(b); }
			for (auto &m : ms) for (int a : {1, 2, 31, 127}) if (a <= maxamp) clean(m, a, f, level, -1, 0, a == 31); }
		for (u32 w : {0x177f7fffu, 0xfefefefeu, 0x7f7fffffu, 0xffffff00u, 0x00ffffffu, 0xffff00ffu}) { int K = info({w}, 32); for (int m = 0; m < 1 << std::min(K, 8); ++m) { Bits b(K, 0); for (int i = 0; i < K && i < 8; ++i) b[i] = m >> i & 1; for (int a = 1; a <= maxamp; a += (m % 16 ? 42 : 3)) clean(b, a, {w}, 5); } }
		++traces;
	}
};
