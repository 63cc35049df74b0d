// LDPC codes from their table, by the definition of the DVB address tables.
#pragma once
#include "mc.hh"
#include "ldpc_tables.hh"
using namespace mc;
// small tables of the same form: G groups, the first G0 with D0 addresses, the others with D1; S selects the addresses
template <int M_, int Q_, int G_, int G0_, int D0_, int D1_, int S_> struct Tab {
	static const int M = M_, q_ = Q_, K = M_ * G_, R_ = M_ * Q_, N = K + R_, ENT = G0_ * D0_ + (G_ - G0_) * D1_;
	struct Gen { int p[ENT + 1]; int cn[Q_]; constexpr Gen() : p{}, cn{} {
		unsigned s = S_ * 2654435761u + 12345; int o = 0;
		for (int g = 0; g < G_; ++g) { int d = g < G0_ ? D0_ : D1_; for (int i = 0; i < d; ++i) { bool again = true; int v = 0; while (again) { s = s * 1664525u + 1013904223u; int m = (int)((s >> 8) % M_); int n = S_ % 2 ? (int)((s >> 20) % Q_) : (o + i) % Q_; v = m * Q_ + n; again = false; for (int k = 0; k < i; ++k) again |= p[o + k] == v; } p[o + i] = v; ++cn[v % Q_]; } o += d; } } };
	static constexpr Gen gen{}; static constexpr const int *POS = gen.p;
	static constexpr int DEG[] = {D0_, D1_, 0}; static constexpr int LEN[] = {G0_, G_ - G0_, 0};
	static constexpr int mx() { int m = 0; for (int i = 0; i < Q_; ++i) if (gen.cn[i] > m) m = gen.cn[i]; return m; }
	static constexpr int mn() { int m = 1000; for (int i = 0; i < Q_; ++i) if (gen.cn[i] < m) m = gen.cn[i]; return m; }
	static const int LINKS_MAX_CN = mx() + 2, LINKS_MIN_CN = mn() + 1, LINKS_TOTAL = M_ * ENT + 2 * R_ - 1, DEG_MAX = D0_ > D1_ ? D0_ : D1_;
};
struct Code {
	int M, N, K, R, q; std::vector<std::vector<int>> of;   // of[bit]: checks of a message bit
	std::vector<std::vector<int>> rows;                    // rows[check]: all positions taking part
	template <typename T> static Code make()
	{
		Code c; c.M = T::M; c.N = T::N; c.K = T::K; c.R = c.N - c.K; c.q = c.R / c.M; c.of.resize(c.K); c.rows.resize(c.R);
		const int *p = T::POS; int bit = 0;
		for (int g = 0; T::LEN[g]; ++g) for (int r = 0; r < T::LEN[g]; ++r) { for (int b = 0; b < c.M; ++b, ++bit) for (int d = 0; d < T::DEG[g]; ++d) c.of[bit].push_back((p[d] + b * c.q) % c.R); p += T::DEG[g]; }
		for (int b = 0; b < c.K; ++b) for (int x : c.of[b]) c.rows[x].push_back(b);
		for (int x = 0; x < c.R; ++x) { c.rows[x].push_back(c.K + x); if (x) c.rows[x].push_back(c.K + x - 1); }
		return c;
	}
	std::vector<u8> parity(const std::vector<u8> &m) const { std::vector<u8> a(R, 0); for (int b = 0; b < K; ++b) if (m[b]) for (int x : of[b]) a[x] ^= 1; for (int x = 1; x < R; ++x) a[x] ^= a[x - 1]; return a; }
	// every soft value non-zero and every check even
	bool good(const int8_t *v) const { for (auto &r : rows) { int s = 0; for (int p : r) { if (!v[p]) return false; s ^= v[p] < 0; } if (s) return false; } return true; }
	// erased positions can be resolved one by one from checks with a single erasure
	bool peel(std::vector<int> e) const
	{
		std::vector<u8> er(N, 0); for (int p : e) er[p] = 1;
		size_t left = e.size();
		for (bool go = true; go && left;) { go = false; for (auto &r : rows) { int n = 0, w = -1; for (int p : r) if (er[p]) ++n, w = p; if (n == 1) { er[w] = 0; --left; go = true; } } }
		return !left;
	}
};
