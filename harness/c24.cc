// C24: polar code construction against density evolution for the erasure channel in extended precision.
#include "mc.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
using namespace mc;
typedef long double ld;
static const int MAXM = 18;
static CODE::PolarCodeConst0<MAXM> *con; static CODE::PolarSeqConst0<MAXM> *seq; static CODE::PolarFreezer *frz;
static void init() { con = new CODE::PolarCodeConst0<MAXM>; seq = new CODE::PolarSeqConst0<MAXM>; frz = new CODE::PolarFreezer; memset((void *)con, 0x7e, sizeof *con); memset((void *)seq, 0x7e, sizeof *seq); }
// erasure probability of every position: one step per index bit, most significant first
static std::vector<ld> evolve(int level, ld pe)
{
	std::vector<ld> p(1 << level);
	for (int i = 0; i < 1 << level; ++i) { ld e = pe; for (int b = level - 1; b >= 0; --b) e = i >> b & 1 ? e * e : e * (2 - e); p[i] = e; }
	return p;
}
// p is worse than q by more than the rounding of double arithmetic
static bool worse(ld p, ld q) { return p > q && p - q > 1e-9L * p && p > 1e-290L; }
static void construct(int level, int K, double pe, const std::vector<ld> &p, u32 pattern)
{
	int N = 1 << level, W = (N + 31) / 32; std::vector<u32> f(W + 4, pattern);
	(*con)(f.data() + 2, level, K, pe); ++states; ++transitions;
	int frozen = 0; ld best = 2, worst = -1; int bi = -1, wi = -1;
	for (int i = 0; i < N; ++i) if (f[2 + i / 32] >> i % 32 & 1) { ++frozen; if (p[i] < best) best = p[bi = i]; } else if (p[i] > worst) worst = p[wi = i];
	MC_CHECK(frozen == N - K, "level %d K=%d pe=%.17g: %d positions frozen", level, K, pe, frozen);
	MC_CHECK(bi < 0 || wi < 0 || !worse(worst, best), "level %d K=%d pe=%.17g: free position %d has erasure probability %.20Lg, frozen position %d only %.20Lg", level, K, pe, wi, worst, bi, best);
	for (int i = N; i < 32; ++i) MC_CHECK((f[2] >> i & 1) == (pattern >> i & 1), "level %d K=%d: bit %d behind the code changed", level, K, i);
	MC_CHECK(f[0] == pattern && f[1] == pattern && f[W + 2] == pattern && f[W + 3] == pattern, "level %d K=%d: wrote outside the frozen words", level, K);
}
static const std::vector<double> &grid() { static const std::vector<double> g{0.5, std::exp(-1.), 0.1, 0.9, 0.01, 0.3, 0.7, 0.99, 0.25, 0.75, 1e-6, 0.999999, 0.632, 0, 1}; return g; }
static void allK(int level, double pe) { auto p = evolve(level, pe); for (int K = 0; K <= 1 << level; ++K) construct(level, K, pe, p, K & 1 ? ~0u : K & 2 ? 0x5a5aa5a5 : 0); ++traces; }
static void someK(int level, double pe) { auto p = evolve(level, pe); int N = 1 << level; for (int K : {0, 1, 2, 3, 31, 32, 33, N / 4, N / 3, N / 2 - 1, N / 2, N / 2 + 1, N - 100, N - 2, N - 1, N}) construct(level, K, pe, p, 0x12345678); ++traces; }
static void sequence(int level, double pe)
{
	int N = 1 << level; auto p = evolve(level, pe); std::vector<int> s(N + 8, -5);
	(*seq)(s.data() + 4, level, pe); ++states; ++transitions;
	std::vector<char> seen(N, 0);
	for (int i = 0; i < N; ++i) { int v = s[4 + i]; MC_CHECK(v >= 0 && v < N && !seen[v], "level %d pe=%.17g: entry %d is %d: not a permutation", level, pe, i, v); seen[v] = 1; if (i) MC_CHECK(!worse(p[v], p[s[3 + i]]), "level %d pe=%.17g: entry %d (position %d, %.20Lg) comes after the more reliable position %d (%.20Lg)", level, pe, i, v, p[v], s[3 + i], p[s[3 + i]]); }
	for (int i = 0; i < 4; ++i) MC_CHECK(s[i] == -5 && s[4 + N + i] == -5, "level %d: wrote outside the sequence", level);
}
static void freezer(int level, double pe, double th, const std::vector<ld> &p, bool dyadic)
{
	int N = 1 << level, W = (N + 31) / 32; u32 pattern = level & 1 ? ~0u : 0x5a5aa5a5; std::vector<u32> f(W + 4, pattern);
	int K = (*frz)(f.data() + 2, level, pe, th), frozen = 0; ++states; ++transitions;
	for (int i = 0; i < N; ++i) { int b = f[2 + i / 32] >> i % 32 & 1; frozen += b; ld d = p[i] - th; if (d > 1e-9L || d < -1e-9L || dyadic) MC_CHECK(b == (p[i] > th), "level %d pe=%.17g threshold %.17g: position %d with erasure probability %.20Lg is %s", level, pe, th, i, p[i], b ? "frozen" : "free"); }
	MC_CHECK(K == N - frozen, "level %d pe=%.17g threshold %.17g: returned %d with %d frozen", level, pe, th, K, frozen);
	for (int i = N; i < 32; ++i) MC_CHECK((f[2] >> i & 1) == (pattern >> i & 1), "level %d: bit %d behind the code changed", level, i);
	MC_CHECK(f[0] == pattern && f[1] == pattern && f[W + 2] == pattern && f[W + 3] == pattern, "level %d: wrote outside the frozen words", level);
}
void mc_register()
{
	for (size_t g = 0; g < grid().size(); ++g) {
		double pe = grid()[g];
		job(fmt("construction, every size, pe=%g", pe), [=] { init(); for (int l = 0; l <= (thorough ? 13 : 10); ++l) allK(l, pe); });
		job(fmt("construction, long codes, pe=%g", pe), [=] { init(); for (int l = 11; l <= MAXM; ++l) someK(l, pe); });
		job(fmt("sequence, pe=%g", pe), [=] { init(); for (int l = 0; l <= MAXM; ++l) sequence(l, pe); for (int l = MAXM; l >= 0; --l) sequence(l, pe); ++traces; });
		job(fmt("freezer, pe=%g", pe), [=] { init(); for (int l = 0; l <= 18; ++l) { auto p = evolve(l, pe); bool dy = (pe == 0.5 || pe == 0.25 || pe == 0.75) && l <= 4; for (double th : {0.5, 0.25, 0.75, 0.0, 1.0, 0.1, 0.9, 0.4375, 0.5625, 0.9375, 0.0625, 1e-5, 0.99999, pe}) freezer(l, pe, th, p, dy); if (l <= 4) for (ld t : p) freezer(l, pe, (double)t, p, dy); } ++traces; });
	}
	job("construction, fine grid", [] { init(); for (int l = 0; l <= 6; ++l) for (int i = 1; i < 256; ++i) allK(l, i / 256.); });
	job("sequence, fine grid", [] { init(); for (int l = 0; l <= 9; ++l) for (int i = 1; i < 256; ++i) sequence(l, i / 256.); ++traces; });
	job("default parameters", [] { init(); double e1 = std::exp(-1.);
		for (int l = 0; l <= 12; ++l) { int N = 1 << l; std::vector<u32> a(N / 32 + 2, 0), b(N / 32 + 2, 0); int K = N / 2; auto p = evolve(l, e1);
			(*con)(a.data(), l, K); (*con)(b.data(), l, K, e1); MC_CHECK(a == b, "default erasure probability of the construction"); ++transitions;
			std::vector<int> s(N), t(N); (*seq)(s.data(), l); (*seq)(t.data(), l, e1); MC_CHECK(s == t, "default erasure probability of the sequence"); ++transitions;
			int k1 = (*frz)(a.data(), l), k2 = (*frz)(b.data(), l, 0.5, 0.5); MC_CHECK(a == b && k1 == k2, "default parameters of the freezer"); ++transitions; } ++traces; });
}
