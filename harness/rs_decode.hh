#pragma once
#include "rs.hh"
namespace dec_ {
static void one(RS &c, const Word &base, const Word &recv, int len, const int *era, int f)
{
	const int n = len + c.NP;
	int diff = 0;
	for (int i = 0; i < n; ++i) diff += base[i] != recv[i];
	int ret = c.decode(recv.data(), len, era, f);
	++transitions;
	bool ok = !memcmp(c.D.data(), base.data(), len * 2) && !memcmp(c.P.data(), base.data() + len, c.NP * 2);
	if (__builtin_expect(ret != diff || !ok || !c.guards_ok, 0)) {
		std::string er; for (int i = 0; i < f; ++i) er += fmt(" %d", era[i]);
		std::string ep; for (int i = 0; i < n; ++i) if (base[i] != recv[i]) ep += fmt(" %d:%d", i, (int)(base[i] ^ recv[i]));
		fail(current, fmt("%s data_len=%d errors(pos:value)[%s ] erasures[%s ]: returned %d (want %d), %s%s; codeword %s", c.name().c_str(), len, ep.c_str(), er.c_str(), ret, diff,
			ok ? "corrected" : "not restored", c.guards_ok ? "" : ", wrote outside the buffers", c.show(base.data(), n).c_str()));
	}
}
// every erasure set of size f and every error set of size e among n positions; nv values per position kind
static void patterns(RS &c, int len, int f, int e, const std::vector<int> &ev, const std::vector<int> &fv, int nb, bool orders, const std::vector<int> *only = 0)
{
	auto bs = c.bases(len, nb);
	std::vector<int> pos; if (only) pos = *only; else for (int i = 0; i < len + c.NP; ++i) pos.push_back(i);
	const int n = pos.size();
	if (n < e + f) return;
	Word w;
	subsets(n, f, [&](const int *fs) {
		std::vector<int> rest; std::vector<char> in(n, 0);
		for (int i = 0; i < f; ++i) in[fs[i]] = 1;
		for (int i = 0; i < n; ++i) if (!in[i]) rest.push_back(i);
		std::vector<int> era(f + 1); for (int i = 0; i < f; ++i) era[i] = pos[fs[i]];
		subsets((int)rest.size(), e, [&](const int *es) {
			++states;
			tuples(e, (int)ev.size(), [&](const int *evi) {
				tuples(f, (int)fv.size(), [&](const int *fvi) {
					for (auto &b : bs) {
						w = b;
						for (int i = 0; i < e; ++i) w[pos[rest[es[i]]]] ^= (u16)ev[evi[i]];
						for (int i = 0; i < f; ++i) w[pos[fs[i]]] ^= (u16)fv[fvi[i]];
						one(c, b, w, len, era.data(), f);
						if (orders && f > 1) {
							std::vector<int> p(era.begin(), era.begin() + f);
							if (f <= 3) { while (std::next_permutation(p.begin(), p.end())) one(c, b, w, len, p.data(), f); }
							else { std::reverse(p.begin(), p.end()); one(c, b, w, len, p.data(), f); std::rotate(p.begin(), p.begin() + f / 2, p.end()); one(c, b, w, len, p.data(), f); std::swap(p[0], p[1]); one(c, b, w, len, p.data(), f); }
						}
					}
				});
			});
		});
	});
	++traces;
}
static std::vector<int> range(int a, int b) { std::vector<int> v; for (; a <= b; ++a) v.push_back(a); return v; }
static std::vector<int> few(RS &c, bool zero)
{
	std::vector<int> v; if (zero) v.push_back(0);
	for (int x : {1, c.N, 2}) if (x < c.Q) v.push_back(x);
	return v;
}
static double cost(int n, int f, int e, u64 nev, u64 nfv) { double x = (double)binom(n, f) * binom(n - f, e); for (int i = 0; i < e; ++i) x *= nev; for (int i = 0; i < f; ++i) x *= nfv; return x; }

}
using namespace dec_;
void decode_explore(RS &c)
{
	const int N = c.N, K = c.K, NR = c.NR, NP = c.NP, Q = c.Q;
	// deterministic work budget, split evenly over the (length, errors, erasures) classes
	const double work = (thorough ? 60.0 : 1.0) * 3e8;
	int classes = 0; double budget = 0;
	int full = 0, reduced = 0;
	std::set<int> lens;
	for (int l = 1; l <= K; ++l) if (N <= 7 || l == 1 || l == 2 || l == K || l == K - 1 || l == K / 2 || l == 5) lens.insert(l);
	for (int pass = 0; pass < 2; ++pass)
	for (int len : lens) {
		const int n = len + NP;
		for (int f = 0; f <= NR; ++f) for (int e = 0; 2 * e + f <= NR; ++e) {
			if (e + f > n) continue;
			if (N > 15 && f > 3 && f < NR - 2 && e > 0 && 2 * e + f < NR - 1) continue;
			if (N > 15 && NR > 8 && e > 2 && e < NR / 2 - 1 && f > 0 && f < NR - 2 * e) continue;
			if (!pass) { ++classes; continue; }
			const double unit = 150 + 2.0 * n * NR + 4.0 * NR * NR + (e + f > 2 ? 2.0 * N * (e + f) : 0);
			budget = work / classes / unit / (f > 1 ? f == 3 ? 6 : f == 2 ? 2 : 4 : 1);
			std::vector<int> av = range(1, Q - 1), zv = range(0, Q - 1);
			if (cost(n, f, e, Q - 1, Q) * 2 <= budget) { patterns(c, len, f, e, av, zv, 2, f > 1); ++full; continue; }
			std::vector<int> a2 = few(c, false), z2 = few(c, true);
			if (cost(n, f, e, a2.size(), z2.size()) <= budget) { patterns(c, len, f, e, a2, z2, 1, f > 1); ++reduced; continue; }
			std::vector<int> a1(1, Q > 4 ? 5 % N + 1 : 1), z1 = {0, 1};
			if (cost(n, f, e, 1, 2) <= budget) { patterns(c, len, f, e, a1, z1, 1, true); ++reduced; continue; }
			std::vector<int> z0(1, Q > 2 ? 3 : 1);
			if (cost(n, f, e, 1, 1) <= budget) { patterns(c, len, f, e, a1, z0, 2, true); ++reduced; continue; }
			// all patterns over a window of boundary positions
			for (int wsize = std::min(n, 14); wsize > e + f || wsize == n; --wsize) {
				std::set<int> ps; int want = wsize;
				const int cand[] = {0, n - 1, len - 1, len, 1, n - 2, len / 2, len + NP / 2, 2, n - 3, 3, len / 3, n / 2, n / 4, n * 3 / 4, n / 5};
				for (int p : cand) if ((int)ps.size() < want && p >= 0 && p < n) ps.insert(p);
				std::vector<int> pv(ps.begin(), ps.end());
				if (cost((int)pv.size(), f, e, 1, 1) <= budget / 2 || wsize == e + f + 1) {
					if (cost((int)pv.size(), f, e, 2, 2) <= budget) patterns(c, len, f, e, std::vector<int>{1, Q > 2 ? N - 1 : 1}, std::vector<int>{0, Q > 2 ? 2 : 1}, 1, true, &pv);
					else patterns(c, len, f, e, a1, z0, 1, true, &pv);
					++reduced; break;
				}
			}
			if (e + f > 8) {   // wide patterns: contiguous runs and strides
				const int p0s = (int)std::max(1.0, (double)n * n / (e + f) * 2 / (budget + 1));
				auto bs = c.bases(len, 1);
				for (int st = 1; st * (e + f - 1) < n; ++st) for (int p0 = 0; p0 + st * (e + f - 1) < n; p0 += p0s) for (int split = 0; split < 2; ++split) {
					auto w = bs[0]; std::vector<int> era(f + 1); ++states;
					for (int i = 0; i < e + f; ++i) {
						int p = p0 + st * i; bool isf = split ? i < f : i >= e;
						if (isf) { era[split ? i : i - e] = p; w[p] ^= (u16)((i * 29 + p / 2) % Q); } else w[p] ^= (u16)(1 + (i * 53 + p) % (Q - 1));
					}
					one(c, bs[0], w, len, era.data(), f);
				}
			}
		}
	}
	MC_SAMPLE("%s: %d (length, errors, erasures) classes with all positions and all values, %d with all positions or window and boundary values", c.name().c_str(), full, reduced);
}
// every pair of error positions of a full length code (double error shortcut), a few value pairs
static void pairs_full(RS &c)
{
	for (int len : {c.K}) {
		patterns(c, len, 0, 1, c.N <= 255 ? range(1, c.Q - 1) : few(c, false), {}, 1, false);
		patterns(c, len, 0, 2, c.Q > 2 ? std::vector<int>{1, 3} : std::vector<int>{1}, {}, 1, false);
		if (c.NR >= 2) patterns(c, len, 2, 0, {}, c.Q > 2 ? std::vector<int>{0, 7} : std::vector<int>{0, 1}, 1, true);
	}
}
static void pair_distances(RS &c)
{
	const int n = c.N; auto b = c.bases(c.K, 1)[0]; int st = 1; while (!thorough && (double)n / st * (n * 8.0 + 1000) > 1.5e9) st += 2;
	for (int j = 1; j < n; j += st) for (int v : {1, n - 1, 1 + j}) { if (v > n) continue; auto w = b; w[0] ^= 1; w[j] ^= (u16)v; ++states; one(c, b, w, c.K, 0, 0); }
	++traces;
}

// codes with many roots: numbers of errors and erasures around powers of two and at the capability, in runs and strides
void wide_decode(RS &c)
{
	const int NR = c.NR, N = c.N; int top = 0;
	for (int len : std::set<int>{1, std::max(1, c.K / 2), c.K}) {
		const int n = len + c.NP; auto bs = c.bases(len, 2); const Word &b = bs[n % 2];
		const double unit = 2000 + 3.0 * n * NR + 6.0 * NR * NR + 1.5 * N * NR / 2; int left = (int)std::max(8.0, (thorough ? 40.0 : 1.0) * 3e9 / unit);
		std::vector<std::pair<int, int>> fe; std::set<int> fs; for (int f : {0, NR, 1, NR / 2, NR - 1, 256, 2, 128, 257, 512, NR / 3, 127, 255, NR - 2, 513}) if (f >= 0 && f <= NR && fs.insert(f).second) {
			std::set<int> es; for (int e : {(NR - f) / 2, 128, 256, 1, (NR - f) / 2 - 1, 127, 129, 255, 257, 0, 3}) if (e >= 0 && 2 * e + f <= NR && e + f <= n && e + f && es.insert(e).second) fe.push_back({f, e});
		}
		for (int kind = 0; kind < 4; ++kind) for (auto &x : fe) {
			int f = x.first, e = x.second, t = e + f; if (left-- <= 0) goto done;
			int st = kind & 1 ? std::max(1, (n - 1) / std::max(1, t)) : 1, p0 = kind & 2 ? n - 1 - st * (t - 1) : 0; Word w = b; std::vector<int> era(f + 1); int nf = 0;
			for (int i = 0; i < t; ++i) { bool isf = (i64)(i + 1) * f / t > (i64)i * f / t; int p = p0 + st * i; if (isf) { era[nf++] = p; w[p] ^= (u16)((i * 29 + p / 2 + kind) % c.Q); } else w[p] ^= (u16)(1 + (i * 53 + p) % (c.Q - 1)); }
			if (kind == 2) std::reverse(era.begin(), era.begin() + f); top = std::max(top, t); ++states; one(c, b, w, len, era.data(), f);
		}
		done: ++traces;
	}
	MC_SAMPLE("%s: up to %d errors and erasures in one word", c.name().c_str(), top);
}
