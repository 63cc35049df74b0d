#pragma once
#include "rs.hh"
namespace enc_ {
static void one(RS &c, const Word &d)
{
	const int len = d.size();
	c.encode(d.data(), len);
	++states; ++transitions;
	MC_CHECK(c.guards_ok, "%s len=%d data=%s: encoder wrote outside the parity", c.name().c_str(), len, c.show(d.data(), len).c_str());
	MC_CHECK(!memcmp(c.D.data(), d.data(), 2 * len), "%s len=%d data=%s: encoder changed the data", c.name().c_str(), len, c.show(d.data(), len).c_str());
	Word x = c.oracle_encode(d);
	MC_CHECK(!memcmp(c.P.data(), x.data() + len, 2 * c.NP), "%s len=%d data=%s: parity %s want %s", c.name().c_str(), len, c.show(d.data(), len).c_str(),
		c.show(c.P.data(), c.NP).c_str(), c.show(x.data() + len, c.NP).c_str());
}
static void syn(RS &c, const u16 *w, int len)
{
	int r = c.syndromes(w, len);
	++states; ++transitions;
	int nz = 0;
	for (int i = 0; i < c.NR; ++i) {
		int v = c.eval(w, len + c.NP, i); nz += !!v;
		MC_CHECK((int)c.S[i] == v, "%s len=%d word=%s: syndrome %d is %d want %d", c.name().c_str(), len, c.show(w, len + c.NP).c_str(), i, (int)c.S[i], v);
	}
	MC_CHECK((r == 0) == (nz == 0), "%s len=%d word=%s: syndrome result %d but %d are nonzero", c.name().c_str(), len, c.show(w, len + c.NP).c_str(), r, nz);
	MC_CHECK(c.guards_ok, "%s len=%d syndrome computation wrote where it must not", c.name().c_str(), len);
}
}
using namespace enc_;
void encode_explore(RS &c)
{
	{ Word gw(c.g.begin(), c.g.end()); MC_CHECK(c.NP + 1 > c.N || c.codeword(gw.data(), c.NP + 1), "oracle"); }
	const int Q = c.Q, NR = c.NR, NP = c.NP;
	// deterministic work budget per job and length
	std::set<int> lens;
	for (int l = 1; l <= c.K; ++l) if (c.N <= 31 || l <= 3 || (l >= c.K - 1 && (c.N < 4096 || (NR < 8 && l == c.K))) || l == c.K / 2 && c.N < 4096 || l == 16 || l == 17 || l == 100) lens.insert(l);
	const double work = (thorough ? 50.0 : 1.0) * 8e8 / lens.size();
	for (int len : lens) {
		const double unit = 100 + 6.0 * (len + NP) * NR, budget = work / unit;
		if (std::pow((double)Q, len) <= budget) {
			tuples(len, Q, [&](const int *m) { one(c, Word(m, m + len)); });
		} else {
			Word d(len, 0);
			one(c, d);
			std::set<int> vs;
			if (std::pow((double)Q, 1) * len <= budget) for (int v = 1; v < Q; ++v) vs.insert(v);
			else { for (int k = 0; k < c.M; ++k) { vs.insert(1 << k); vs.insert(c.N - (1 << k)); } vs.insert(c.N); vs.insert(2); vs.insert(3); }
			while (!vs.empty() && *vs.rbegin() >= Q) vs.erase(*vs.rbegin());
			int step = std::max(1, (int)(len * vs.size() / budget));
			for (int p = 0; p < len; p += step) for (int v : vs) { d[p] = (u16)v; one(c, d); d[p] = 0; }
			int ps = 1; while ((double)len * len / ps / ps > budget) ++ps;
			for (int p = 0; p < len; p += ps) for (int q = p + 1; q < len; q += ps) for (int k = 0; k < 2; ++k) {
				if (Q == 2 && k) break; d[p] = k ? (u16)c.N : (u16)1; d[q] = (u16)(Q == 2 ? 1 : k ? 2 : c.N - 1); one(c, d); d[p] = d[q] = 0;
			}
			for (int b = 0; b < 30 && b < budget; ++b) { Fill f(b); for (auto &x : d) x = b < 3 ? (u16)((Q - 1 - b) & (Q - 1)) : (u16)f(Q); one(c, d); }
		}
		// syndromes: every word of weight <= 1, weight 2 over a grid, words around base codewords
		for (auto &b : c.bases(len, 3)) {
			const int n = len + NP; Word w(b);
			syn(c, w.data(), len);
			int step = std::max(1, (int)(n * 12 / budget));
			for (int p = 0; p < n; p += step) {
				if (Q <= 32 || (double)n * Q < budget / 3) for (int v = 1; v < Q; ++v) { w[p] = b[p] ^ v; syn(c, w.data(), len); }
				else for (int v : {1, 2, c.N, c.N / 2}) { if (v >= Q) continue;  w[p] = b[p] ^ v; syn(c, w.data(), len); }
				for (int q = p + 1; q < n && n < 64; q += 3) { w[q] = b[q] ^ 1; syn(c, w.data(), len); w[q] = b[q]; }
				w[p] = b[p];
			}
		}
		if (std::pow((double)Q, len + NP) <= budget) tuples(len + NP, Q, [&](const int *m) { Word w(m, m + len + NP); syn(c, w.data(), len); });
		++traces;
	}
	MC_SAMPLE("%s: %d lengths, K=%d", c.name().c_str(), (int)lens.size(), c.K);
}

