#pragma once
#include "rs.hh"
struct H {
	typedef u16 T;
	RS &c; H(RS &c) : c(c) {} u64 failed = 0, miscorrected = 0, corrected = 0;
	void one(const T *recv, int len, const int *era, int f)
	{
		const int n = len + c.NP;
		int ret = c.decode(recv, len, era, f);
		++transitions; ++states;
		T out[65536]; memcpy(out, c.D.data(), len * sizeof(T)); memcpy(out + len, c.P.data(), c.NP * sizeof(T));
		int diff = 0;
		for (int i = 0; i < n; ++i) diff += out[i] != recv[i];
		const char *why = 0;
		if (!c.guards_ok) why = "wrote outside data and parity";
		else if (ret < 0) { ++failed; if (diff) why = "reported failure but changed the buffers"; }
		else {
			if (diff != ret) why = "count differs from the number of changed symbols";
			else if (!c.codeword(out, n)) why = "reported success but left no codeword";
			else if (diff) ++corrected;
			if (!why && ret && c.codeword(recv, n)) why = "changed a codeword";
		}
		if (!why && ret != 0 && c.codeword(recv, n)) why = "did not accept a codeword with count zero";
		if (__builtin_expect(why != 0, 0)) {
			std::string er; for (int i = 0; i < f; ++i) er += fmt(" %d", era[i]);
			fail(current, fmt("%s data_len=%d received %s erasures[%s ]: %s (returned %d, changed %d, left %s)", c.name().c_str(), len, c.show(recv, n).c_str(), er.c_str(), why, ret, diff, c.show(out, n).c_str()));
		}
	}
	// every syndrome (all parity contents with two data contents) x every erasure set up to maxf
	void cosets(int len, int maxf, int nb)
	{
		auto bs = c.bases(len, nb);
		for (auto &b : bs) for (int f = 0; f <= maxf; ++f)
			subsets(len + c.NP, f, [&](const int *fs) {
				tuples(c.NP, c.Q, [&](const int *p) {
					T w[65536]; memcpy(w, b.data(), (len + c.NP) * sizeof(T));
					for (int i = 0; i < c.NP; ++i) w[len + i] ^= (T)p[i];
					one(w, len, fs, f);
				});
				++traces;
			});
	}
	// every word within radius r of a base codeword, boundary error values
	void ball(int len, int r, const std::vector<int> &ev, const std::vector<int> &ps, int f0, int f1)
	{
		auto bs = c.bases(len, 1);
		for (int e = 0; e <= r; ++e) subsets((int)ps.size(), e, [&](const int *es) {
			tuples(e, (int)ev.size(), [&](const int *vi) {
				T w[65536]; memcpy(w, bs[0].data(), (len + c.NP) * sizeof(T));
				for (int i = 0; i < e; ++i) w[ps[es[i]]] ^= (T)ev[vi[i]];
				for (int f = f0; f <= f1; ++f) {
					int era[256]; for (int i = 0; i < f; ++i) era[i] = ps[(es[0] + 1 + i * 2) % ps.size()];
					bool dup = false; for (int i = 0; i < f; ++i) for (int j = 0; j < i; ++j) dup |= era[i] == era[j];
					if (!dup && (f == 0 || e)) one(w, len, era, f);
				}
			});
		});
		++traces;
	}
};
void honesty_explore(RS &c)
{
	H *h = new H(c);
	const int NR = c.NR, K = c.K, N = c.N;
	double words = std::pow((double)c.Q, c.NP);
	std::set<int> lens;
	for (int l = 1; l <= K; ++l) if (N <= 7 || (c.Q == 2 && N <= 15) || l == 1 || l == 2 || l == K || l == K - 1 || l == K / 2) lens.insert(l);
	for (int len : lens) {
		const int n = len + c.NP;
		const double budget = (thorough ? 60.0 : 1.0) * 8e8 / lens.size() / (150 + 3.0 * n * NR + 4.0 * NR * NR + (NR > 2 ? 0.8 * N * std::min(NR, 8) : 0));
		double sets = 1; int maxf = -1;
		if (words <= budget) { maxf = 0; for (int f = 1; f <= NR; ++f) { sets += binom(n, f); if (words * sets > budget) break; maxf = f; } }
		if (maxf >= 0) h->cosets(len, maxf, words * sets * 2 < budget ? 2 : 1);
		std::vector<int> ps;
		if (n <= 16) for (int i = 0; i < n; ++i) ps.push_back(i);
		else { std::set<int> s; for (int p : {0, 1, 2, len / 2, len - 2, len - 1, len, len + 1, n - 2, n - 1, n / 3, n / 4}) if (p >= 0 && p < n) s.insert(p); ps.assign(s.begin(), s.end()); }
		// all received words of short binary codes, with every single erasure
		if (c.Q == 2 && n <= 16) for (int f = 0; f <= 1 && f <= NR; ++f) subsets(n, f, [&](const int *fs) {
			tuples(n, 2, [&](const int *p) { u16 w[16]; for (int i = 0; i < n; ++i) w[i] = p[i]; h->one(w, len, fs, f); });
		});
		if (maxf < NR) {
			int r = 0; double cnt = 1;
			while (r < (int)ps.size() && r < NR + 2) { double t = (double)binom((int)ps.size(), r + 1) * std::pow(c.Q == 2 ? 1.0 : 2.0, r + 1); if (cnt + t > budget / 3) break; cnt += t; ++r; }
			h->ball(len, r, c.Q == 2 ? std::vector<int>{1} : std::vector<int>{1, N > 3 ? 6 : 2}, ps, 0, std::min(NR, 4));
		}
	}
	MC_SAMPLE("%s: %llu corrected, %llu reported undecodable", h->c.name().c_str(), (unsigned long long)h->corrected, (unsigned long long)h->failed);
	delete h;
}

// codes with many roots: words far from and just beyond the reach of the decoder, with few and many erasures
void wide_honesty(RS &c)
{
	H *h = new H(c); const int NR = c.NR, N = c.N; static u16 w[65536];
	for (int len : std::set<int>{1, std::max(1, c.K / 2), c.K}) {
		const int n = len + c.NP; auto b = c.bases(len, 2)[1];
		const double unit = 3000 + 5.0 * n * NR + 6.0 * NR * NR + 1.5 * N * NR / 2; int left = (int)std::max(8.0, (thorough ? 40.0 : 1.0) * 3e9 / unit);
		for (int kind = 0; kind < 8; ++kind) for (int f : {0, 1, NR, NR / 2, 2, NR - 1, 128, 256, 257, NR - 3}) {
			if (f < 0 || f > NR || f > n || left-- <= 0) continue;
			Fill r(kind * 1000 + f); std::vector<int> era(f + 1), at(n); for (int i = 0; i < n; ++i) at[i] = i; for (int i = n - 1; i > 0; --i) std::swap(at[i], at[r(i + 1)]);
			int e = kind == 0 ? 0 : kind == 1 ? (NR - f) / 2 : kind <= 4 ? (NR - f) / 2 + kind - 1 : kind == 5 ? NR : n; e = std::min(e, n - f);
			memcpy(w, b.data(), 2 * n); for (int i = 0; i < f; ++i) era[i] = at[i], w[at[i]] ^= (u16)r(c.Q); for (int i = 0; i < e; ++i) w[at[f + i]] ^= (u16)(1 + r(c.Q - 1)); if (kind == 7) for (int i = 0; i < n; ++i) w[i] = (u16)r(c.Q);
			h->one(w, len, era.data(), f);
		}
		++traces;
	}
	MC_SAMPLE("%s: many roots, %llu corrected, %llu reported undecodable", h->c.name().c_str(), (unsigned long long)h->corrected, (unsigned long long)h->failed); delete h;
}
