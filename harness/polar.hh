// Polar codes: oracles by definition.  Bits are 0/1, symbols 1-2*bit.
#pragma once
#include "mc.hh"
using namespace mc;
typedef std::vector<u8> Bits;
typedef std::vector<u32> Frozen;
inline bool fz(const Frozen &f, int i) { return f[i / 32] >> (i % 32) & 1; }
inline int info(const Frozen &f, int N) { int k = 0; for (int i = 0; i < N; ++i) k += !fz(f, i); return k; }
inline Frozen mkfrozen(u32 w) { return Frozen(1, w); }
// x_j = sum of u_i over all i whose binary representation covers that of j
inline Bits transform(const Bits &u)
{
	int N = (int)u.size(); Bits x(N, 0);
	if (N <= 256) { for (int j = 0; j < N; ++j) { int s = 0; for (int i = 0; i < N; ++i) if ((i & j) == j) s ^= u[i]; x[j] = s; } return x; }
	// long codes: the Kronecker power applied one factor at a time (equal to the sum above)
	if (N > 4096) { x = u; for (int h = 1; h < N; h *= 2) for (int j = 0; j < N; ++j) if (!(j & h)) x[j] ^= x[j + h]; return x; }
	for (int i = 0; i < N; ++i) if (u[i]) for (int j = i;; j = (j - 1) & i) { x[j] ^= 1; if (!j) break; }
	return x;
}
inline Bits place(const Bits &m, const Frozen &f, int N) { Bits u(N, 0); int k = 0; for (int i = 0; i < N; ++i) if (!fz(f, i)) u[i] = m[k++]; return u; }
// message -> u with running parity bits: after `first` message bits a parity bit, then after every `stride` more
inline int parity_place(Bits &u, const Bits &m, const Frozen &f, int N, int stride, int first)
{
	u.assign(N, 0); int k = 0, left = first, par = 0;
	for (int i = 0; i < N; ++i) if (!fz(f, i)) { if (left) { u[i] = m[k++]; par ^= u[i]; --left; } else { u[i] = par; par = 0; left = stride; } }
	return k;
}
inline int parity_count(const Frozen &f, int N, int stride, int first) { int k = 0, left = first; for (int i = 0; i < N; ++i) if (!fz(f, i)) { if (left) ++k, --left; else left = stride; } return k; }
// soft values: min-sum with optional clamping to +-lim
struct SC {
	int lim; bool tie = false;
	long long cl(long long v) const { return lim && v > lim ? lim : lim && v < -lim ? -lim : v; }
	static long long fmin_(long long a, long long b) { long long x = std::min(a < 0 ? -a : a, b < 0 ? -b : b); return (a < 0) != (b < 0) ? -x : x; }
	// plain successive cancellation, no shortcuts; returns the node's code bits, appends u bits
	Bits run(const std::vector<long long> &y, const Frozen &f, int at, Bits &u)
	{
		int n = (int)y.size();
		if (n == 1) { int b = 0; if (!fz(f, at)) { if (y[0] == 0) tie = true; b = y[0] < 0; } u.push_back(b); return Bits(1, b); }
		int h = n / 2; std::vector<long long> a(h);
		for (int i = 0; i < h; ++i) a[i] = fmin_(y[i], y[i + h]);
		Bits l = run(a, f, at, u);
		for (int i = 0; i < h; ++i) a[i] = cl((l[i] ? -y[i] : y[i]) + y[i + h]);
		Bits r = run(a, f, at + h, u);
		Bits x(n); for (int i = 0; i < h; ++i) x[i] = l[i] ^ r[i], x[i + h] = r[i];
		return x;
	}
};
// floating point soft values carry fractions: the integers of the oracle, scaled by powers of two
template <typename V> V unit(u64 n) { return V(0.5) == V(0) ? V(1) : n % 3 == 0 ? V(1) : n % 3 == 1 ? V(0.125) : V(0.0009765625); }
