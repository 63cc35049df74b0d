// C10: the 64-bit clamp must exist on every back end (a build failure of this file is the violation)
#include "mc.hh"
#include "simd.hh"
using namespace mc;
template <int W> void run()
{
	const i64 v[] = {0, 1, -1, 5, -5, INT32_MAX, INT32_MIN, (i64)INT32_MAX + 1, 1ll << 40, -(1ll << 40), INT64_MAX, INT64_MIN, 0x100000000ll, -0x100000000ll};
	for (i64 lo : v) for (i64 hi : v) if (lo <= hi) for (int s = 0; s < 14; ++s) {
		SIMD<i64, W> a; for (int l = 0; l < W; ++l) a.v[l] = v[(s + l) % 14];
		auto r = vclamp(a, lo, hi);
		++states; ++transitions;
		for (int l = 0; l < W; ++l) MC_CHECK(r.v[l] == (a.v[l] < lo ? lo : a.v[l] > hi ? hi : a.v[l]), "vclamp int64 x %d lane %d x=%lld lo=%lld hi=%lld got %lld", W, l, (long long)a.v[l], (long long)lo, (long long)hi, (long long)r.v[l]);
	}
	++traces;
}
void mc_register() { job("vclamp int64 x 2", run<2>); job("vclamp int64 x 4", run<4>); job("vclamp int64 x 6", run<6>); job("vclamp int64 x 8", run<8>); }
