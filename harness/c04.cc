#include "mc.hh"
#include "xorshift.hh"
using namespace mc;
// Marsaglia's recurrences as published (JSS 2003), written on bit vectors / explicit history lists
static u32 o32(u32 y) { y ^= y << 13; y ^= y >> 17; y ^= y << 5; return y; }
static u64 o64(u64 x) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
static u32 o128(const u32 *s) { u32 t = s[0] ^ (s[0] << 11); return s[3] ^ (s[3] >> 19) ^ t ^ (t >> 8); }
static u32 ow(const u32 *s) { u32 t = s[0] ^ (s[0] >> 2); return (s[4] ^ (s[4] << 4)) ^ (t ^ (t << 1)); }
#define XQ(GOT, WANT, ...) do { u64 g_ = opaque<u64>(GOT), w_ = (WANT); ++transitions; if (__builtin_expect(g_ != w_, 0)) mc::fail(mc::current, fmt(__VA_ARGS__) + fmt(": got %llu want %llu", (unsigned long long)g_, (unsigned long long)w_)); } while (0)

static void range32(u64 lo, u64 hi)
{
	// complete one-step relation of the 32 bit generator; together with cycle() this is its whole state graph
	for (u64 s = lo; s < hi; ++s) { ++states; CODE::Xorshift32 g((u32)s); XQ(g(), o32((u32)s), "Xorshift32 from %llu", (unsigned long long)s); }
	++traces;
}
static void cycle()
{
	CODE::Xorshift32 g;
	u32 y = 2463534242u; u64 n = 0; bool ok = true;
	u32 first = y;
	u64 limit = (1ull << 32);
	for (;;) { u32 v = opaque<u32>(g()); y = o32(y); ok &= v == y; ++n; if (v == first || n > limit || !ok) break; }
	states += n; transitions += n; ++traces;
	MC_CHECK(ok, "Xorshift32 default stream differs at step %llu", (unsigned long long)n);
	MC_CHECK(n == 4294967295ull, "Xorshift32 returned to its default seed after %llu steps", (unsigned long long)n);
	for (int i = 0; i < 1000; ++i) { y = o32(y); XQ(g(), y, "Xorshift32 after the full period"); }
	MC_SAMPLE("Xorshift32 default seed: period %llu", (unsigned long long)n);
}
template <typename W> std::vector<W> words()
{
	std::set<W> s; const int B = sizeof(W) * 8;
	for (int i = 0; i < B; ++i) { s.insert((W)1 << i); s.insert((W)~((W)1 << i)); s.insert(((W)1 << i) - 1); for (int j = 0; j < i; ++j) s.insert(((W)1 << i) | ((W)1 << j)); }
	s.insert(0); s.insert((W)-1); s.insert((W)0x0123456789ABCDEFull); s.insert((W)0xFEDCBA9876543210ull);
	return std::vector<W>(s.begin(), s.end());
}
static void x64()
{
	for (u64 w : words<u64>()) {
		++states; CODE::Xorshift64 g(w); u64 x = w;
		for (int i = 0; i < 200; ++i) { x = o64(x); XQ(g(), x, "Xorshift64 seed %llu step %d", (unsigned long long)w, i); }
		++traces;
	}
	CODE::Xorshift64 d; u64 x = 88172645463325252ull;
	for (int i = 0; i < 20000000; ++i) { x = o64(x); ++states; XQ(d(), x, "Xorshift64 default step %d", i); }
	MC_SAMPLE("Xorshift64 first default output after 2e7 steps %llu", (unsigned long long)x);
}
static const u32 D128[4] = {123456789u, 362436069u, 521288629u, 88675123u};
static const u32 DW[6] = {123456789u, 362436069u, 521288629u, 88675123u, 5783321u, 6615241u};
struct M128 { u32 s[4]; u32 operator()() { u32 n = o128(s); s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; s[3] = n; return n; } };
struct MW { u32 s[5], d; u32 operator()() { u32 n = ow(s); for (int i = 0; i < 4; ++i) s[i] = s[i + 1]; s[4] = n; d += 362437u; return d + n; } };
static void x128()
{
	std::vector<u32> w = words<u32>();
	for (int pos = 0; pos < 4; ++pos) for (u32 v : w) for (int bg = 0; bg < 3; ++bg) {
		M128 m; for (int i = 0; i < 4; ++i) m.s[i] = bg == 0 ? 0 : bg == 1 ? 0xFFFFFFFFu : D128[i];
		m.s[pos] = v; ++states; u32 s0 = m.s[0], s1 = m.s[1], s2 = m.s[2], s3 = m.s[3];
		CODE::Xorshift128 g(s0, s1, s2, s3), r; r(); r.reset(s0, s1, s2, s3);
		for (int i = 0; i < 40; ++i) { u32 n = m(); XQ(g(), n, "Xorshift128 seed (%u,%u,%u,%u) step %d", s0, s1, s2, s3, i); XQ(r(), n, "Xorshift128 reset (%u,%u,%u,%u) step %d", s0, s1, s2, s3, i); }
		++traces;
	}
	CODE::Xorshift128 d; M128 m; memcpy(m.s, D128, sizeof m.s);
	for (int i = 0; i < 20000000; ++i) { u32 n = m(); ++states; XQ(d(), n, "Xorshift128 default step %d", i); }
	// default arguments fill from the right
	u32 a = 99, b = 77, c = 55;
	{ CODE::Xorshift128 g(a); M128 q{{a, D128[1], D128[2], D128[3]}}; for (int i = 0; i < 50; ++i) XQ(g(), q(), "Xorshift128(x) step %d", i); }
	{ CODE::Xorshift128 g(a, b); M128 q{{a, b, D128[2], D128[3]}}; for (int i = 0; i < 50; ++i) XQ(g(), q(), "Xorshift128(x,y) step %d", i); }
	{ CODE::Xorshift128 g(a, b, c); M128 q{{a, b, c, D128[3]}}; for (int i = 0; i < 50; ++i) XQ(g(), q(), "Xorshift128(x,y,z) step %d", i); }
	MC_SAMPLE("Xorshift128: %d seed words x 4 positions x 3 backgrounds", (int)w.size());
}
static void xwow()
{
	std::vector<u32> w = words<u32>();
	for (int pos = 0; pos < 6; ++pos) for (u32 v : w) for (int bg = 0; bg < 3; ++bg) {
		u32 s[6]; for (int i = 0; i < 6; ++i) s[i] = bg == 0 ? 0 : bg == 1 ? 0xFFFFFFFFu : DW[i];
		s[pos] = v; ++states;
		MW m{{s[0], s[1], s[2], s[3], s[4]}, s[5]};
		CODE::Xorwow g(s[0], s[1], s[2], s[3], s[4], s[5]), r; r(); r.reset(s[0], s[1], s[2], s[3], s[4], s[5]);
		for (int i = 0; i < 40; ++i) { u32 n = m(); XQ(g(), n, "Xorwow seed %s step %d", str(s, 6).c_str(), i); XQ(r(), n, "Xorwow reset %s step %d", str(s, 6).c_str(), i); }
		++traces;
	}
	CODE::Xorwow d; MW m{{DW[0], DW[1], DW[2], DW[3], DW[4]}, DW[5]};
	for (int i = 0; i < 20000000; ++i) { u32 n = m(); ++states; XQ(d(), n, "Xorwow default step %d", i); }
	for (int k = 1; k < 6; ++k) {
		u32 s[6]; for (int i = 0; i < 6; ++i) s[i] = i < k ? 1000 + i : DW[i];
		MW q{{s[0], s[1], s[2], s[3], s[4]}, s[5]}, q2 = q;
		CODE::Xorwow g = k == 1 ? CODE::Xorwow(s[0]) : k == 2 ? CODE::Xorwow(s[0], s[1]) : k == 3 ? CODE::Xorwow(s[0], s[1], s[2]) : k == 4 ? CODE::Xorwow(s[0], s[1], s[2], s[3]) : CODE::Xorwow(s[0], s[1], s[2], s[3], s[4]);
		for (int i = 0; i < 50; ++i) XQ(g(), q(), "Xorwow with %d arguments step %d", k, i);
		CODE::Xorwow h(5, 5, 5, 5, 5, 5);
		if (k == 1) h.reset(s[0]); else if (k == 2) h.reset(s[0], s[1]); else if (k == 3) h.reset(s[0], s[1], s[2]); else if (k == 4) h.reset(s[0], s[1], s[2], s[3]); else h.reset(s[0], s[1], s[2], s[3], s[4]);
		for (int i = 0; i < 50; ++i) XQ(h(), q2(), "Xorwow reset with %d arguments step %d", k, i);
	}
	MC_SAMPLE("Xorwow: %d seed words x 6 positions x 3 backgrounds", (int)w.size());
}
// all sequences of step/reset/reset(seed)/copy up to a depth
template <typename G, typename M, typename R0, typename R1> void hist(const char *n, M m0, R0 r0, R1 r1, int depth)
{
	std::vector<int> path;
	std::function<void(G, M, int)> go = [&](G g, M m, int left) {
		++states;
		if (!left) { ++traces; return; }
		for (int op = 0; op < 5; ++op) {
			G x(g); M y(m); path.push_back(op);
			if (op == 0) XQ(x(), y(), "%s ops %s", n, str(path).c_str());
			else if (op == 1) { x.reset(); y = m0; }
			else if (op == 2) { r0(x, y); }
			else if (op == 3) { r1(x, y); }
			else { for (int i = 0; i < 5; ++i) XQ(x(), y(), "%s ops %s", n, str(path).c_str()); }
			{ G p(x); M q(y); for (int i = 0; i < 6; ++i) XQ(p(), q(), "%s after ops %s output %d", n, str(path).c_str(), i); }
			go(x, y, left - 1); path.pop_back();
		}
	};
	G fresh; go(fresh, m0, depth);
	MC_SAMPLE("%s: all histories of %d operations", n, depth);
}
struct M32 { u32 y; u32 operator()() { return y = o32(y); } };
struct M64 { u64 y; u64 operator()() { return y = o64(y); } };
template <typename G, typename W> void limits(const char *n, W least = 1)
{
	MC_CHECK(G::min() <= least && G::max() == (typename G::result_type)std::numeric_limits<W>::max() && sizeof(typename G::result_type) == sizeof(W), "%s min/max", n);
	++transitions; ++states;
}
void mc_register()
{
	for (u64 k = 0; k < 16; ++k) job(fmt("x32_relation_%02d", (int)k), [k]() { u64 n = 1ull << 28; range32(k * n, (k + 1) * n); });
	job("x32_cycle", cycle);
	job("x64", x64); job("x128", x128); job("xwow", xwow);
	job("hist", []() {
		int d = thorough ? 8 : 6;
		hist<CODE::Xorshift32>("Xorshift32", M32{2463534242u}, [](CODE::Xorshift32 &g, M32 &m) { g.reset(1); m.y = 1; }, [](CODE::Xorshift32 &g, M32 &m) { g.reset(0x80000000u); m.y = 0x80000000u; }, d);
		hist<CODE::Xorshift64>("Xorshift64", M64{88172645463325252ull}, [](CODE::Xorshift64 &g, M64 &m) { g.reset(1); m.y = 1; }, [](CODE::Xorshift64 &g, M64 &m) { g.reset(1ull << 63); m.y = 1ull << 63; }, d);
		M128 m; memcpy(m.s, D128, sizeof m.s);
		hist<CODE::Xorshift128>("Xorshift128", m, [](CODE::Xorshift128 &g, M128 &m) { g.reset(5); m = M128{{5, D128[1], D128[2], D128[3]}}; }, [](CODE::Xorshift128 &g, M128 &m) { g.reset(1, 2, 3); m = M128{{1, 2, 3, D128[3]}}; }, d);
		MW w{{DW[0], DW[1], DW[2], DW[3], DW[4]}, DW[5]};
		hist<CODE::Xorwow>("Xorwow", w, [w](CODE::Xorwow &g, MW &m) { g.reset(5); m = w; m.s[0] = 5; }, [w](CODE::Xorwow &g, MW &m) { g.reset(1, 2, 3, 4, 5, 6); m = MW{{1, 2, 3, 4, 5}, 6}; }, d);
		limits<CODE::Xorshift32, u32>("Xorshift32"); limits<CODE::Xorshift64, u64>("Xorshift64"); limits<CODE::Xorshift128, u32>("Xorshift128", 0); limits<CODE::Xorwow, u32>("Xorwow", 0);
	});
}
