#include "mc.hh"
#include "mls.hh"
using namespace mc;
static int deg(unsigned p) { return 31 - __builtin_clz(p); }
// oracle: the register is the residue a(x) mod p(x); a step emits the top coefficient and multiplies by x
struct L { unsigned p; int d; unsigned r; L(unsigned p, unsigned r) : p(p), d(deg(p)), r(r) {}
	bool operator()() { bool f = r >> (d - 1) & 1; r = (r << 1) & ((2u << (d - 1)) - 1); if (f) r ^= p & ((1u << d) - 1); return f; } };
static bool obad(unsigned p, unsigned r)
{
	L l(p, r); u64 n = (1ull << l.d) - 1;
	for (u64 i = 1; i < n; ++i) { l(); if (l.r == r) return true; }
	l(); return l.r != r;
}
static void streams(unsigned p, unsigned r, int steps)
{
	CODE::MLS m((int)p, (int)r); L l(p, r);
	++states; ++traces;
	for (int i = 0; i < steps; ++i) { ++transitions; bool g = opaque((int)m()), w = l(); MC_CHECK(g == w, "poly %#x start %#x bit %d: got %d want %d", p, r, i, g, w); }
	m.reset((int)r); L k(p, r);
	for (int i = 0; i < deg(p) + 2; ++i) { ++transitions; MC_CHECK(m() == k(), "poly %#x reset(%#x) bit %d", p, r, i); }
	m.reset(); L k1(p, 1);
	for (int i = 0; i < 2 * deg(p) + 2; ++i) { ++transitions; MC_CHECK(m() == k1(), "poly %#x reset() bit %d", p, i); }
}
static void badness(unsigned p, unsigned r, bool dflt = false)
{
	++states; ++transitions;
	CODE::MLS m((int)p, (int)((r ^ 1) ? 1 : 1));
	m(); m();
	bool g = dflt ? m.bad() : m.bad((int)r), w = obad(p, r);
	MC_CHECK(g == w, "poly %#x start %#x: bad() says %d, period says %d", p, r, g, w);
	// afterwards the object is still a working generator
	if (!g) { L l(p, r); for (int i = 0; i < 2 * deg(p) + 2; ++i) { ++transitions; MC_CHECK(m() == l(), "poly %#x start %#x: bit %d after bad()", p, r, i); } }
	m.reset((int)r); L l(p, r);
	for (int i = 0; i < deg(p) + 2; ++i) { ++transitions; MC_CHECK(m() == l(), "poly %#x start %#x: bit %d after bad() and reset", p, r, i); }
}
void mc_register()
{
	int D = thorough ? 16 : 12;
	for (int d = 1; d <= D; ++d) {
		int chunks = d >= 12 ? 16 : d >= 10 ? 4 : 1;
		for (int c = 0; c < chunks; ++c)
			job(fmt("deg%02d_%d", d, c), [d, c, chunks]() {
				unsigned n = 1u << d;
				for (unsigned p = n + n / chunks * c; p < n + n / chunks * (c + 1); ++p) {
					// every start state for small degrees, boundary ones otherwise
					if (d <= 8) for (unsigned r = 1; r < n; ++r) { streams(p, r, 2 * n + 3); badness(p, r); }
					else { for (int i = 0; i < d; ++i) { streams(p, 1u << i, 3 * d + 5); badness(p, 1u << i); streams(p, (n - 1) >> i, 3 * d + 5); } badness(p, n - 1); }
					badness(p, 1, true);
				}
				MC_SAMPLE("degree %d: polynomials %#x..%#x", d, n + n / chunks * c, n + n / chunks * (c + 1) - 1);
			});
	}
	// primitive and near-miss polynomials of higher degree
	struct C { unsigned p; int tier; };
	for (C c : std::vector<C>{{0b100000000000000001001, 0}, {0x100005, 0}, {(1u << 13) | 27, 0}, {(1u << 14) | 0x2b, 0}, {(1u << 15) | 3, 0}, {(1u << 15) | 5, 0}, {(1u << 16) | 0x2d, 0}, {(1u << 16) | 3, 0}, {(1u << 17) | 9, 0}, {(1u << 17) | 8, 0}, {(1u << 18) | 0x81, 0},
		{(1u << 19) | 0x27, 0}, {(1u << 21) | 5, 0}, {(1u << 22) | 3, 0}, {(1u << 23) | 0x21, 0}, {(1u << 24) | 0x87, 0}, {(1u << 25) | 9, 0}, {(1u << 25) | 3, 0}, {(1u << 26) | 0x47, 0}, {(1u << 27) | 0x27, 0}, {(1u << 28) | 9, 0}, {(1u << 29) | 5, 0}, {(1u << 29) | 3, 0}, {(1u << 30) | 1, 0}, {(1u << 30) | 0x53, 1}, {(1u << 30) | 0x800007, 0}})
		job(fmt("poly_%x", c.p), [c]() { int d = deg(c.p); for (int i = 0; i < d; ++i) streams(c.p, 1u << i, 5000); streams(c.p, (1u << d) - 1, 5000); badness(c.p, 1); if (d <= 20) { badness(c.p, (1u << d) - 1); badness(c.p, 2); streams(c.p, 1, (2 << d) + 100); } MC_SAMPLE("poly %#x bad=%d", c.p, (int)obad(c.p, 1)); }, c.tier);
	job("default", []() {
		CODE::MLS a, b(0b100000000000000001001), c(0b100000000000000001001, 1); L l(0b100000000000000001001, 1);
		for (int i = 0; i < 3000000; ++i) { bool w = l(); ++transitions; ++states; MC_CHECK(a() == w && b() == w && c() == w, "default sequence bit %d", i); }
		MC_CHECK(!a.bad(), "default polynomial reported bad"); ++traces;
		// all op histories: step, reset, reset(v), bad
		std::vector<int> path;
		std::function<void(CODE::MLS, L, int)> go = [&](CODE::MLS m, L l, int left) {
			++states; if (!left) { ++traces; return; }
			for (int op = 0; op < 6; ++op) {
				CODE::MLS x(m); L y(l); path.push_back(op);
				if (op == 0) { ++transitions; MC_CHECK(x() == y(), "ops %s", str(path).c_str()); }
				if (op == 1) { x.reset(); y.r = 1; }
				if (op == 2) { x.reset(5); y.r = 5; }
				if (op == 3) { ++transitions; MC_CHECK(!x.bad(), "ops %s", str(path).c_str()); y.r = 1; }
				if (op == 4) { ++transitions; MC_CHECK(!x.bad(6), "ops %s", str(path).c_str()); y.r = 6; }
				if (op == 5) for (int i = 0; i < 3; ++i) { ++transitions; MC_CHECK(x() == y(), "ops %s", str(path).c_str()); }
				{ CODE::MLS p(x); L q(y); for (int i = 0; i < 4; ++i) { ++transitions; MC_CHECK(p() == q(), "after ops %s bit %d", str(path).c_str(), i); } }
				go(x, y, left - 1); path.pop_back();
			}
		};
		go(CODE::MLS(0b10011), L(0b10011, 1), thorough ? 8 : 6);
	});
}
