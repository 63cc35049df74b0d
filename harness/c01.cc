#include "fields.hh"
#include "galois_field.hh"
using namespace mc;

// ---- table driven fields -------------------------------------------------------------------------
template <int M, int POLY, typename TYPE> struct G {
	typedef CODE::GaloisField<M, POLY, TYPE> F;
	typedef typename F::ValueType V; typedef typename F::IndexType I;
	static const int N = (1 << M) - 1;

	static void unary(const orc::Field &o)
	{
		MC_CHECK(F::N == N && F::Q == N + 1 && F::M == M, "constants of GF(2^%d)", M);
		MC_CHECK((int)I::modulus() == N, "modulus %d", (int)I::modulus());
		MC_CHECK((int)V::zero() == 0 && !(bool)V::zero(), "zero");
		for (int a = 0; a <= N; ++a) {
			++states;
			V v((TYPE)a);
			MC_CHECK((int)v == a && (bool)v == !!a, "conversion of %d", a);
			MC_CHECK((int)(-v) == a, "GF(2^%d,%#x) -%d = %d", M, POLY, a, (int)(-v));
			transitions += 2;
			if (a) {
				I i = index(v);
				MC_CHECK((int)i == o.lg[a], "GF(2^%d,%#x) index(%d) = %d want %d", M, POLY, a, (int)i, o.lg[a]);
				MC_CHECK((int)value(i) == a, "GF(2^%d,%#x) value(index(%d)) = %d", M, POLY, a, (int)value(i));
				MC_CHECK((int)rcp(v) == o.inv(a), "GF(2^%d,%#x) rcp(%d) = %d want %d", M, POLY, a, (int)rcp(v), o.inv(a));
				MC_CHECK((int)rcp(i) == (N - o.lg[a]) % N, "GF(2^%d,%#x) rcp(index %d) = %d", M, POLY, (int)i, (int)rcp(i));
				transitions += 4;
			}
			if (a < N) {
				I i((TYPE)a);
				MC_CHECK((int)i == a, "index conversion %d", a);
				MC_CHECK((int)value(i) == o.ex[a], "GF(2^%d,%#x) value(index %d) = %d want %d", M, POLY, a, (int)value(i), o.ex[a]);
				MC_CHECK((int)index(value(i)) == a, "GF(2^%d,%#x) index(value(index %d))", M, POLY, a);
				transitions += 2;
			}
		}
	}
	static inline void pair(const orc::Field &o, int a, int b)
	{
		++states;
		V x((TYPE)a), y((TYPE)b);
#define EQ(EXPR, WANT, NAME) do { int got_ = opaque((int)(EXPR)), want_ = (WANT); ++transitions; \
		if (__builtin_expect(got_ != want_, 0)) mc::fail(mc::current, fmt("GF(2^%d,%#x,%d bit storage) %s a=%d b=%d: got %d want %d", M, POLY, (int)sizeof(TYPE) * 8, NAME, a, b, got_, want_)); } while (0)
		int p = o.m(a, b);
		EQ(x + y, a ^ b, "a+b"); EQ(x - y, a ^ b, "a-b"); EQ(x * y, p, "a*b");
		EQ(x == y, a == b, "a==b"); EQ(x != y, a != b, "a!=b");
		{ V t(x); t += y; EQ(t, a ^ b, "a+=b"); }
		{ V t(x); V r = (t *= y); EQ(t, p, "a*=b"); EQ(r, p, "(a*=b)"); }
		if (b) { EQ(x / y, o.d(a, b), "a/b"); }
		if (b < N) {
			I j((TYPE)b); int vb = o.ex[b];
			EQ(x * j, o.m(a, vb), "value*index"); EQ(j * x, o.m(a, vb), "index*value");
			EQ(x / j, o.d(a, vb), "value/index");
			{ V t(x); t *= j; EQ(t, o.m(a, vb), "value*=index"); }
			if (a) EQ(j / x, o.d(vb, a), "index/value");
			if (a < N) {
				I i((TYPE)a);
				EQ(i * j, (a + b) % N, "index*index"); EQ(i / j, (a - b + N) % N, "index/index");
				{ I t(i); t *= j; EQ(t, (a + b) % N, "index*=index"); }
				{ I t(i); t /= j; EQ(t, (a - b + N) % N, "index/=index"); }
			}
		}
	}
	static inline void triple(const orc::Field &o, int a, int b, int c)
	{
		++states;
		V x((TYPE)a), y((TYPE)b), z((TYPE)c);
		EQ(fma(x, y, z), o.m(a, b) ^ c, fmt("fma(v,v,%d)", c).c_str());
		if (b < N) EQ(fma(x, I((TYPE)b), z), o.m(a, o.ex[b]) ^ c, fmt("fma(v,i,%d)", c).c_str());
		if (a < N) EQ(fma(I((TYPE)a), y, z), o.m(o.ex[a], b) ^ c, fmt("fma(i,v,%d)", c).c_str());
		if (a < N && b < N) EQ(fma(I((TYPE)a), I((TYPE)b), z), o.m(o.ex[a], o.ex[b]) ^ c, fmt("fma(i,i,%d)", c).c_str());
	}
	static std::vector<int> edge()
	{
		std::set<int> s;
		for (int k = 0; k <= M; ++k) for (int d = -2; d <= 2; ++d) { int v = (1 << k) + d; if (v >= 0 && v <= N) s.insert(v); }
		for (int d = 0; d < 6; ++d) { s.insert(d); s.insert(N - d > 0 ? N - d : 0); }
		int c = POLY & N; s.insert(c); s.insert(c >> 1); s.insert(N / 3); s.insert(N / 2 + 1); s.insert(0x5555 & N); s.insert(0xAAAA & N);
		return std::vector<int>(s.begin(), s.end());
	}
	static void run()
	{
		// dynamic so that the instance's tables live on the heap of this job only
		std::unique_ptr<F> f(new F);
		orc::Field o(M, POLY);
		unary(o);
		std::vector<int> e = edge();
		bool all = M <= 12 || (mc::thorough && M <= 16);
		if (all) {
			for (int a = 0; a <= N; ++a) for (int b = 0; b <= N; ++b) pair(o, a, b);
		} else {
			for (int a = 0; a <= N; ++a) {
				for (int b : e) { pair(o, a, b); pair(o, b, a); }
				// wrap-around anti-diagonals and diagonals of the index arithmetic
				for (int d = -2; d <= 2; ++d) {
					int b = N - a + d; if (b >= 0 && b <= N) pair(o, a, b);
					b = a + d; if (b >= 0 && b <= N) pair(o, a, b);
				}
			}
		}
		if (M <= (mc::thorough ? 8 : 6)) {
			for (int a = 0; a <= N; ++a) for (int b = 0; b <= N; ++b) for (int c = 0; c <= N; ++c) triple(o, a, b, c);
		} else if (M <= 9) {
			for (int a = 0; a <= N; ++a) for (int b = 0; b <= N; ++b) { triple(o, a, b, 0); triple(o, a, b, N); triple(o, a, b, o.m(a, b)); triple(o, a, b, a); triple(o, a, b, b); }
		} else {
			for (int a = 0; a <= N; ++a) for (int b : e) for (int c : {0, N, a, b}) { triple(o, a, b, c); triple(o, b, a, c); }
		}
		++traces;
		MC_SAMPLE("GF(2^%d) poly %#x: %d*%d=%d, exp(%d)=%d", M, POLY, N, N, o.m(N, N), N - 1, o.ex[N - 1]);
		// destroying the field and constructing it again gives the same field
		f.reset(); f.reset(new F);
		unary(o); ++traces;
		// two different fields alive at once must not disturb each other
		std::unique_ptr<CODE::GaloisField<4, 25, uint32_t>> g(new CODE::GaloisField<4, 25, uint32_t>);
		unary(o); g.reset(); unary(o); ++traces;
	}
};
template <int M, typename TYPE, int... P> void addt(Polys<P...>, int from, int to, int tier = 0)
{
	int k = 0;
	((k >= from && k < to ? job(fmt("gf%d_%d_u%d", M, P, (int)sizeof(TYPE) * 8), G<M, P, TYPE>::run, tier) : (void)0, ++k), ...);
}

// ---- reference implementation --------------------------------------------------------------------
template <int M, int64_t POLY, typename TYPE> struct R {
	typedef CODE::GaloisFieldReference<M, POLY, TYPE> E;
	static void one(u64 a, u64 b)
	{
		++states;
		E x((TYPE)a), y((TYPE)b);
		u64 p = orc::mul(a, b, M, POLY);
#define RQ(EXPR, WANT, NAME) do { u64 got_ = opaque<u64>(EXPR), want_ = (WANT); ++transitions; \
		if (__builtin_expect(got_ != want_, 0)) mc::fail(mc::current, fmt("reference GF(2^%d,%#llx,%d bit) %s a=%llu b=%llu: got %llu want %llu", M, (unsigned long long)POLY, (int)sizeof(TYPE) * 8, NAME, (unsigned long long)a, (unsigned long long)b, (unsigned long long)got_, (unsigned long long)want_)); } while (0)
		RQ((x + y).v, a ^ b, "a+b"); RQ((x - y).v, a ^ b, "a-b"); RQ((-x).v, a, "-a"); RQ((x * y).v, p, "a*b");
		RQ(x == y, a == b, "a==b"); RQ(x != y, a != b, "a!=b");
		{ E t(x); t += y; RQ(t.v, a ^ b, "a+=b"); }
		{ E t(x); t *= y; RQ(t.v, p, "a*=b"); }
		if (b) { u64 q = (x / y).v; RQ(orc::mul(q, b, M, POLY), a, "(a/b)*b"); }
	}
	static void inv(u64 a)
	{
		++states;
		u64 r = rcp(E((TYPE)a)).v;
		++transitions;
		if (r >> M || orc::mul(r, a, M, POLY) != 1) mc::fail(mc::current, fmt("reference GF(2^%d,%#llx) rcp(%llu) = %llu", M, (unsigned long long)POLY, (unsigned long long)a, (unsigned long long)r));
	}
	static void run()
	{
		u64 N = (1ull << M) - 1;
		if (M <= 16) for (u64 a = 1; a <= N; ++a) inv(a);
		if (M <= 8) { for (u64 a = 0; a <= N; ++a) for (u64 b = 0; b <= N; ++b) one(a, b); }
		std::set<u64> s;
		for (int i = 0; i < M; ++i) {
			for (int j = 0; j < M; ++j) { s.insert((1ull << i) ^ (1ull << j)); s.insert(1ull << i); s.insert(N ^ (1ull << i) ^ (1ull << j)); s.insert(((1ull << i) - 1) ^ (1ull << j)); }
			s.insert(N >> i);
		}
		for (u64 k = 0; k < 16; ++k) { s.insert(k & N); s.insert((N - k) & N); s.insert((POLY + k) & N); }
		for (u64 a : s) { if (a) inv(a); }
		int stride = M > 16 ? 7 : 1, k = 0;
		for (u64 a : s) { ++k; if (M > 8) for (u64 b : s) if (stride == 1 || b < 64 || (k % stride) == 0) one(a, b); }
		if (M > 16) {
			// every low and every high part
			for (u64 a = 1; a < 65536; ++a) { inv(a); inv((a << (M - 16)) & N ? (a << (M - 16)) & N : 1); inv(((a << (M - 16)) | 1) & N); }
		}
		++traces;
		MC_SAMPLE("reference GF(2^%d) poly %#llx: %d element pairs' table", M, (unsigned long long)POLY, (int)s.size());
	}
	static void all_inverses(u64 lo, u64 hi)
	{
		for (u64 a = lo; a < hi; ++a) if (a) inv(a);
		++traces;
	}
};
template <int M, typename T, int... P> void addr(Polys<P...>) { (job(fmt("ref%d_%d_u%d", M, P, (int)sizeof(T) * 8), R<M, P, T>::run), ...); }
// all irreducible (not only primitive) polynomials of degree <= 6, the AES one and others of degree 8
typedef Polys<31> I4; typedef Polys<37, 41, 47, 55, 59, 61> I5; typedef Polys<73, 87, 117> I6;
typedef Polys<283, 313, 319, 375, 379, 395, 415, 419, 433, 445, 471, 477, 499, 505> I8;

void mc_register()
{
#if PART == 0
	addt<2, uint8_t>(P2(), 0, 99); addt<3, uint8_t>(P3(), 0, 99); addt<4, uint8_t>(P4(), 0, 99); addt<5, uint8_t>(P5(), 0, 99); addt<6, uint8_t>(P6(), 0, 99);
	addt<2, uint16_t>(P2(), 0, 99); addt<4, uint16_t>(P4(), 0, 99); addt<6, uint32_t>(P6(), 0, 1);
#elif PART == 1
	addt<7, uint8_t>(P7(), 0, 99);
#elif PART == 2
	addt<8, uint8_t>(P8(), 0, 99);
#elif PART == 3
	addt<8, uint16_t>(P8(), 0, 1); addt<8, uint32_t>(P8(), 3, 4); addt<7, uint16_t>(P7(), 0, 1); addt<9, uint16_t>(P9(), 0, 99); addt<10, uint16_t>(P10(), 0, 99); addt<11, uint16_t>(P11(), 0, 99);
#elif PART == 4
	addt<12, uint16_t>(P12(), 0, 99); addt<13, uint16_t>(P13(), 0, 99); addt<14, uint16_t>(P14(), 0, 99); addt<15, uint16_t>(P15(), 0, 99);
#elif PART == 5
	addt<16, uint16_t>(P16(), 0, 99); addt<16, uint32_t>(P16(), 0, 1); addt<12, uint32_t>(P12(), 0, 1);
#elif PART == 6
	addr<2, uint8_t>(P2()); addr<3, uint8_t>(P3()); addr<4, uint8_t>(P4()); addr<4, uint8_t>(I4()); addr<5, uint8_t>(P5()); addr<6, uint8_t>(P6()); addr<6, uint8_t>(I6()); addr<7, uint8_t>(P7());
	addr<5, uint32_t>(P5()); addr<6, uint16_t>(I6());
#elif PART == 7
	addr<8, uint8_t>(P8()); addr<8, uint8_t>(I8()); addr<8, uint16_t>(P8()); addr<8, uint32_t>(I8());
	addr<9, uint16_t>(P9()); addr<10, uint16_t>(P10()); addr<11, uint16_t>(P11()); addr<12, uint16_t>(P12()); addr<13, uint16_t>(P13()); addr<14, uint16_t>(P14()); addr<15, uint16_t>(P15()); addr<16, uint16_t>(P16());
	addr<16, uint32_t>(P16());
	job("ref20", R<20, 0x100009, uint32_t>::run); job("ref24", R<24, 0x1000087, uint32_t>::run); job("ref31", R<31, 0x80000009, uint32_t>::run);
	job("ref32", R<32, 0x10000008D, uint32_t>::run);
	for (u64 k = 0; k < 64; ++k)
		job(fmt("ref32_inverses_%02d", (int)k), [k]() { R<32, 0x10000008D, uint32_t>::all_inverses(k << 26, (k + 1) << 26); }, 1);
#endif
}
