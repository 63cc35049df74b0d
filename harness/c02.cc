#include "mc.hh"
#include "prime_field.hh"
using namespace mc;
typedef unsigned __int128 u128;
static u64 opow(u64 a, u64 m, u64 P) { u128 r = 1 % P, b = a % P; for (; m; m >>= 1, b = b * b % P) if (m & 1) r = r * b % P; return (u64)r; }
template <typename T, T P> struct H {
	typedef CODE::PrimeField<T, P> F;
#define PQ(EXPR, WANT, NAME) do { u64 got_ = opaque((u64)(EXPR)), want_ = (u64)(WANT); ++transitions; \
	if (__builtin_expect(got_ != want_, 0)) mc::fail(mc::current, fmt("mod %llu (%d bit) %s a=%llu b=%llu: got %llu want %llu", (unsigned long long)P, (int)sizeof(T) * 8, NAME, (unsigned long long)a, (unsigned long long)b, (unsigned long long)got_, (unsigned long long)want_)); } while (0)
	static void pair(u64 a, u64 b)
	{
		++states;
		F x((T)a), y((T)b);
		u64 s = (u64)(((u128)a + b) % P), d = (u64)(((u128)a + P - b) % P), p = (u64)((u128)a * b % P);
		PQ((x + y)(), s, "a+b"); PQ((x - y)(), d, "a-b"); PQ((x * y)(), p, "a*b");
		PQ(x == y, a == b, "=="); PQ(x != y, a != b, "!=");
		PQ(reduce(add(x, y))(), s, "reduce(add)"); PQ(reduce(sub(x, y))(), d, "reduce(sub)"); PQ(reduce(mul(x, y))(), p, "reduce(mul)");
		{ F t(x); F r = (t += y); PQ(t.v, s, "+="); PQ(r.v, s, "(+=)"); } { F t(x); t -= y; PQ(t.v, d, "-="); } { F t(x); t *= y; PQ(t.v, p, "*="); }
		PQ(x.v, a, "left operand kept"); PQ(y.v, b, "right operand kept");
	}
	static void division(u64 a, u64 b)
	{
		++states;
		F x((T)a), y((T)b);
		u64 q = (u64)((u128)a * opow(b, P - 2, P) % P);
		PQ((x / y)(), q, "a/b"); PQ(reduce(div(x, y))(), q, "reduce(div)");
		{ F t(x); t /= y; PQ(t.v, q, "/="); }
	}
	static void unary(u64 a)
	{
		++states; u64 b = 0;
		F x((T)a);
		PQ((-x)(), (P - a) % P, "-a"); PQ(reduce(neg(x))(), (P - a) % P, "reduce(neg)"); PQ(x(), a, "a()"); PQ(F::P, P, "P");
		if (a) { u64 r = rcp(x)(); PQ(r, opow(a, P - 2, P), "rcp"); PQ((u128)r * a % P, 1 % P, "rcp*a"); }
	}
	static void power(u64 a, u64 b) { ++states; PQ(pow(F((T)a), (T)b)(), opow(a, b, P), "pow"); }
	static void red(u64 a) { ++states; u64 b = 0; PQ(reduce(F((T)a))(), a % P, "reduce"); }
	static std::vector<u64> edge()
	{
		std::set<u64> s;
		for (u64 k = 0; k < 9; ++k) { s.insert(k % P); s.insert((P - 1 - k % P)); s.insert((P / 2 + k) % P); s.insert((P / 3 + k) % P); }
		for (int i = 0; i < 64; ++i) for (int d = -1; d <= 1; ++d) { u64 v = (1ull << i) + d; if (v < P) s.insert(v); if (i < 63 && v && v < P) s.insert(P - v); }
		return std::vector<u64>(s.begin(), s.end());
	}
	static void run()
	{
		std::vector<u64> e = edge();
		u64 full = thorough ? 9000 : 700;
		if (P <= full) {
			for (u64 a = 0; a < P; ++a) {
				unary(a);
				for (u64 b = 0; b < P; ++b) { pair(a, b); if (b) division(a, b); }
				for (u64 m = 0; m <= (P < 64 ? 3 * P + 3 : P + 2); ++m) power(a, m);
			}
		} else {
			u64 top = P < 70000 ? P : 20000;
			for (u64 k = 0; k < top; ++k) for (u64 a : {k, P - 1 - k}) { unary(a); for (u64 b : e) { pair(a, b); pair(b, a); } }
			for (u64 a : e) { unary(a); for (u64 b : e) { pair(a, b); if (b) division(a, b); } }
		}
		for (u64 a : e) for (int i = 0; i < (int)sizeof(T) * 8; ++i) for (int d = -1; d <= 1; ++d) { power(a, (T)((1ull << i) + d)); }
		for (u64 a : e) for (u64 m : e) power(a, m);
		for (int i = 0; i < (int)sizeof(T) * 8; ++i) for (int d = -2; d <= 2; ++d) red((T)((1ull << i) + d));
		for (u64 k = 0; k < 2000; ++k) { red((T)(P - 1 + k)); red((T)(k * P)); red((T)(k * P - 1)); red((T)(~(u64)0 - k)); }
		++traces;
		MC_SAMPLE("mod %llu, %d bit: %d boundary operands", (unsigned long long)P, (int)sizeof(T) * 8, (int)e.size());
	}
};
template <typename T, u64... P> void add_all() { (job(fmt("p%llu_u%d", (unsigned long long)P, (int)sizeof(T) * 8), H<T, (T)P>::run), ...); }
void mc_register()
{
#if PART == 0
	add_all<u32, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 61, 97, 127, 131, 191, 239, 251, 257, 263, 509, 521, 613>();
#elif PART == 1
	add_all<u32, 1021, 2039, 4093, 8191, 16381, 16411, 32749, 32771, 65519, 65521>();
#elif PART == 2
	add_all<u64, 2, 3, 5, 7, 11, 13, 17, 31, 127, 251, 257, 521, 673, 4099, 65521, 65537, 65539>();
#elif PART == 3
	add_all<u64, 131071, 16777213, 2147483647, 2147483659ull, 3221225473ull, 4294967279ull, 4294967291ull>();
#endif
}
