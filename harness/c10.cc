// C10: every vector operation of every SIMD type against the scalar definition, lane by lane.
#include "mc.hh"
#include "simd.hh"
using namespace mc;

template <typename T> struct UOf { typedef T type; };
template <> struct UOf<i8> { typedef u8 type; }; template <> struct UOf<i16> { typedef u16 type; };
template <> struct UOf<i32> { typedef u32 type; }; template <> struct UOf<i64> { typedef u64 type; };
template <> struct UOf<float> { typedef u32 type; }; template <> struct UOf<double> { typedef u64 type; };

template <typename T> std::vector<T> boundary()
{
	std::vector<T> v;
	if constexpr (std::is_floating_point<T>::value) {
		const double m[] = {0, 1, 0.5, 1.5, 2, 3, 0.25, 1.0 + 1.0 / 1024, 127, 128, 255.5, 1e6, 123456.75, 1048577, 1e-3, 1e-6, 0x1p+30, 0x1p-30, 0x1p+40, 1.0/3, 16777215};
		for (double x : m) { v.push_back((T)x); if (x != 0) v.push_back((T)-x); }
		v.push_back((T)1.0000001); v.push_back((T)-1.0000001);
	} else {
		typedef typename UOf<T>::type U;
		const int B = 8 * sizeof(T);
		std::set<U> s;
		for (int i = 0; i < B; ++i) {
			if (B > 16 && i > 3 && i < B - 4 && (i % 8 > 1 && i % 8 < 7)) continue;
			U p = U(1) << i;
			s.insert(p); s.insert(p - 1); s.insert(p + 1); s.insert(U(0) - p); s.insert(U(0) - p - 1);
			if (i % 8 == 0) s.insert(U(0) - p + 1);
		}
		s.insert(0); s.insert((U)0x5555555555555555ull); s.insert((U)0xAAAAAAAAAAAAAAAAull); s.insert((U)0x0123456789ABCDEFull);
		s.insert((U)0x00FF00FF00FF00FFull); s.insert((U)0xFF00FF00FF00FF00ull);
		for (U x : s) v.push_back((T)x);
	}
	return v;
}
template <typename T> std::vector<T> values()
{
	if constexpr (sizeof(T) == 1) { std::vector<T> v; for (int i = 0; i < 256; ++i) v.push_back((T)i); return v; }
	else return boundary<T>();
}
template <typename T> bool same(T a, T b)
{
	if constexpr (std::is_floating_point<T>::value) return a == b;
	else return a == b;
}
template <typename T> std::string show(T a) { std::ostringstream o; o.precision(17); o << +a; return o.str(); }

template <typename T, int W> struct Test {
	typedef SIMD<T, W> V; typedef typename UOf<T>::type U; typedef SIMD<U, W> UV;
	static constexpr bool FLT = std::is_floating_point<T>::value;
	static constexpr bool SGN = std::is_signed<T>::value;
	static constexpr bool WIDE = sizeof(T) >= 4 && !FLT;

	static void chk(const char *op, const V &a, const V &b, int l, double got, double want)
	{
		fail(current, fmt("%s width %d lane %d: a=%s b=%s got %.17g want %.17g", op, W, l, show(a.v[l]).c_str(), show(b.v[l]).c_str(), got, want));
	}
	// one vector of operand pairs in, all binary/unary operations checked
	template <typename R, typename S> static void cmpv(const char *op, const V &a, const V &b, const R &r, S want)
	{
		++transitions;
		for (int l = 0; l < W; ++l) {
			typename R::value_type w = want(l);
			if (__builtin_expect(!same<typename R::value_type>(r.v[l], w), 0)) chk(op, a, b, l, (double)r.v[l], (double)w);
		}
	}
	static bool ovf_add(T a, T b) { if constexpr (WIDE && SGN) { T c; return __builtin_add_overflow(a, b, &c); } else return false; }
	static bool ovf_sub(T a, T b) { if constexpr (WIDE && SGN) { T c; return __builtin_sub_overflow(a, b, &c); } else return false; }
	static bool ovf_mul(T a, T b) { if constexpr (WIDE && SGN) { T c; return __builtin_mul_overflow(a, b, &c); } else return false; }
	template <typename F> static V fix(const V &a, F bad) { V r = a; for (int l = 0; l < W; ++l) if (bad(l)) r.v[l] = T(1); return r; }
	static T wrapc(long long x) { return (T)(U)x; }
	static T sat(long long x) { long long lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); return x < lo ? lo : x > hi ? hi : x; }
	static U all(bool c) { return c ? (U)~(U)0 : (U)0; }

	__attribute__((noinline)) static void unary(const V &a0)
	{
		V a = a0, n = a0;
		++states;
		if constexpr (SGN || FLT) {
			if constexpr (WIDE) n = fix(a, [&](int l) { return a.v[l] == std::numeric_limits<T>::min(); });
			cmpv("vneg", n, n, vneg(n), [&](int l) { if constexpr (FLT) return (T)-n.v[l]; else return (T)(U)(U(0) - (U)n.v[l]); });
			cmpv("vabs", n, n, vabs(n), [&](int l) { if constexpr (FLT) return n.v[l] < 0 ? (T)-n.v[l] : n.v[l]; else return n.v[l] < 0 ? (T)(U)(U(0) - (U)n.v[l]) : n.v[l]; });
			cmpv("vsignum", a, a, vsignum(a), [&](int l) { return T((a.v[l] > 0) - (a.v[l] < 0)); });
			cmpv("vcgtz", a, a, vcgtz(a), [&](int l) { return all(a.v[l] > 0); });
			cmpv("vceqz", a, a, vceqz(a), [&](int l) { return all(a.v[l] == 0); });
			cmpv("vcltz", a, a, vcltz(a), [&](int l) { return all(a.v[l] < 0); });
			cmpv("vclez", a, a, vclez(a), [&](int l) { return all(a.v[l] <= 0); });
			cmpv("vmask", a, a, vmask(a), [&](int l) { U u; memcpy(&u, &a.v[l], sizeof u); return u; });
			cmpv("vreinterpret", a, a, vreinterpret<UV>(a), [&](int l) { U u; memcpy(&u, &a.v[l], sizeof u); return u; });
		}
		if constexpr (SGN && !FLT) {
			cmpv("vqabs", a, a, vqabs(a), [&](int l) { T x = a.v[l]; return x == std::numeric_limits<T>::min() ? std::numeric_limits<T>::max() : x < 0 ? (T)-x : x; });
			cmpv("vunsigned", a, a, vunsigned(a), [&](int l) { return (U)a.v[l]; });
		}
		if constexpr (FLT) {
			typedef typename std::conditional<sizeof(T) == 4, i32, i64>::type I; typedef SIMD<I, W> IV;
			UV u = vreinterpret<UV>(a);
			V f = vreinterpret<V>(u);
			cmpv("vreinterpret to float", a, a, f, [&](int l) { return a.v[l]; });
		}
		if constexpr (!SGN) {
			typedef typename std::make_signed<T>::type I; typedef SIMD<I, W> IV;
			cmpv("vnot", a, a, vnot(a), [&](int l) { return (T)~a.v[l]; });
			cmpv("vsigned", a, a, vsigned(a), [&](int l) { return (I)a.v[l]; });
			cmpv("vreinterpret to signed", a, a, vreinterpret<IV>(a), [&](int l) { return (I)a.v[l]; });
		}
	}
	__attribute__((noinline)) static void binary(const V &a, const V &b)
	{
		++states;
		cmpv("vcgt", a, b, vcgt(a, b), [&](int l) { return all(a.v[l] > b.v[l]); });
		if constexpr (SGN || FLT) {
			cmpv("vceq", a, b, vceq(a, b), [&](int l) { return all(a.v[l] == b.v[l]); });
			cmpv("vmin", a, b, vmin(a, b), [&](int l) { return a.v[l] < b.v[l] ? a.v[l] : b.v[l]; });
			cmpv("vmax", a, b, vmax(a, b), [&](int l) { return a.v[l] > b.v[l] ? a.v[l] : b.v[l]; });
			V x = a;
			if constexpr (WIDE) x = fix(a, [&](int l) { return ovf_add(a.v[l], b.v[l]); });
			cmpv("vadd", x, b, vadd(x, b), [&](int l) { if constexpr (FLT) return (T)(x.v[l] + b.v[l]); else return (T)(U)((U)x.v[l] + (U)b.v[l]); });
			if constexpr (WIDE) x = fix(a, [&](int l) { return ovf_sub(a.v[l], b.v[l]) || ovf_sub(1, b.v[l]); });
			V y = b;
			if constexpr (WIDE) y = fix(b, [&](int l) { return ovf_sub(x.v[l], b.v[l]); });
			cmpv("vsub", x, y, vsub(x, y), [&](int l) { if constexpr (FLT) return (T)(x.v[l] - y.v[l]); else return (T)(U)((U)x.v[l] - (U)y.v[l]); });
			x = a;
			if constexpr (WIDE) x = fix(a, [&](int l) { return ovf_mul(a.v[l], b.v[l]); });
			cmpv("vmul", x, b, vmul(x, b), [&](int l) { if constexpr (FLT) return (T)(x.v[l] * b.v[l]); else return (T)(U)((u64)x.v[l] * (u64)b.v[l]); });
			x = a;
			if constexpr (WIDE) x = fix(a, [&](int l) { return a.v[l] == std::numeric_limits<T>::min(); });
			cmpv("vsign", x, b, vsign(x, b), [&](int l) { int s = (b.v[l] > 0) - (b.v[l] < 0); if constexpr (FLT) return T(s * x.v[l]); else return s > 0 ? x.v[l] : s < 0 ? (T)(U)(U(0) - (U)x.v[l]) : T(0); });
		}
		if constexpr (SGN && !FLT && sizeof(T) <= 2) {
			cmpv("vqadd", a, b, vqadd(a, b), [&](int l) { return sat((long long)a.v[l] + b.v[l]); });
			cmpv("vqsub", a, b, vqsub(a, b), [&](int l) { return sat((long long)a.v[l] - b.v[l]); });
		}
		if constexpr (!SGN) {
			cmpv("vorr", a, b, vorr(a, b), [&](int l) { return (T)(a.v[l] | b.v[l]); });
			cmpv("vand", a, b, vand(a, b), [&](int l) { return (T)(a.v[l] & b.v[l]); });
			cmpv("veor", a, b, veor(a, b), [&](int l) { return (T)(a.v[l] ^ b.v[l]); });
			cmpv("vbic", a, b, vbic(a, b), [&](int l) { return (T)(a.v[l] & ~b.v[l]); });
			if constexpr (sizeof(T) <= 2)
				cmpv("vqsub", a, b, vqsub(a, b), [&](int l) { return a.v[l] > b.v[l] ? (T)(a.v[l] - b.v[l]) : T(0); });
		}
		if constexpr (FLT) {
			V r = vcopysign(a, b);
			++transitions;
			for (int l = 0; l < W; ++l) {
				U S = U(1) << (8 * sizeof(U) - 1), x, y, z;
				memcpy(&x, &a.v[l], sizeof x); memcpy(&y, &b.v[l], sizeof y); memcpy(&z, &r.v[l], sizeof z);
				if (z != ((x & ~S) | (y & S))) chk("vcopysign", a, b, l, r.v[l], 0);
			}
		}
	}
	static void run()
	{
		std::vector<T> vals = values<T>();
		const int n = vals.size();
		// unary: every lane sees every value, neighbours differ
		auto un = [&](auto val, u64 cnt, u64 step) {
			for (u64 i = 0; i < cnt; ++i) {
				V a;
				for (int l = 0; l < W; ++l) a.v[l] = val((i + l * step) % cnt);
				unary(a);
			}
		};
		un([&](u64 i) { return vals[i]; }, n, 1);
		un([&](u64 i) { return vals[i]; }, n, 0);
		if constexpr (sizeof(T) == 2) un([&](u64 i) { return (T)i; }, 65536, 257);
		// binary: every lane sees every pair
		const u64 P = (u64)n * n;
		for (u64 step : {(u64)(n + 1), (u64)0}) {
			for (u64 i = 0; i < P; ++i) {
				V a, b;
				for (int l = 0; l < W; ++l) { u64 j = (i + l * step) % P; a.v[l] = vals[j / n]; b.v[l] = vals[j % n]; }
				binary(a, b);
			}
			if (sizeof(T) == 1 && W > 64) break;
		}
		if constexpr (sizeof(T) == 2)
			for (int d : {0, 1, 0x7FFF, 0x8000, 0x8001, 0x0100, 0x00FF, 0xFF00})
				for (u64 i = 0; i < 65536; ++i) {
					V a, b;
					for (int l = 0; l < W; ++l) { a.v[l] = (T)(i + l * 257); b.v[l] = (T)(U)((U)a.v[l] + d); if (l & 1) std::swap(a.v[l], b.v[l]); }
					binary(a, b);
				}
		// broadcast and zero
		for (T x : vals) {
			V d = vdup<V>(x), z = vzero<V>();
			cmpv("vdup", d, d, d, [&](int) { return x; });
			++transitions;
			for (int l = 0; l < W; ++l) { U u; memcpy(&u, &z.v[l], sizeof u); MC_CHECK(u == 0, "vzero width %d lane %d is %llx", W, l, (unsigned long long)u); }
		}
		// clamp: every x against every ordered pair of limits
		if constexpr (SGN || FLT) {
			std::vector<T> c = sizeof(T) == 1 ? boundary<T>() : vals;
			for (T lo : c) for (T hi : c) {
				if (lo > hi) continue;
				for (int i = 0; i < n; i += (sizeof(T) == 1 ? W : 1)) {
					V a; for (int l = 0; l < W; ++l) a.v[l] = vals[(i + l) % n];
					cmpv("vclamp", a, vdup<V>(lo), vclamp(a, lo, hi), [&](int l) { return a.v[l] < lo ? lo : a.v[l] > hi ? hi : a.v[l]; });
					++states;
				}
			}
		}
		if constexpr (!SGN) {
			std::vector<T> c = boundary<T>(), m = sizeof(T) == 1 ? vals : c;
			std::vector<T> s; for (size_t i = 0; i < c.size(); i += 3) s.push_back(c[i]);
			s.push_back((T)0x5555555555555555ull); s.push_back((T)0xAAAAAAAAAAAAAAAAull); s.push_back(0); s.push_back((T)~(T)0);
			const u64 Q = (u64)m.size() * s.size() * s.size();
			for (u64 i = 0; i < Q; ++i) {
				V a, b, d;
				for (int l = 0; l < W; ++l) { u64 j = (i + l * (s.size() + 1)) % Q; a.v[l] = m[j / s.size() / s.size()]; b.v[l] = s[j / s.size() % s.size()]; d.v[l] = s[j % s.size()]; }
				cmpv("vbsl", a, b, vbsl(a, b, d), [&](int l) { return (T)((a.v[l] & b.v[l]) | (~a.v[l] & d.v[l])); });
				++states;
			}
		}
		// shuffle: every lane reads every index; distinct tags, strides 0..W-1, also index patterns that cross registers
		{
			auto sh = [&](auto idx) {
				V a; UV b;
				for (int k = 0; k < 2; ++k) {
					for (int l = 0; l < W; ++l) { a.v[l] = k ? (T)(U)(sizeof(T) == 1 ? 255 - 3 * l : 0x7e01 - 259 * l) : T(l + 1); b.v[l] = (U)idx(l); }
					cmpv("vshuf", a, a, vshuf(a, b), [&](int l) { return a.v[b.v[l]]; });
				}
				++states;
			};
			for (int base = 0; base < W; ++base) {
				for (int k = 0; k < W; ++k) sh([&](int l) { return (base + l * k) % W; });
				if ((W & (W - 1)) == 0) sh([&](int l) { return l ^ base; });
				sh([&](int l) { return (W - 1 - l + base) % W; });
				for (int l0 = 0; l0 < W; ++l0) sh([&](int l) { return l == l0 ? base : l; });
			}
			if constexpr (W <= 6) { tuples(W, W, [&](const int *c) { sh([&](int l) { return c[l]; }); }); }
		}
		++traces;
		MC_SAMPLE("%d-bit lanes x %d: %d values, all pairs in every lane", (int)sizeof(T) * 8, W, n);
	}
};

template <typename T, int... WS> void reg(const char *t)
{
	(job(fmt("%s x %d", t, WS), [] { Test<T, WS>::run(); }), ...);
}
void mc_register()
{
#if PART == 0
	reg<i8, 5, 16, 32, 48, 64>("int8");
#elif PART == 1
	reg<u8, 5, 16, 32, 48, 64>("uint8");
#elif PART == 2
	reg<i16, 3, 8, 16, 24, 32>("int16");
#elif PART == 3
	reg<u16, 3, 8, 16, 24, 32>("uint16");
#elif PART == 4
	reg<i32, 3, 4, 8, 12, 16>("int32");
#elif PART == 5
	reg<u32, 3, 4, 8, 12, 16>("uint32");
#elif PART == 6
	reg<i64, 1, 2, 4, 6, 8>("int64");
#elif PART == 7
	reg<u64, 1, 2, 4, 6, 8>("uint64");
#elif PART == 8
	reg<float, 3, 4, 8, 12, 16>("float");
#elif PART == 9
	reg<double, 1, 2, 4, 6, 8>("double");
#endif
}
