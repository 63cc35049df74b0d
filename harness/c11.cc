#include "mc.hh"
#include "simd.hh"
#include "rotate.hh"
using namespace mc;
template <typename T, int S, int W> void rot_one(CODE::Rotate<SIMD<T, S>, W> &r, const T *lanes, int s)
{
	typedef SIMD<T, S> V;
	++states; ++transitions;
	V a; for (int i = 0; i < S; ++i) a.v[i] = lanes[i];
	V b = r(a, s);
	for (int i = 0; i < W; ++i) {
		T w = lanes[((i - s) % W + W) % W];
		MC_CHECK(!memcmp(&b.v[i], &w, sizeof(T)), "rotate %d of %d lanes (%d byte %s) by %d: lane %d", W, S, (int)sizeof(T), std::is_floating_point<T>::value ? "float" : std::is_signed<T>::value ? "signed" : "unsigned", s, i);
	}
	for (int i = 0; i < S; ++i) MC_CHECK(!memcmp(&a.v[i], &lanes[i], sizeof(T)), "argument changed");
	digest(&b.v, sizeof(T) * W);
}
template <typename T, int S, int W> void rot()
{
	CODE::Rotate<SIMD<T, S>, W> r; const CODE::Rotate<SIMD<T, S>, W> pristine(r);
	T l[S]; ++traces;
	for (int s = -W; s < W; ++s) {
		for (int i = 0; i < S; ++i) l[i] = (T)(i + 1); rot_one<T, S, W>(r, l, s);
		for (int i = 0; i < S; ++i) l[i] = (T)(i * 5 - 100); rot_one<T, S, W>(r, l, s);
		// every single lane marked, with the sign bit set / cleared against the background
		for (int k = 0; k < S; ++k) { for (int i = 0; i < S; ++i) l[i] = i == k ? (T)-1 : (T)0; rot_one<T, S, W>(r, l, s); for (int i = 0; i < S; ++i) l[i] = i == k ? std::numeric_limits<T>::lowest() : (T)(i + 1); rot_one<T, S, W>(r, l, s); }
	}
	// composition of two rotations on one object
	for (int s = -W; s < W; ++s) for (int t = -W; t < W; ++t) {
		SIMD<T, S> a; for (int i = 0; i < S; ++i) a.v[i] = (T)(i + 3);
		SIMD<T, S> b = r(r(a, s), t); ++transitions; ++states;
		for (int i = 0; i < W; ++i) MC_CHECK(b.v[i] == a.v[((i - s - t) % W + 2 * W) % W], "rotate %d of %d by %d then %d: lane %d", W, S, s, t, i);
	}
	MC_SAMPLE("width %d of %d lanes, element %d bytes: shifts %d..%d", W, S, (int)sizeof(T), -W, W - 1);
}
template <typename T, int S, int... W> void rots(std::integer_sequence<int, W...>) { (rot<T, S, W + 1>(), ...); }
template <typename T, int S> void add(const char *n) { job(fmt("%s_%d", n, S), []() { rots<T, S>(std::make_integer_sequence<int, S>()); }); }
void mc_register()
{
#if PART == 0
	add<i8, 16>("i8"); add<i8, 8>("i8"); add<i8, 1>("i8"); add<u8, 16>("u8"); add<i16, 8>("i16"); add<float, 4>("f32"); add<double, 2>("f64"); add<i32, 4>("i32"); add<i64, 2>("i64"); add<i64, 4>("i64"); add<u32, 4>("u32"); add<u64, 2>("u64");
#elif PART == 1
	add<i8, 32>("i8");
#elif PART == 2
	add<u8, 32>("u8"); add<i16, 16>("i16"); add<u16, 8>("u16"); add<float, 8>("f32"); add<double, 4>("f64"); add<i32, 8>("i32"); add<u16, 16>("u16"); add<i8, 3>("i8"); add<i8, 5>("i8");
#elif PART == 3
	job("i8_64", []() { rot<i8, 64, 1>(); rot<i8, 64, 2>(); rot<i8, 64, 16>(); rot<i8, 64, 17>(); rot<i8, 64, 31>(); rot<i8, 64, 32>(); rot<i8, 64, 33>(); rot<i8, 64, 60>(); rot<i8, 64, 63>(); rot<i8, 64, 64>(); });
	job("mixed", []() { rot<i16, 32, 31>(); rot<i16, 32, 15>(); rot<float, 16, 15>(); rot<float, 16, 16>(); rot<double, 8, 7>(); rot<double, 8, 5>(); rot<u64, 8, 8>(); });
#endif
}
