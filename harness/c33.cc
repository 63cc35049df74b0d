// C33: arithmetic of the polar helper: scalar and vector lanes against integer definitions.
#include "mc.hh"
#include "polar_helper.hh"
using namespace mc;
static int sg(int v) { return (v > 0) - (v < 0); }
static int cl(int v, int l, int h) { return v < l ? l : v > h ? h : v; }
static double dsg(double v) { return (v > 0) - (v < 0); }
template <typename V> std::string ty() { return fmt("%s%d", V(0.5) == V(0) ? "int" : "float", (int)sizeof(V) * 8); }
// value grids; 8 bits: everything
template <typename V> std::vector<V> grid()
{
	std::vector<V> r;
	if (sizeof(V) == 1) { for (int i = -128; i < 128; ++i) r.push_back((V)i); return r; }
	for (double d : {0., 1., 2., 3., 5., 7., 8., 31., 64., 100., 126., 127., 128., 129., 150., 180., 181.}) { r.push_back((V)d); if (d) r.push_back((V)-d); }
	if (V(0.5) != V(0)) for (double d : {0.25, 0.5, 1.5, 77.75}) r.push_back((V)d), r.push_back((V)-d);
	if (sizeof(V) > 2) for (double d : {1000., 32767., 32768., 65536., 1048575.}) r.push_back((V)d), r.push_back((V)-d);
	return r;
}
// definitions.  w: vector lanes saturate sums at the type's limits, the scalar at -127 and 127
template <typename V> struct Def {
	static bool dom2(V, V) { return true; }
	static V abs_(V a) { return sizeof(V) == 1 ? (V)std::abs(cl((int)a, -127, 127)) : a < 0 ? (V)-a : a; }
	static V add(V a, V b, bool w) { return sizeof(V) == 1 ? (V)cl((int)a + (int)b, w ? -128 : -127, 127) : (V)(a + b); }
	static V prod(V a, V b) { return (V)(dsg((double)a) * dsg((double)b) * std::min((double)abs_(a), (double)abs_(b))); }
	static V madd(V a, V b, V c) { return sizeof(V) == 1 ? (V)cl((int)a * (int)b + (int)c, -127, 127) : (V)(a * b + c); }
};
template <typename V> void scalar()
{
	job(fmt("scalar %s", ty<V>().c_str()), [] {
		typedef CODE::PolarHelper<V> PH; typedef Def<V> D; auto g = grid<V>();
		MC_CHECK(PH::one() == V(1) && PH::zero() == V(0), "constants");
		for (V a : g) {
			MC_CHECK((double)PH::signum(a) == dsg((double)a), "signum(%g) = %g", (double)a, (double)PH::signum(a));
			MC_CHECK(PH::qabs(a) == D::abs_(a), "qabs(%g) = %g", (double)a, (double)PH::qabs(a));
			for (V b : g) {
				++states; transitions += 5;
				MC_CHECK(PH::qmin(a, b) == std::min(a, b), "qmin(%g, %g)", (double)a, (double)b);
				MC_CHECK(PH::qadd(a, b) == D::add(a, b, false), "qadd(%g, %g) = %g", (double)a, (double)b, (double)PH::qadd(a, b));
				MC_CHECK(PH::prod(a, b) == D::prod(a, b), "prod(%g, %g) = %g", (double)a, (double)b, (double)PH::prod(a, b));
				for (int s = -1; s <= 1; ++s) {
					if (sizeof(V) > 1 || a > -128) MC_CHECK(PH::qmul(a, (V)s) == (V)(a * s), "qmul(%g, %d) = %g", (double)a, s, (double)PH::qmul(a, (V)s));
					if (sizeof(V) > 1 || (a > -128 && b > -128)) MC_CHECK(PH::madd((V)s, a, b) == D::madd((V)s, a, b), "madd(%d, %g, %g) = %g", s, (double)a, (double)b, (double)PH::madd((V)s, a, b));
				}
			}
		}
		++traces;
	});
}
template <typename V, int W> void vect()
{
	job(fmt("SIMD<%s, %d>", ty<V>().c_str(), W), [] {
		typedef SIMD<V, W> T; typedef CODE::PolarHelper<T> PH; typedef Def<V> D; auto g = grid<V>();
		std::vector<std::array<V, 2>> t; for (V a : g) for (V b : g) t.push_back({a, b});
		T o = PH::one(), z = PH::zero(); for (int l = 0; l < W; ++l) MC_CHECK(o.v[l] == V(1) && z.v[l] == V(0), "constants");
		// every pair passes through every lane; neighbouring lanes hold unrelated pairs
		const size_t n = t.size(), st = n / W | 1;
		for (size_t i = 0; i < n; ++i) {
			T a, b; for (int l = 0; l < W; ++l) { auto &p = t[(i + l * st) % n]; a.v[l] = p[0]; b.v[l] = p[1]; }
			++states;
			T s = PH::signum(a), q = PH::qabs(a), d = PH::qadd(a, b), p = PH::prod(a, b);
			for (int l = 0; l < W; ++l) {
				double x = a.v[l], y = b.v[l]; transitions += 4;
				MC_CHECK((double)s.v[l] == dsg(x), "lane %d signum(%g) = %g", l, x, (double)s.v[l]);
				MC_CHECK(q.v[l] == D::abs_(a.v[l]), "lane %d qabs(%g) = %g", l, x, (double)q.v[l]);
				MC_CHECK(d.v[l] == D::add(a.v[l], b.v[l], true), "lane %d qadd(%g, %g) = %g", l, x, y, (double)d.v[l]);
				MC_CHECK(p.v[l] == D::prod(a.v[l], b.v[l]), "lane %d prod(%g, %g) = %g", l, x, y, (double)p.v[l]);
			}
			if (sizeof(V) == 1) for (int l = 0; l < W; ++l) a.v[l] = std::max<int>(a.v[l], -127), b.v[l] = std::max<int>(b.v[l], -127);
			for (int r = 0; r < 3; ++r) {
				T h; for (int l = 0; l < W; ++l) h.v[l] = (V)((l * 2 + r + (int)(i % 3)) % 3 - 1);
				T m = PH::qmul(a, h), f = PH::madd(h, a, b);
				for (int l = 0; l < W; ++l) {
					transitions += 2;
					MC_CHECK(m.v[l] == (V)(a.v[l] * h.v[l]), "lane %d qmul(%g, %g) = %g", l, (double)a.v[l], (double)h.v[l], (double)m.v[l]);
					MC_CHECK(f.v[l] == D::madd(h.v[l], a.v[l], b.v[l]), "lane %d madd(%g, %g, %g) = %g", l, (double)h.v[l], (double)a.v[l], (double)b.v[l], (double)f.v[l]);
				}
			}
		}
		++traces;
	});
}
void mc_register()
{
	scalar<int8_t>(); scalar<int16_t>(); scalar<int32_t>(); scalar<float>(); scalar<double>();
	vect<int8_t, 16>(); vect<int8_t, 32>(); vect<int8_t, 64>(); vect<int8_t, 48>(); vect<int8_t, 4>(); vect<int8_t, 1>();
	vect<float, 4>(); vect<float, 8>(); vect<float, 16>(); vect<float, 3>(); vect<int16_t, 8>(); vect<int16_t, 16>(); vect<int32_t, 4>(); vect<int32_t, 8>(); vect<double, 4>(); vect<double, 2>();
	job("quantisation", [] {
		// eighths over the whole range: ties included, round to even
		for (int e = -8 * 400; e <= 8 * 400; ++e) {
			double x = e / 8.0; int f = (int)std::floor(x); double r = x - f; int w = r < 0.5 ? f : r > 0.5 ? f + 1 : f % 2 ? f + 1 : f; w = cl(w, -127, 127);
			++states; transitions += 4;
			MC_CHECK((int)CODE::PolarHelper<int8_t>::quant((float)x) == w, "quant(%g) = %d", x, (int)CODE::PolarHelper<int8_t>::quant((float)x));
			MC_CHECK((int)CODE::PolarHelper<int8_t>::quant(x) == w, "quant(%g) = %d", x, (int)CODE::PolarHelper<int8_t>::quant(x));
			MC_CHECK(CODE::PolarHelper<float>::quant((float)x) == (float)x && CODE::PolarHelper<float>::quant(x) == (float)x, "float quant(%g)", x);
			MC_CHECK(CODE::PolarHelper<double>::quant(x) == x, "double quant(%g)", x);
		}
		for (double x : {1e3, 32767.0, 32768.0, 65535.5, 1e6, 2147483648.0, 1e12, 1e30}) for (int s = -1; s <= 1; s += 2) { MC_CHECK((int)CODE::PolarHelper<int8_t>::quant((float)(s * x)) == s * 127, "quant(%g)", s * x); MC_CHECK((int)CODE::PolarHelper<int8_t>::quant(s * x) == s * 127, "quant(%g)", s * x); }
		for (int i = -40000; i <= 40000; ++i) { MC_CHECK((int)CODE::PolarHelper<int8_t>::quant(i) == cl(i, -127, 127), "quant(int %d)", i); if (i == (int16_t)i) MC_CHECK((int)CODE::PolarHelper<int8_t>::quant((int16_t)i) == cl(i, -127, 127), "quant(int16 %d)", i); MC_CHECK(CODE::PolarHelper<int32_t>::quant(i) == i, "quant"); ++transitions; }
		++traces;
	});
}
