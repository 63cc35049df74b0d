#include "mc.hh"
#include "exclusive_reduce.hh"
#include "simd.hh"
using namespace mc;
// free commutative monoid: multiplicity of every input
struct MS { std::vector<u8> c; bool operator==(const MS &o) const { return c == o.c; } };
static void freeone(int n)
{
	++states; ++traces;
	std::vector<MS> in(n), out(n + 2); 
	for (int i = 0; i < n; ++i) { in[i].c.assign(n, 0); in[i].c[i] = 1; }
	std::vector<MS> keep(in);
	out[0].c = {9}; out[n + 1].c = {8};
	CODE::exclusive_reduce((const MS *)in.data(), out.data() + 1, n, [n](const MS &a, const MS &b) { MS r(a); for (int i = 0; i < n; ++i) r.c[i] += b.c[i]; return r; });
	for (int i = 0; i < n; ++i) { ++transitions; for (int j = 0; j < n; ++j) MC_CHECK(out[i + 1].c.size() == (size_t)n && out[i + 1].c[j] == (i != j), "length %d: output %d contains input %d %d times", n, i, j, out[i + 1].c.size() ? out[i + 1].c[j] : -1); }
	MC_CHECK(out[0].c == std::vector<u8>{9} && out[n + 1].c == std::vector<u8>{8}, "length %d: wrote outside the output", n);
	MC_CHECK(in == keep, "length %d: input modified", n);
}
template <typename T, typename OP> void concrete(const char *name, int n, const std::vector<T> &alpha, OP op)
{
	std::vector<T> in(n), out(n);
	tuples(n, (int)alpha.size(), [&](const int *t) {
		++states; ++traces;
		for (int i = 0; i < n; ++i) in[i] = alpha[t[i]];
		CODE::exclusive_reduce((const T *)in.data(), out.data(), n, op);
		for (int i = 0; i < n; ++i) {
			bool first = true; T w = T();
			for (int j = 0; j < n; ++j) if (j != i) { w = first ? in[j] : op(w, in[j]); first = false; }
			++transitions; MC_CHECK(out[i] == w, "%s of %s: output %d is %lld want %lld", name, str(in).c_str(), i, (long long)out[i], (long long)w);
			MC_CHECK(in[i] == alpha[t[i]], "%s: input changed", name);
		}
	});
}
template <typename T, int W> void lanes(int n, int base)
{
	typedef SIMD<T, W> V; std::vector<V> in(n), out(n);
	tuples(n, base, [&](const int *t) {
		++states; ++traces;
		for (int i = 0; i < n; ++i) for (int l = 0; l < W; ++l) in[i].v[l] = (T)((t[i] * 37 + l * 11 + i * (l % 5)) % 100 - 50);
		CODE::exclusive_reduce((const V *)in.data(), out.data(), n, [](V a, V b) { return vmin(a, b); });
		for (int i = 0; i < n; ++i) for (int l = 0; l < W; ++l) { T w = std::numeric_limits<T>::max(); for (int j = 0; j < n; ++j) if (j != i) w = std::min(w, in[j].v[l]); ++transitions; MC_CHECK(out[i].v[l] == w, "SIMD min of %d vectors: output %d lane %d", n, i, l); }
	});
}
void mc_register()
{
	for (int k = 0; k < 8; ++k) job(fmt("free%d", k), [k]() { for (int n = 2 + k; n <= (thorough ? 255 : 200); n += 8) freeone(n); MC_SAMPLE("all lengths 2..200 congruent %d mod 8 over the free commutative monoid", k + 2); });
	job("long", []() { for (int n : {300, 511, 512, 513, 1000, 4096, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 140000}) { std::vector<u64> in(n), out(n); Fill f(n); u64 all = 0, ops = 0;  for (auto &x : in) all += x = f(); CODE::exclusive_reduce((const u64 *)in.data(), out.data(), n, [&ops](u64 a, u64 b) { ++ops; return a + b; }); MC_CHECK(ops <= 4 * (u64)n, "sum of %d values took %lld applications of the operation", n, (long long)ops); ++states; ++traces; for (int i = 0; i < n; ++i) { ++transitions; MC_CHECK(out[i] == all - in[i], "sum of %d values: output %d", n, i); } } });
	job("ops", []() {
		for (int n = 2; n <= 8; ++n) {
			concrete<int>("xor", n, {0, 1, 2, 7}, [](int a, int b) { return a ^ b; });
			concrete<i8>("min", n, {-128, -1, 0, 127}, [](i8 a, i8 b) { return a < b ? a : b; });
			concrete<u8>("or", n, {1, 2, 128}, [](u8 a, u8 b) { return (u8)(a | b); });
			concrete<u32>("mul mod 257", n, {1, 2, 0, 256}, [](u32 a, u32 b) { return a * b % 257; });
			concrete<double>("max", n, {-1.5, 0.25, 3}, [](double a, double b) { return a > b ? a : b; });
		}
		MC_SAMPLE("xor/min/or/mul/max over all inputs of up to 8 elements");
	});
	job("simd", []() { for (int n = 2; n <= 6; ++n) { lanes<i8, 32>(n, 4); lanes<i8, 16>(n, 4); lanes<float, 8>(n, 3); lanes<i16, 16>(n, 3); } });
}
