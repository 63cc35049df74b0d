#include "mc.hh"
#include "sort.hh"
#include "simd.hh"
#include "simd_sort.hh"
using namespace mc;
struct E { int key, tag; };
static bool less_(const E &a, const E &b) { return a.key < b.key; }
struct EL { int key, tag; bool operator<(const EL &o) const { return key < o.key; } };
static void expect(const std::vector<int> &in, std::vector<E> &want) { want.resize(in.size()); for (size_t i = 0; i < in.size(); ++i) want[i] = E{in[i], (int)i}; std::stable_sort(want.begin(), want.end(), less_); }
template <typename X> void same(const char *what, const std::vector<int> &in, const X *got, const std::vector<E> &want)
{
	++transitions;
	for (size_t i = 0; i < want.size(); ++i)
		MC_CHECK(got[i].key == want[i].key && got[i].tag == want[i].tag, "%s of %s: position %d holds element %d, stable order wants element %d", what, str(in, 80).c_str(), (int)i, got[i].tag, want[i].tag);
	MC_CHECK(got[want.size()].key == -99, "%s of %s wrote past the end", what, str(in, 80).c_str());
}
static void ins(const std::vector<int> &in)
{
	++states; ++traces;
	int n = (int)in.size(); std::vector<E> want; expect(in, want);
	std::vector<E> a(n + 1); std::vector<EL> b(n + 1);
	auto fill = [&]() { for (int i = 0; i < n; ++i) { a[i] = E{in[i], i}; b[i] = EL{in[i], i}; } a[n].key = b[n].key = -99; };
	fill(); CODE::insertion_sort(a.data(), n, less_); same("insertion_sort(comp)", in, a.data(), want);
	CODE::insertion_sort(b.data(), n); same("insertion_sort", in, b.data(), want);
	// a strict weak order that is not <
	for (int i = 0; i < n; ++i) a[i] = E{in[i], i};
	CODE::insertion_sort(a.data(), n, [](const E &x, const E &y) { return x.key > y.key; });
	{ std::vector<E> w(n); for (int i = 0; i < n; ++i) w[i] = E{in[i], i}; std::stable_sort(w.begin(), w.end(), [](const E &x, const E &y) { return x.key > y.key; }); same("insertion_sort(greater)", in, a.data(), w); }
	if (n) {
		std::vector<int> k(in); k.push_back(-99); std::vector<u16> p(n + 1, 0xBEEF); std::vector<u8> p8(n + 1, 0xEE); std::vector<int> k2(k);
		CODE::insertion_sort(p.data(), k.data(), n); if (n < 250) CODE::insertion_sort(p8.data(), k2.data(), n);
		++transitions;
		for (int i = 0; i < n; ++i) MC_CHECK(k[i] == want[i].key && p[i] == want[i].tag && (n >= 250 || (k2[i] == k[i] && p8[i] == p[i])), "insertion_sort(permutation) of %s: position %d key %d index %d want %d %d", str(in, 80).c_str(), i, k[i], p[i], want[i].key, want[i].tag);
		MC_CHECK(p[n] == 0xBEEF && k[n] == -99 && p8[n] == 0xEE, "insertion_sort(permutation) of %s wrote past the end", str(in, 80).c_str());
	}
}
template <int MAXN, int M> void mrg(CODE::MergeSort<E, MAXN, M> &ms, CODE::MergeSort<EL, MAXN, M> &ml, const std::vector<int> &in)
{
	++states; ++traces;
	int n = (int)in.size(); std::vector<E> want; expect(in, want);
	std::vector<E> a(n + 1); std::vector<EL> b(n + 1);
	for (int i = 0; i < n; ++i) { a[i] = E{in[i], i}; b[i] = EL{in[i], i}; } a[n].key = b[n].key = -99;
	ms(a.data(), n, less_); same(fmt("MergeSort<%d,%d>(comp)", MAXN, M).c_str(), in, a.data(), want);
	ml(b.data(), n); same(fmt("MergeSort<%d,%d>", MAXN, M).c_str(), in, b.data(), want);
}
// all weak orders of n elements = all sequences over {0..n-1} whose value set is an initial segment
template <typename F> void weak(int n, F f)
{
	std::vector<int> v(n);
	tuples(n, std::max(n, 1), [&](const int *t) { int seen = 0, mx = -1; for (int i = 0; i < n; ++i) { seen |= 1 << t[i]; mx = std::max(mx, t[i]); } if (n && seen != (2 << mx) - 1) return; v.assign(t, t + n); f(v); });
}
template <typename F> void families(int n, F f)
{
	std::vector<int> v(n);
	auto go = [&](auto g) { for (int i = 0; i < n; ++i) v[i] = g(i); f(v); };
	go([&](int i) { return i; }); go([&](int i) { return n - i; }); go([&](int i) { return 7; }); go([&](int i) { return i / 2; }); go([&](int i) { return (n - i) / 3; });
	go([&](int i) { return i % 2; }); go([&](int i) { return i % 7; }); go([&](int i) { return (i * 31) % 17; }); go([&](int i) { return std::min(i, n - i); }); go([&](int i) { return std::max(i, n - i); });
	go([&](int i) { return (i * 7919) % (n | 1); }); go([&](int i) { return (i / 32) % 2; }); go([&](int i) { return -(i / 32); }); go([&](int i) { return (i / 8) % 3; });
	for (int k = 0; k < n; k += std::max(1, n / 60)) {
		go([&](int i) { return i >= k; }); go([&](int i) { return i < k; }); go([&](int i) { return i == k ? -1 : i; }); go([&](int i) { return i == k ? n + 1 : i; }); go([&](int i) { return i == k ? 0 : 1; }); go([&](int i) { return (i + k) % n; });
		go([&](int i) { return i == k ? n / 2 : i; });
	}
}
template <int M> void merges(int nmax, int two)
{
	std::unique_ptr<CODE::MergeSort<E, 64, M>> ms(new CODE::MergeSort<E, 64, M>); std::unique_ptr<CODE::MergeSort<EL, 64, M>> ml(new CODE::MergeSort<EL, 64, M>);
	for (int n = 0; n <= nmax; ++n) weak(n, [&](const std::vector<int> &v) { mrg(*ms, *ml, v); });
	// all 0/1 (ties everywhere) and 0/1/2 sequences of greater length
	for (int n = nmax + 1; n <= two; ++n) { std::vector<int> v; tuples(n, 2, [&](const int *t) { v.assign(t, t + n); mrg(*ms, *ml, v); }); }
	for (int n = nmax + 1; n <= nmax + 2; ++n) { std::vector<int> v; tuples(n, 3, [&](const int *t) { v.assign(t, t + n); mrg(*ms, *ml, v); }); }
	for (int n = 0; n <= 64; ++n) families(n, [&](const std::vector<int> &v) { mrg(*ms, *ml, v); });
	MC_SAMPLE("MergeSort block %d: all weak orders up to %d elements, all 0/1 inputs up to %d", M, nmax, two);
}
template <int MAXN, int M> void mergebig(int lo, int hi)
{
	std::unique_ptr<CODE::MergeSort<E, MAXN, M>> ms(new CODE::MergeSort<E, MAXN, M>); std::unique_ptr<CODE::MergeSort<EL, MAXN, M>> ml(new CODE::MergeSort<EL, MAXN, M>);
	for (int n = lo; n <= hi && n <= MAXN; ++n) families(n, [&](const std::vector<int> &v) { mrg(*ms, *ml, v); });
	MC_SAMPLE("MergeSort<%d,%d>: structured inputs of every length %d..%d", MAXN, M, lo, hi);
}
// all sequences of values at the boundary between neighbouring blocks: n=2M..3M with k displaced elements
template <int M> void boundary()
{
	const int MAXN = 4 * M + 5;
	std::unique_ptr<CODE::MergeSort<E, MAXN, M>> ms(new CODE::MergeSort<E, MAXN, M>); std::unique_ptr<CODE::MergeSort<EL, MAXN, M>> ml(new CODE::MergeSort<EL, MAXN, M>);
	for (int n : {M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1, 3 * M - 1, 3 * M, 3 * M + 1, 4 * M, 4 * M + 1, 4 * M + 5}) {
		if (n < 2) continue;
		std::vector<int> v(n);
		for (int i = 0; i < n; i += (n > 100 ? 3 : 1)) for (int j = 0; j < n; j += (n > 100 ? 2 : 1)) { for (int k = 0; k < n; ++k) v[k] = 2 * k; v[i] = 2 * j; mrg(*ms, *ml, v); v[i] = 2 * j + 1; mrg(*ms, *ml, v); }
		for (int i = 0; i <= n; ++i) for (int j = i; j <= n; j += 2) { for (int k = 0; k < n; ++k) v[k] = k >= i && k < j; mrg(*ms, *ml, v); }
	}
	MC_SAMPLE("MergeSort block %d: every single displacement around multiples of the block size", M);
}
// long inputs: around the limits of 16 bit counters
template <int MAXN, int M> void mergehuge(std::vector<int> ns)
{
	std::unique_ptr<CODE::MergeSort<E, MAXN, M>> ms(new CODE::MergeSort<E, MAXN, M>); std::unique_ptr<CODE::MergeSort<EL, MAXN, M>> ml(new CODE::MergeSort<EL, MAXN, M>);
	for (int n : ns) {
		std::vector<int> v(n);
		auto go = [&](auto g) { for (int i = 0; i < n; ++i) v[i] = g(i); mrg(*ms, *ml, v); };
		go([&](int i) { return i; }); go([&](int i) { return n - i; }); go([&](int i) { return 7; }); go([&](int i) { return i / 2; }); go([&](int i) { return (n - i) / 3; }); go([&](int i) { return i % 7; });
		go([&](int i) { return std::max(i, n - i); }); go([&](int i) { return (int)((i * 7919ll) % (n | 1)); }); go([&](int i) { return -(i / 32); }); go([&](int i) { return (int)((u32)(i + 1) * 2654435761u >> 8); });
		for (int k : {0, 1, n / 2, n - 2, n - 1}) { go([&](int i) { return i >= k; }); go([&](int i) { return i == k ? -1 : i; }); go([&](int i) { return i == k ? n + 1 : i; }); go([&](int i) { return (i + k) % n; }); }
	}
	MC_SAMPLE("MergeSort<%d,%d>: structured inputs of up to %d elements", MAXN, M, ns.back());
}
static void inshuge(int n)
{
	std::vector<int> v(n);
	auto go = [&](auto g) { for (int i = 0; i < n; ++i) v[i] = g(i); 
		++states; ++traces; std::vector<E> want; expect(v, want);
		std::vector<E> a(n + 1); std::vector<EL> b(n + 1); std::vector<int> p(n + 1, -99), k(v); k.push_back(-99);
		for (int i = 0; i < n; ++i) { a[i] = E{v[i], i}; b[i] = EL{v[i], i}; } a[n].key = b[n].key = -99;
		CODE::insertion_sort(a.data(), n, less_); same("insertion_sort(comp)", v, a.data(), want);
		CODE::insertion_sort(b.data(), n); same("insertion_sort", v, b.data(), want);
		CODE::insertion_sort(p.data(), k.data(), n);
		for (int i = 0; i < n; ++i) MC_CHECK(k[i] == want[i].key && p[i] == want[i].tag, "insertion_sort(permutation) of %d elements: position %d key %d index %d want %d %d", n, i, k[i], p[i], want[i].key, want[i].tag);
		MC_CHECK(p[n] == -99 && k[n] == -99, "insertion_sort(permutation) of %d elements wrote past the end", n);
	};
	go([&](int i) { return i; }); go([&](int i) { return i / 3; }); go([&](int i) { return i ^ 5; }); go([&](int i) { return i + (i % 7) * 3; });
	for (int k : {0, 1, n / 2, n - 2, n - 1}) { go([&](int i) { return i == k ? -1 : i; }); go([&](int i) { return i == k ? n + 1 : i; }); go([&](int i) { return i == k ? n / 2 : i; }); }
	MC_SAMPLE("insertion sorts: nearly sorted inputs of %d elements", n);
}
// ---- SIMD lanes ----
template <typename T> std::vector<T> keys(int n)
{
	std::vector<T> r(n);
	if (std::is_floating_point<T>::value) for (int i = 0; i < n; ++i) r[i] = (T)((i - n / 2) * 1.5 + 0.25);
	else { double lo = (double)std::numeric_limits<T>::min(), hi = (double)std::numeric_limits<T>::max(); for (int i = 0; i < n; ++i) r[i] = i == 0 ? std::numeric_limits<T>::min() : i == n - 1 ? std::numeric_limits<T>::max() : (T)(i * 3 - (lo < 0 ? n : 0)); (void)hi; }
	return r;
}
// five values each: the extremes around the ends and zero; values that differ only in some part of their bits
template <typename T> std::vector<std::vector<T>> corners()
{
	typedef std::numeric_limits<T> L; std::vector<std::vector<T>> r;
	if constexpr (std::is_floating_point<T>::value) { r.push_back({(T)-0.0, (T)0.0, (T)1, (T)-1, L::max()}); r.push_back({L::lowest(), L::max(), L::min(), -L::min(), (T)0}); T e = (T)1 + L::epsilon(); r.push_back({(T)1, e, -e, (T)-1, (T)256}); }
	else { typedef typename std::make_unsigned<T>::type U; int B = 8 * sizeof(T), h = B / 2; U m = (U)1 << (B - 1);
		r.push_back({(T)m, (T)(U)(m - 1), (T)0, (T)1, (T)(U)~(U)0}); r.push_back({(T)(U)(m + 1), (T)(U)(m - 2), (T)(U)(m >> 1), (T)m, (T)(U)(m - 1)}); r.push_back({(T)0, (T)((U)1 << h), (T)(((U)1 << h) + 1), (T)((U)1 << (h - 1)), (T)1}); }
	return r;
}
template <typename T, int W> void simd_one(const T *in)
{
	typedef SIMD<T, W> V; typedef SIMD<typename V::uint_type, W> U;
	++states; ++traces; transitions += 2;
	V a; for (int i = 0; i < W; ++i) a.v[i] = in[i];
	V s = vsort(a); U o = vorder(a);
	std::vector<int> ix(W); for (int i = 0; i < W; ++i) ix[i] = i;
	std::stable_sort(ix.begin(), ix.end(), [&](int x, int y) { return in[x] < in[y]; });
	for (int i = 0; i < W; ++i) {
		MC_CHECK(s.v[i] == in[ix[i]], "vsort width %d %s: lane %d", W, str(in, W).c_str(), i);
		MC_CHECK((int)o.v[i] == ix[i], "vorder width %d %s: lane %d is %d want %d", W, str(in, W).c_str(), i, (int)o.v[i], ix[i]);
		MC_CHECK(a.v[i] == in[i], "argument changed");
	}
}
template <typename T, int W> void simd_all()
{
	if (W <= 8) {
		int base = W <= 4 ? W : W <= 6 ? 6 : (thorough ? 6 : 5); std::vector<T> k = keys<T>(base < 2 ? 2 : base);
		std::vector<T> v(W);
		tuples(W, base < 2 ? 2 : base, [&](const int *t) { for (int i = 0; i < W; ++i) v[i] = k[t[i]]; simd_one<T, W>(v.data()); });
		if (W <= 8) { std::vector<T> q = keys<T>(W < 2 ? 2 : W); permutations(W, [&](const int *t) { for (int i = 0; i < W; ++i) v[i] = q[t[i]]; simd_one<T, W>(v.data()); }); }
	} else {
		std::vector<T> k = keys<T>(W), v(W);
		if (W == 16) { tuples(16, 2, [&](const int *t) { for (int i = 0; i < W; ++i) v[i] = k[t[i] ? W - 1 : 0]; simd_one<T, W>(v.data()); }); }
		families(W, [&](const std::vector<int> &f) { int lo = *std::min_element(f.begin(), f.end()); for (int i = 0; i < W; ++i) v[i] = k[std::min(W - 1, std::max(0, f[i] - lo))]; simd_one<T, W>(v.data()); });
		for (int i = 0; i < W; ++i) for (int j = 0; j < W; ++j) { v = k; std::swap(v[i], v[j]); simd_one<T, W>(v.data()); v = k; v[i] = k[j]; simd_one<T, W>(v.data()); for (auto &x : v) x = k[W / 2]; v[i] = k[0]; v[j] = k[W - 1]; simd_one<T, W>(v.data()); }
	}
	for (auto &c : corners<T>()) {
		std::vector<T> v(W);
		if (W <= 8) tuples(W, W <= 5 || thorough ? 5 : 4, [&](const int *t) { for (int i = 0; i < W; ++i) v[i] = c[t[i]]; simd_one<T, W>(v.data()); });
		else for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) for (int z = 0; z < 5; ++z) for (int i = 0; i < W; ++i) for (int j = i + 1; j < W; j += !thorough && W > 16 && j - i > 3 ? 7 : 1) { for (auto &e : v) e = c[x]; v[i] = c[y]; v[j] = c[z]; simd_one<T, W>(v.data()); }
	}
	MC_SAMPLE("vsort/vorder %d lanes of %d byte elements", W, (int)sizeof(T));
}
template <typename T> void simds(const char *n)
{
	job(fmt("simd_%s_small", n), []() { simd_all<T, 1>(); simd_all<T, 2>(); simd_all<T, 3>(); simd_all<T, 4>(); simd_all<T, 5>(); simd_all<T, 7>(); simd_all<T, 8>(); });
	job(fmt("simd_%s_big", n), []() { simd_all<T, 16>(); simd_all<T, 32>(); simd_all<T, 64>(); });
}
void mc_register()
{
#if PART == 0
	job("insertion_weak", []() { for (int n = 0; n <= (thorough ? 8 : 7); ++n) weak(n, ins); MC_SAMPLE("insertion sorts: all weak orders up to 7 elements"); });
	job("insertion_01", []() { std::vector<int> v; for (int n = 8; n <= 15; ++n) tuples(n, 2, [&](const int *t) { v.assign(t, t + n); ins(v); }); for (int n = 8; n <= 10; ++n) tuples(n, 3, [&](const int *t) { v.assign(t, t + n); ins(v); }); });
	job("insertion_fam", []() { for (int n = 0; n <= 300; ++n) families(n, [&](const std::vector<int> &v) { ins(v); }); });
	job("m1", []() { merges<1>(thorough ? 8 : 7, 16); }); job("m2", []() { merges<2>(thorough ? 8 : 7, 16); }); job("m3", []() { merges<3>(thorough ? 8 : 7, 16); }); job("m4", []() { merges<4>(thorough ? 8 : 7, 16); }); job("m5", []() { merges<5>(7, 16); }); job("m6", []() { merges<6>(6, 15); }); job("m7", []() { merges<7>(6, 15); }); job("m8", []() { merges<8>(6, 18); });
	job("b4", boundary<4>); job("b16", boundary<16>); job("b32", boundary<32>); job("b31", boundary<31>); job("b7", boundary<7>);
	job("big32a", []() { mergebig<400, 32>(65, 200); }); job("big32b", []() { mergebig<400, 32>(201, 300); }); job("big32c", []() { mergebig<400, 32>(301, 400); }); job("big16", []() { mergebig<300, 16>(65, 300); }); job("big1", []() { mergebig<260, 1>(65, 260); });
	job("big1024", []() { mergebig<1100, 32>(1020, 1030); mergebig<4100, 32>(4095, 4097); mergebig<600, 32>(511, 514); });
	job("huge_a", []() { mergehuge<140000, 32>({32767, 32768, 32769, 65535, 65536, 65537, 70001, 140000}); }); job("huge_b", []() { mergehuge<70000, 5>({32767, 65536, 66001, 70000}); }); job("huge_c", []() { mergehuge<70000, 700>({699, 700, 701, 33000, 65537, 70000}); });
	job("ins_huge", []() { for (int n : {32767, 32768, 32769, 65535, 65536, 65537, 70001}) inshuge(n); });
	job("dflt", []() { std::unique_ptr<CODE::MergeSort<E, 200>> ms(new CODE::MergeSort<E, 200>); std::unique_ptr<CODE::MergeSort<EL, 200>> ml(new CODE::MergeSort<EL, 200>); for (int n = 0; n <= 200; ++n) families(n, [&](const std::vector<int> &v) { mrg<200, 32>(*ms, *ml, v); }); });
#elif PART == 1
	simds<i8>("i8"); simds<i16>("i16");
#elif PART == 2
	simds<i32>("i32"); simds<i64>("i64");
#elif PART == 3
	simds<u8>("u8"); simds<u16>("u16");
#elif PART == 4
	simds<u32>("u32"); simds<u64>("u64");
#else
	simds<float>("f32"); simds<double>("f64");
#endif
}
