// C32: outputs are the same on every instruction set. Every job digests all outputs of the real code; check.py compares the digests
// of the builds for the generic, SSE4.1 and AVX2 back ends (of those that must agree).
#include "machines.hh"
static void machine(const Mach &m)
{
	Room o(m.size, 0x33); m.make(o.p); Args a; By r; int n = std::min(m.more * (PART > 10 ? thorough ? 400 : 30 : thorough ? 400 : 60), thorough ? 40000 : 5000);
	for (int k = 0; k < n; ++k) { a.clear(); m.prep(k, a); m.exec(o.p, k, a); a.result(r); digest(r.data(), r.size()); std::string s = a.intact(); MC_CHECK(s.empty(), "%s operation %d: %s", m.name.c_str(), k, s.c_str()); ++states; ++transitions; }
	m.destroy(o.p); ++traces; MC_SAMPLE("%s: %d calls", m.name.c_str(), n);
}
#if defined(MACH_POLAR)
// list decoders: complete alphabets on nine positions for several frozen sets, on a lightly and a heavily distorted background
template <typename V, int L, int MM> void lists(const char *t)
{
	typedef SIMD<V, L> T; typedef CODE::PolarListDecoder<T, MM> D; typedef CODE::PolarParityDecoder<T, MM> P; static const u32 FR[] = {0x0117177f, 0x177f7fff, 0x7fff7f70, 0x0000ffff, 0, 0x12345678};
	for (int q = 0; q < 6; ++q) job(fmt("alphabet %08x %s", FR[q], t), [=] {
		Room rd(sizeof(D), 0), rp(sizeof(P), 0); D *d = new (rd.p) D; P *p = new (rp.p) P; Fz f{FR[q]}; int K = nfree(f, 32); Args a; By r;
		for (int bg = 0; bg < 2; ++bg) { So base = noise(32, q, bg ? 1 : 2); tuples(thorough ? 10 : L > 16 ? 7 : 8, 3, [&](const int *x) {
			So y = base; for (int i = 0; i < (thorough ? 10 : L > 16 ? 7 : 8); ++i) y[(q * 5 + i * 3) % 32] = x[i] * 11 - 9 - i; a.clear(); a.in(conv<V>(y)); a.in(f); a.out<T>(sizeof(T) * K); a.out<int>(4 * L); (*d)(a.p<int>(3), a.p<T>(2), a.p<V>(0), a.p<u32>(1), 5); a.result(r); digest(r.data(), r.size());
			int stride = q, first = 3 * q % 7; a.clear(); a.in(conv<V>(y)); a.in(f); a.out<T>(sizeof(T) * pfree(f, 32, stride, first)); a.out<int>(4 * L); (*p)(a.p<int>(3), a.p<T>(2), a.p<V>(0), a.p<u32>(1), 5, stride, first); a.result(r); digest(r.data(), r.size()); ++states; transitions += 2; }); }
		++traces; });
	// large levels, all five shapes
	job(fmt("levels %s", t), [=] {
		Room rd(sizeof(D), 0), rp(sizeof(P), 0); D *d = new (rd.p) D; P *p = new (rp.p) P; Args a; By r;
		for (int l = 5; l <= MM; ++l) for (int s = 0; s < 5; ++s) for (int k = 0; k < 12; ++k) { Fz f = shape(l, s); So y = psoft(1 << l, k * 5 + s); a.clear(); a.in(conv<V>(y)); a.in(f); a.out<T>(sizeof(T) * nfree(f, 1 << l)); a.out<int>(4 * L); (*d)(a.p<int>(3), a.p<T>(2), a.p<V>(0), a.p<u32>(1), l); a.result(r); digest(r.data(), r.size());
			a.clear(); a.in(conv<V>(y)); a.in(f); a.out<T>(sizeof(T) * pfree(f, 1 << l, 2 + k, k)); a.out<int>(4 * L); (*p)(a.p<int>(3), a.p<T>(2), a.p<V>(0), a.p<u32>(1), l, 2 + k, k); a.result(r); digest(r.data(), r.size()); ++states; transitions += 2; }
		++traces; });
}
#endif
#if defined(MACH_SHORT)
template <int N, int K, int O, int L> void osds(u64 g, int n, int al)
{
	job(fmt("alphabet OSD (%d,%d) order %d list %d", N, K, O, L), [=] {
		auto gm = cyclic(N, K, g); typedef CODE::OrderedStatisticsDecoder<N, K, O> D; typedef CODE::OrderedStatisticsListDecoder<N, K, O, L> LD; Room rd(sizeof(D), 0), rl(sizeof(LD), 0); D *d = new (rd.p) D; LD *ld = new (rl.p) LD; Args a; By r; static const int A[] = {-128, -5, 0, 3, 9, 127};
		So base = noise(N, n, 2); tuples(n, al, [&](const int *x) { So y = base; for (int i = 0; i < n; ++i) y[i * N / n] = A[x[i] + (6 - al) / 2]; a.clear(); a.in(y); a.in(gm); a.out<u8>((N + 7) / 8); a.out<u8>((N + 7) / 8 * L); a.out<int>(4 * L); a.ret = (*d)(a.p(2), (const int8_t *)a.p(0), (const int8_t *)a.p(1)); (*ld)(a.p<int>(4), a.p(3), (const int8_t *)a.p(0), (const int8_t *)a.p(1)); a.result(r); digest(r.data(), r.size()); ++states; transitions += 2; });
		++traces; });
}
template <int K> void hads(int al)
{
	job(fmt("alphabet Hadamard %d", K), [=] { typedef CODE::HadamardDecoder<K> D; typedef CODE::SimplexDecoder<K> SD; D *d = new D; SD *sd = new SD; const int N = 1 << (K - 1), n = std::min(N, 8); static const int A[] = {-128, -1, 0, 1, 127}; So base = noise(N, K, 1);
		tuples(n, al, [&](const int *x) { So y = base; for (int i = 0; i < n; ++i) y[i * N / n] = A[x[i]]; So e = y; int v = (*d)(y.data()); digest(&v, 4); if (K > 2 && n <= 2 * N - 1) { So z = noise(2 * N - 1, K, 1); for (int i = 0; i < n; ++i) z[i] = A[x[i]]; v = (*sd)(z.data()); digest(&v, 4); } ++states; transitions += 2; }); ++traces; });
}
#endif
#if defined(MACH_LDPC)
// complete sign and magnitude patterns around valid and arbitrary words; the order in which checks are evaluated depends on the vector
// width, so the 15 wide (generic, SSE4.1) and 30 wide (AVX2) decoders need not agree: AVX2 is compared with nothing here
template <typename T, int B> void words(const char *t)
{
	job(fmt("alphabet LDPC %s", t), [=] { typedef CODE::LDPCDecoder<T, B> D; typedef CODE::LDPCEncoder<T> E; D *d = new D; E *e = new E; const int K = T::K, R = T::N - T::K; Args a; By r; static const int A[] = {-20, -2, 1, 15};
		for (int s = 0; s < 4; ++s) { So x(K), p(R); Fill f(s); for (auto &v : x) v = s ? f(2) ? 1 : -1 : 1; (*e)(x.data(), p.data()); for (auto &v : x) v *= s == 3 ? (int)f(20) : 9; for (auto &v : p) v *= s == 3 ? (int)f(20) : 9;
			tuples(thorough ? 7 : 5, 4, [&](const int *q) { So y = x, z = p; for (int i = 0; i < (thorough ? 7 : 5); ++i) { int w = (i * 17 + s * 7) % (K + R); (w < K ? y[w] : z[w - K]) = A[q[i]]; } a.clear(); a.io(y); a.io(z); a.ret = (*d)((int8_t *)a.p(0), (int8_t *)a.p(1), 1 + s * 8); a.result(r); digest(r.data(), r.size()); ++states; ++transitions; }); }
		++traces; });
}
#endif
#if defined(MACH_MISC)
template <typename GF> void crss(const char *t)
{
	job(fmt("lengths %s", t), [=] { typedef typename GF::value_type T; typedef CODE::CauchyReedSolomonErasureCoding<GF> C; field_of<GF>(); C *c = new C; Args a; By r;
		for (int L = 1; L <= (thorough ? 300 : 150); ++L) for (int n = 1; n <= 5; ++n) for (int al : {64, (int)sizeof(T), 16, 32}) { Args::align() = al; Fill f(L * 100 + n); std::vector<T> d(L * n), ids(n); for (auto &v : d) v = (T)f(GF::Q); for (int k = 0; k < n; ++k) ids[k] = (T)(L % 2 ? n + k : GF::N - k);
			for (int k = 0; k < 2; ++k) { a.clear(); a.add(d.data(), d.size() * sizeof(T), true, al); a.in(ids); a.add(nullptr, L * sizeof(T), false, al); if (k) c->decode(a.p<T>(2), a.p<T>(0), a.p<T>(1), L % n, L, n); else c->encode((const T *)a.p<T>(0), a.p<T>(2), (int)ids[L % n], L, n); a.result(r); digest(r.data(), r.size()); ++transitions; } ++states; }
		++traces; });
	// every coefficient: identifiers over the whole field
	job(fmt("identifiers %s", t), [=] { typedef typename GF::value_type T; typedef CODE::CauchyReedSolomonErasureCoding<GF> C; field_of<GF>(); C *c = new C; By r;
		Fill f(5); const int L = 67; std::vector<T> d(L * 3), o(L + 32); for (auto &v : d) v = (T)f(GF::Q); for (int n = 1; n <= 3; ++n) for (int id = n; id < GF::Q; id += GF::Q > 256 ? (thorough ? 3 : 61) : 1) { c->encode((const T *)d.data(), o.data(), id, L, n); digest(o.data(), L * sizeof(T)); ++states; ++transitions; T ids[3] = {(T)id, (T)(id > n ? id - 1 : GF::Q - 1), (T)(id > n + 1 ? id - 2 : GF::Q - 2)}; if (ids[0] == ids[1] || ids[0] == ids[2]) continue; c->decode(o.data(), (const T *)d.data(), ids, id % n, L, n); digest(o.data(), L * sizeof(T)); ++transitions; }
		++traces; });
}
#endif
void mc_register()
{
	static Machs m;
#if PART == 0
	rs_all(m, 0); rs_all(m, 1);
#elif PART == 1
	short_all(m); osds<7, 4, 2, 5>(0b1011, 7, 4); osds<15, 7, 2, 8>(0b111010001, 7, 5); osds<15, 5, 3, 4>(0b10100110111, 6, 6); osds<31, 16, 2, 16>(0b1000111110101111, 5, 6); hads<2>(5); hads<3>(5); hads<4>(3); hads<5>(3); hads<6>(3); hads<8>(3);
#elif PART == 2
	polar_all(m, 0);
#elif PART == 3
	polar_all(m, 1);
#elif PART == 4
	polar_all(m, 2);
#elif PART == 5
	lists<int8_t, 16, 7>("SIMD<int8,16>"); lists<int8_t, 8, 6>("SIMD<int8,8>"); lists<float, 4, 7>("SIMD<float,4>");
#elif PART == 6
	lists<int8_t, 32, 7>("SIMD<int8,32>"); lists<float, 8, 8>("SIMD<float,8>");
#elif PART == 7
	lists<int16_t, 16, 6>("SIMD<int16,16>"); lists<int16_t, 8, 7>("SIMD<int16,8>"); lists<int8_t, 4, 7>("SIMD<int8,4>"); lists<float, 16, 6>("SIMD<float,16>");
#elif PART == 8
	ldpc_all(m, 0); words<Tab<30, 3, 2, 1, 3, 2, 2>, 1>("30/3/2"); words<Tab<30, 3, 4, 2, 4, 3, 3>, 0>("30/3/4"); words<Tab<60, 3, 4, 1, 5, 3, 4>, 1>("60/3/4"); words<Tab<90, 2, 3, 1, 4, 3, 7>, 2>("90/2/3");
#elif PART == 9
	ldpc_all(m, 1); words<DVB_T2_TABLE_B7, 1>("B7");
#elif PART == 10
	misc_all(m); crss<CODE::GaloisField<8, 285, uint8_t>>("Cauchy RS 8"); crss<CODE::GaloisField<16, 69643, uint16_t>>("Cauchy RS 16"); crss<CODE::GaloisField<7, 137, uint8_t>>("Cauchy RS 7");
#elif defined(MACH_UTIL)
	util_all(m);
#else
	big_all(m);
#endif
	for (auto &x : m) job(x.name, [&x] { machine(x); });
}
