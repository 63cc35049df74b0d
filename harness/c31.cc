// C31: no call touches memory outside its argument buffers and its object. Built with the address sanitizer and array bound checks:
// buffers and objects are heap blocks of exactly their size; an access beyond aborts the job.
#include "machines.hh"
static void machine(const Mach &m, int aligns)
{
	for (int al = 0; al < aligns; ++al) {
		Args::align() = al == 0 ? 64 : al == 1 ? 1 : al == 2 ? 3 : al == 3 ? 8 : al == 4 ? 16 : al == 5 ? 31 : al; Room o(m.size, al & 1 ? 255 : 0); m.make(o.p); Args a; By r;
		for (int k = 0; k < (thorough || PART > 9 ? m.more * 4 : m.more); ++k) { a.clear(); m.prep(k, a); m.exec(o.p, k, a); std::string s = a.intact(); MC_CHECK(s.empty(), "%s operation %d alignment %d: %s", m.name.c_str(), k, Args::align(), s.c_str()); ++states; ++transitions; }
		m.destroy(o.p);
	}
	++traces;
}
#if defined(MACH_RS)
// every data length, every kind of word
template <typename GF, int NR, int FCR> void rs_lengths(int words, int step)
{
	typedef typename GF::value_type T; typedef CODE::ReedSolomonEncoder<NR, FCR, GF> E; typedef CODE::ReedSolomonDecoder<NR, FCR, GF> D; static const int N = GF::N, K = N - NR; field_of<GF>();
	Room re(sizeof(E), 0), rd(sizeof(D), 0); E *e = new (re.p) E; D *d = new (rd.p) D; Args a;
	for (int L = 1; L <= K; L += L < 10 || L > K - 10 ? 1 : step) for (int s = 0; s < words; ++s) {
		Fill r(s * 1000 + L); std::vector<T> x(L); for (auto &v : x) v = (T)(s ? r(N + 1) : N); a.clear(); a.in(x); a.out<T>(NR * sizeof(T)); (*e)((const T *)a.p<T>(0), a.p<T>(1), L); ++transitions; MC_CHECK(a.intact().empty(), "RS encoder N=%d NR=%d length %d: %s", N, NR, L, a.intact().c_str());
		std::vector<T> p(a.p<T>(1), a.p<T>(1) + NR); int f = 0;
		if (s % 4 == 0) for (auto &v : p) v = (T)r(N + 1); else { int w = s % 4 == 1 ? 1 + s / 4 % NR : s % 4 == 2 ? NR / 2 + 1 : NR; for (int i = 0; i < w; ++i) { int q = i ? (int)r(L + NR) : s % 8 < 4 ? 0 : L + NR - 1; (q < L ? x[q] : p[q - L]) ^= (T)(1 + r(N)); } }
		std::vector<T> era; if (s % 3 == 2) { std::set<int> u; f = std::min<int>(NR, std::min(L + NR, 1 + s / 3 % NR)); u.insert(0); if (f > 1) u.insert(L + NR - 1); while ((int)u.size() < f) u.insert((int)r(L + NR)); for (int q : u) era.push_back((T)q); }
		a.clear(); a.io(x); a.io(p); a.io(era); int c = (*d)(a.p<T>(0), a.p<T>(1), f ? a.p<T>(2) : nullptr, f, L); ++transitions; ++states;
		MC_CHECK(a.intact().empty(), "RS decoder N=%d NR=%d length %d word %d: %s", N, NR, L, s, a.intact().c_str()); MC_CHECK(c >= -1 && c <= NR, "RS decoder N=%d NR=%d length %d word %d returned %d", N, NR, L, s, c);
	}
	++traces;
}
// every received word of a small code, every length
template <typename GF, int NR, int FCR> void rs_words()
{
	typedef typename GF::value_type T; typedef CODE::ReedSolomonDecoder<NR, FCR, GF> D; static const int N = GF::N, K = N - NR; field_of<GF>(); Room rd(sizeof(D), 0); D *d = new (rd.p) D; Args a;
	for (int L = 1; L <= K; L += thorough ? 1 : 3) tuples(NR, N + 1, [&](const int *t) { std::vector<T> x(L, 0), p(t, t + NR); a.clear(); a.io(x); a.io(p); (*d)(a.p<T>(0), a.p<T>(1), (T *)nullptr, 0, L); ++transitions; ++states; }); ++traces;
}
template <typename GF, int NR, int FCR, int K, int... MP> void bch_lengths(int words, int step)
{
	typedef typename GF::value_type T; static const int N = GF::N, NP = N - K; typedef CODE::BoseChaudhuriHocquenghemEncoder<N, K> E; typedef CODE::BoseChaudhuriHocquenghemDecoder<NR, FCR, K, GF> D; field_of<GF>();
	Room re(sizeof(E), 0), rd(sizeof(D), 0); E *e = new (re.p) E({MP...}); D *d = new (rd.p) D; Args a; auto by = [](int n) { return (n + 7) / 8; };
	for (int L = 1; L <= K; L += L < 10 || L > K - 10 ? 1 : step) for (int s = 0; s < words; ++s) {
		Args::align() = s % 5 ? s % 5 : 64; Fill r(s * 1000 + L); By x(by(L)); for (auto &v : x) v = s ? (u8)r(256) : 255; a.clear(); a.in(x); a.out<u8>(by(NP)); (*e)(a.p(0), a.p(1), L); ++transitions; MC_CHECK(a.intact().empty(), "BCH encoder (%d,%d) length %d: %s", N, K, L, a.intact().c_str());
		By p(a.p(1), a.p(1) + by(NP)); if (NP % 8) p.back() = (p.back() & ~(0xff >> NP % 8)) | (s & 1 ? 0xff >> NP % 8 : 0);   // arbitrary padding
		int w = s % 4 == 0 ? 0 : s % 4 == 1 ? 1 + s / 4 % (NR / 2) : s % 4 == 2 ? NR / 2 + 1 : NR + 3; std::set<int> at; w = std::min(w, L + NP); if (w) at.insert(s % 8 < 4 ? 0 : L + NP - 1); while ((int)at.size() < w) at.insert((int)r(L + NP));
		std::vector<T> era; int f = 0; for (int q : at) { auto &b = q < L ? x : p; int o = q < L ? q : q - L; b[o / 8] ^= 128 >> o % 8; if (s % 3 == 2 && f < NR) era.push_back((T)q), ++f; } if (s % 4 == 0 && s) for (auto &v : p) v = (u8)r(256);
		a.clear(); a.io(x, false); a.io(p, false); a.io(era); int c = (*d)(a.p(0), a.p(1), f ? a.p<T>(2) : nullptr, f, L); ++transitions; ++states;
		MC_CHECK(a.intact().empty(), "BCH decoder (%d,%d) length %d word %d: %s", N, K, L, s, a.intact().c_str()); MC_CHECK(c >= -1 && c <= NR, "BCH decoder (%d,%d) length %d word %d returned %d", N, K, L, s, c);
		if (L % 8) MC_CHECK(((a.p(0)[L / 8] ^ x[L / 8]) & (0xff >> L % 8)) == 0, "BCH decoder (%d,%d) length %d word %d: padding of the data changed", N, K, L, s);
		if (NP % 8) MC_CHECK(((a.p(1)[NP / 8] ^ p[NP / 8]) & (0xff >> NP % 8)) == 0, "BCH decoder (%d,%d) length %d word %d: padding of the parity changed", N, K, L, s);
	}
	++traces;
}
template <typename GF, int NR, int FCR, int K> void bch_words()
{
	typedef typename GF::value_type T; static const int N = GF::N, NP = N - K; typedef CODE::BoseChaudhuriHocquenghemDecoder<NR, FCR, K, GF> D; field_of<GF>(); Room rd(sizeof(D), 0); D *d = new (rd.p) D; Args a; Args::align() = 1;
	for (int L = 1; L <= K; ++L) for (u32 w = 0; w < 1u << (L + NP); ++w) { By x((L + 7) / 8, 0), p((NP + 7) / 8, 0); for (int i = 0; i < L; ++i) if (w >> i & 1) x[i / 8] |= 128 >> i % 8; for (int i = 0; i < NP; ++i) if (w >> (L + i) & 1) p[i / 8] |= 128 >> i % 8;
		By x0 = x, p0 = p; if (L % 8) x0.back() |= 0xff >> L % 8; if (NP % 8) p0.back() |= 0xff >> NP % 8; a.clear(); a.io(x0, false); a.io(p0, false); int c = (*d)(a.p(0), a.p(1), (T *)nullptr, 0, L); ++transitions; ++states; MC_CHECK(c >= -1 && c <= NR, "BCH decoder returned %d", c);
		if (L % 8) MC_CHECK((~a.p(0)[L / 8] & (0xff >> L % 8)) == 0, "BCH decoder (%d,%d) length %d word %#x: padding of the data changed", N, K, L, w); if (NP % 8) MC_CHECK((~a.p(1)[NP / 8] & (0xff >> NP % 8)) == 0, "BCH decoder (%d,%d) length %d word %#x: padding of the parity changed", N, K, L, w); }
	++traces;
}
#endif
#if defined(MACH_MISC)
template <typename GF> void crs_lengths(int cntmax)
{
	typedef typename GF::value_type T; typedef CODE::CauchyReedSolomonErasureCoding<GF> C; field_of<GF>(); Room rc(sizeof(C), 0); C *c = new (rc.p) C; Args a;
	for (int L = 1; L <= (thorough ? 300 : 140); ++L) for (int n = 1; n <= cntmax; ++n) for (int al : {64, (int)sizeof(T), 16, 32}) {
		Args::align() = al; Fill r(L * 100 + n); std::vector<T> d(L * n), ids(n); for (auto &v : d) v = (T)r(GF::Q); for (int k = 0; k < n; ++k) ids[k] = (T)(L % 2 ? n + k : GF::N - k); bool fix = al == 64;
		a.clear(); a.add(d.data(), d.size() * sizeof(T), true, al); a.in(ids); a.add(nullptr, L * sizeof(T), false, fix ? 64 : al); (void)fix;
		c->encode((const T *)a.p<T>(0), a.p<T>(2), (int)ids[L % n], L, n); MC_CHECK(a.intact().empty(), "Cauchy RS encode length %d count %d alignment %d: %s", L, n, al, a.intact().c_str());
		c->decode(a.p<T>(2), a.p<T>(0), a.p<T>(1), L % n, L, n); MC_CHECK(a.intact().empty(), "Cauchy RS decode length %d count %d alignment %d: %s", L, n, al, a.intact().c_str()); ++states; transitions += 2;
		c->encode((const void *)a.p(0), (void *)a.p(2), (int)ids[0], L * (int)sizeof(T), n); c->decode((void *)a.p(2), (const void *)a.p(0), a.p<T>(1), 0, L * (int)sizeof(T), n); MC_CHECK(a.intact().empty(), "Cauchy RS byte interface length %d count %d alignment %d: %s", L, n, al, a.intact().c_str()); transitions += 2;
	}
	++traces;
}
template <typename PF, typename IO, int MAX> void cpf_lengths(int P, int cntmax)
{
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, IO, MAX> C; Room rc(sizeof(C), 0); C *c = new (rc.p) C; Args a;
	for (int L = 1; L <= MAX; ++L) for (int n = 1; n <= cntmax; ++n) for (int kind = 0; kind < 3; ++kind) {
		Fill r(L * 100 + n); std::vector<IO> d(L * n), ids(n), sub(n, 0); int mx = (int)std::min<i64>(P - 1, (i64)std::numeric_limits<IO>::max() + 1); for (size_t i = 0; i < d.size(); ++i) d[i] = (IO)(kind == 0 ? r(mx) : kind == 1 ? mx - 1 : i % mx); for (int k = 0; k < n; ++k) ids[k] = (IO)(L % 2 ? n + k : P / 2 - 1 - k);
		a.clear(); a.in(d); a.in(ids); a.in(sub); a.out<IO>(L * sizeof(IO)); int s = c->encode(a.p<IO>(0), a.p<IO>(3), (int)ids[L % n], L, n); MC_CHECK(s >= 0 && s < P && a.intact().empty(), "Cauchy prime field %d encode length %d count %d: %s (returned %d)", P, L, n, a.intact().c_str(), s);
		c->decode(a.p<IO>(3), a.p<IO>(0), a.p<IO>(2), a.p<IO>(1), L % n, L, n); MC_CHECK(a.intact().empty(), "Cauchy prime field %d decode length %d count %d: %s", P, L, n, a.intact().c_str()); ++states; transitions += 2;
	}
	++traces;
}
template <typename T, int MAX, int M> void sort_lengths()
{
	typedef CODE::MergeSort<T, MAX, M> S; Room rs(sizeof(S), 0); S *s = new (rs.p) S; Args a;
	for (int n = 0; n <= MAX; ++n) for (int k = 0; k < 4; ++k) { Fill r(n * 8 + k); std::vector<T> v(n); for (int i = 0; i < n; ++i) v[i] = (T)(k == 0 ? i : k == 1 ? n - i : k == 2 ? (int)r(3) : (int)r(1000)); a.clear(); a.io(v); if (k & 1) (*s)(a.p<T>(0), n, [](T x, T y) { return y < x; }); else (*s)(a.p<T>(0), n); MC_CHECK(a.intact().empty(), "merge sort of %d: %s", n, a.intact().c_str()); CODE::insertion_sort(a.p<T>(0), n); if (n) { std::vector<int> ix(n); Args b; b.io(ix); CODE::insertion_sort(b.p<int>(0), a.p<T>(0), n); } ++states; ++transitions; }
	++traces;
}
#endif
void mc_register()
{
	static Machs m; bool big = false; (void)big;
#if PART == 0
	rs_all(m, 0); typedef CODE::GaloisField<4, 19, uint8_t> F4; typedef CODE::GaloisField<8, 285, uint8_t> F8; typedef CODE::GaloisField<5, 37, uint16_t> F5;
	job("lengths RS(15,11)", [] { rs_lengths<F4, 4, 1>(400, 1); }); job("lengths RS(15,9)", [] { rs_lengths<F4, 6, 0>(400, 1); }); job("lengths RS(31,26)", [] { rs_lengths<F5, 5, 1>(200, 1); }); job("lengths RS(255,239)", [] { rs_lengths<F8, 16, 1>(40, thorough ? 1 : 7); }); job("lengths RS(255,223)", [] { rs_lengths<F8, 32, 0>(24, thorough ? 1 : 13); });
	job("words RS(15,11)", [] { rs_words<F4, 4, 1>(); }); job("words RS(15,12)", [] { rs_words<F4, 3, 0>(); });
#elif PART == 1
	rs_all(m, 1); typedef CODE::GaloisField<4, 19, uint8_t> F4; typedef CODE::GaloisField<6, 67, uint8_t> F6; typedef CODE::GaloisField<7, 137, uint8_t> F7;
	job("lengths BCH(15,7)", [] { bch_lengths<F4, 4, 1, 7, 0b10011, 0b11111>(400, 1); }); job("lengths BCH(63,45)", [] { bch_lengths<F6, 6, 1, 45, 0b1000011, 0b1010111, 0b1100111>(120, 1); }); job("lengths BCH(127,64)", [] { bch_lengths<F7, 20, 1, 64, 0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011>(60, 1); });
	job("words BCH(15,7)", [] { bch_words<F4, 4, 1, 7>(); }); job("words BCH(15,11)", [] { bch_words<F4, 2, 1, 11>(); }); job("words BCH(15,5)", [] { bch_words<F4, 6, 1, 5>(); });
#elif PART == 2
	short_all(m);
#elif PART == 3
	polar_all(m, 0);
#elif PART == 4
	polar_all(m, 1);
#elif PART == 5
	polar_all(m, 2);
#elif PART == 6
	ldpc_all(m, 0);
#elif PART == 7
	ldpc_all(m, 1); big = true;
#elif PART == 8
	ldpc_all(m, 2); big = true;
#elif PART == 9
	misc_all(m);
	job("lengths Cauchy RS 8", [] { crs_lengths<CODE::GaloisField<8, 285, uint8_t>>(4); }); job("lengths Cauchy RS 16", [] { crs_lengths<CODE::GaloisField<16, 69643, uint16_t>>(4); }); job("lengths Cauchy RS 5", [] { crs_lengths<CODE::GaloisField<5, 37, uint8_t>>(4); });
	job("lengths Cauchy prime field 257", [] { cpf_lengths<CODE::PrimeField<uint32_t, 257>, uint8_t, 255>(257, 4); }); job("lengths Cauchy prime field 17", [] { cpf_lengths<CODE::PrimeField<uint32_t, 17>, uint8_t, 15>(17, 4); }); job("lengths Cauchy prime field 65537", [] { cpf_lengths<CODE::PrimeField<uint64_t, 65537>, uint16_t, 300>(65537, 3); });
	job("lengths sort 100", [] { sort_lengths<int16_t, 100, 32>(); }); job("lengths sort 300", [] { sort_lengths<int, 300, 4>(); }); job("lengths sort 257", [] { sort_lengths<uint8_t, 257, 1>(); });
#elif defined(MACH_UTIL)
	util_all(m);
#else
	big_all(m); big = true;
#endif
	for (auto &x : m) job(x.name, [&x] { machine(x, x.size > 100000 ? 2 : 5); });
}
