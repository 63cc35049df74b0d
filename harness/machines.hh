// Every codec object as a machine: operations with exactly sized argument buffers. Shared by C29..C32.
#pragma once
#include "mc.hh"
#include "galois_field.hh"
using namespace mc;
#if defined(MACH_BIGRS)
#define MACH_RS
#elif defined(MACH_BIGSHORT)
#define MACH_SHORT
#elif defined(MACH_BIGPOLAR)
#define MACH_POLAR
#elif defined(MACH_BIGMISC)
#define MACH_MISC
#endif
// argument buffers of one call; each is its own heap block of exactly the size the call's parameters define
struct Args {
	struct Blk { u8 *raw, *p; size_t n; bool constant; std::vector<u8> was; };
	std::vector<Blk> b; i64 ret = 0;
#if defined(__SANITIZE_ADDRESS__) || defined(BACKEND_asan) || defined(BACKEND_asangen)
	static const int Z = 0;
#else
	static const int Z = 64;
#endif
	static int &align() { static int a = 64; return a; }   // bytes past a multiple of 64 at which buffers start (64: none), where their type allows it
	template <typename T> static int place(bool fixed) { return fixed ? 64 : align() / (int)alignof(T) * (int)alignof(T); }
	~Args() { clear(); }
	Args() {} Args(const Args &) = delete; Args &operator=(const Args &) = delete;
	void clear() { for (auto &x : b) free(x.raw); b.clear(); ret = 0; }
	u8 *add(const void *src, size_t n, bool constant, int al)
	{
		Blk x; void *r = nullptr; int off = al == 64 ? 0 : al;   // off: bytes past a multiple of 64
		if (posix_memalign(&r, 64, n + 2 * Z + off + !(n + 2 * Z + off))) abort();
		x.raw = (u8 *)r; x.p = x.raw + Z + off; x.n = n; x.constant = constant; memset(x.raw, 0xc3, n + 2 * Z + off);
		if (src) memcpy(x.p, src, n); else memset(x.p, 0x5a, n);
		if (constant) x.was.assign(x.p, x.p + n);
		b.push_back(x); return x.p;
	}
	// kinds: read only, written only, both; typed buffers keep their natural alignment, byte buffers may be put anywhere
	template <typename T> void in(const std::vector<T> &v, bool fixed = false) { add(v.data(), v.size() * sizeof(T), true, place<T>(fixed)); }
	template <typename T> void io(const std::vector<T> &v, bool fixed = false) { add(v.data(), v.size() * sizeof(T), false, place<T>(fixed)); }
	template <typename T> void out(size_t n, bool fixed = false) { add(nullptr, n, false, place<T>(fixed)); }
	template <typename T = u8> T *p(int i) { return (T *)b[i].p; }
	std::string intact() const
	{
		for (size_t i = 0; i < b.size(); ++i) { auto &x = b[i]; if (x.constant && x.n && memcmp(x.p, x.was.data(), x.n)) return fmt("input argument %d modified", (int)i); for (u8 *q = x.raw; q < x.p; ++q) if (*q != 0xc3) return fmt("wrote before argument %d", (int)i); for (u8 *q = x.p + x.n; q < x.p + x.n + Z; ++q) if (*q != 0xc3) return fmt("wrote past argument %d", (int)i); }
		return "";
	}
	void result(std::vector<u8> &r) const { r.clear(); for (auto &x : b) if (!x.constant) r.insert(r.end(), x.p, x.p + x.n); for (int i = 0; i < 8; ++i) r.push_back((u8)(ret >> 8 * i)); }
};
struct Mach {
	std::string name; size_t size, align; int ops, more; bool stream;   // ops: alphabet of histories; more: all distinct calls
	std::function<void(void *)> make, destroy;
	std::function<void(int, Args &)> prep; std::function<void(void *, int, Args &)> exec;
};
typedef std::vector<Mach> Machs;
template <typename O> Mach mach(const std::string &n, int ops, int more, std::function<void(int, Args &)> prep, std::function<void(O &, int, Args &)> exec, std::function<void(void *)> make = nullptr, bool stream = false)
{
	Mach m; m.name = n; m.size = sizeof(O); m.align = alignof(O); m.ops = ops; m.more = std::max(ops, more); m.stream = stream; m.prep = prep; m.exec = [=](void *o, int k, Args &a) { exec(*(O *)o, k, a); };
	m.make = make ? make : [](void *p) { if constexpr (std::is_default_constructible<O>::value) new (p) O; else abort(); };
	m.destroy = [](void *p) { ((O *)p)->~O(); }; return m;
}
// memory for an object, aligned and of exactly its size
struct Room { u8 *p; size_t n; Room(size_t n, int fill) : n(n) { void *r; if (posix_memalign(&r, 64, n)) abort(); p = (u8 *)r; for (size_t i = 0; i < n; ++i) p[i] = fill < 0 ? (u8)(i * 37 + 11) : fill; } ~Room() { free(p); } Room(const Room &) = delete; };
// overwrite the unused stack so that uninitialised locals show
__attribute__((noinline, no_sanitize("address"))) inline void paint(int v) { volatile u8 buf[96 * 1024]; for (size_t i = 0; i < sizeof buf; i += 8) *(volatile u64 *)(buf + i) = 0x0101010101010101ull * (u8)v; asm volatile("" ::: "memory"); }
typedef std::vector<u8> By; typedef std::vector<int8_t> So;
template <typename GF> GF *field_of() { static GF *f = new GF; return f; }   // the one instance a field needs
inline So noise(int n, int s, int kind) { Fill r(s + 1); So v(n); for (auto &x : v) x = kind == 0 ? 20 : kind == 1 ? (int8_t)r(255) - 127 : kind == 2 ? (r(9) ? 10 + (int)r(20) : -(int)r(25)) : kind == 3 ? (r(2) ? 127 : -128) : kind == 4 ? (int)r(3) - 1 : 0; return v; }

#if defined(MACH_RS)
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
// the zero word with w errors (bits or symbols), some of them declared as erasures
template <typename T> inline void hit(std::vector<T> &d, std::vector<T> &p, std::vector<T> &e, int w, int f, int s, int Q, bool bit) {
	Fill r(s * 31 + w * 7 + f); int n = (int)(d.size() + p.size()); std::set<int> at; while ((int)at.size() < w) at.insert(s % 5 == 4 ? (int)at.size() : (int)r(n)); int i = 0;
	for (int q : at) { T v = bit ? 1 : (T)(1 + r(Q - 1)); (q < (int)d.size() ? d[q] : p[q - d.size()]) ^= v; if (i++ < f) e.push_back((T)q); } }
template <typename GF, int NR, int FCR> void rs_machs(Machs &m, const char *t)
{
	typedef typename GF::value_type T; static const int N = GF::N, K = N - NR; field_of<GF>();
	auto len = [](int op) { return op % 3 == 2 ? 1 + op * 7 % K : K; };
	typedef CODE::ReedSolomonEncoder<NR, FCR, GF> E; typedef CODE::ReedSolomonDecoder<NR, FCR, GF> D;
	m.push_back(mach<E>(fmt("RS encoder %s", t), 4, 40, [=](int op, Args &a) { std::vector<T> d(len(op)); Fill r(op); for (auto &x : d) x = (T)r(N + 1); a.in(d); a.out<T>(NR * sizeof(T)); },
		[=](E &o, int op, Args &a) { o((const T *)a.p<T>(0), a.p<T>(1), len(op)); }));
	auto era = [](int op) { return op == 0 ? 0 : op == 1 ? NR / 2 : op == 2 ? NR : op == 3 ? 0 : op % (NR + 1); };
	auto err = [](int op) { return op == 0 ? 0 : op == 1 ? NR / 2 : op == 2 ? NR / 2 + 1 : op == 3 ? NR : op == 4 ? NR : op == 5 ? 1 : op % (NR + 2); };
	m.push_back(mach<D>(fmt("RS decoder %s", t), 7, 80, [=](int op, Args &a) { int L = len(op), w = std::min(err(op), L + NR), f = op < 4 && op != 2 ? 0 : std::min(w, era(op)); std::vector<T> d(L, 0), p(NR, 0), e; hit(d, p, e, w, f, op, N + 1, false); a.io(d); a.io(p); a.io(e); },
		[=](D &o, int op, Args &a) { int f = (int)(a.b[2].n / sizeof(T)); a.ret = o(a.p<T>(0), a.p<T>(1), f ? a.p<T>(2) : nullptr, f, len(op)); }));
	typedef CODE::ReedSolomonErrorCorrection<NR, FCR, GF> C; typedef typename GF::ValueType V; typedef typename GF::IndexType I;
	m.push_back(mach<C>(fmt("RS error correction %s", t), 6, 40, [=](int op, Args &a) { std::vector<T> s(NR); Fill r(op); for (int i = 0; i < NR; ++i) s[i] = op % 3 == 0 ? 1 : op % 3 == 1 ? (T)(i == op % NR) : (T)r(N + 1); if (std::count(s.begin(), s.end(), 0) == NR) s[0] = 1; a.in(s); a.out<T>(NR * sizeof(T)); a.out<T>(NR * sizeof(T)); },
		[=](C &o, int, Args &a) { int n = o(a.p<V>(0), a.p<I>(1), a.p<V>(2)); a.ret = n; },  nullptr));
}
template <typename GF, int NR, int FCR, int MSG, int... MP> void bch_machs(Machs &m, const char *t)
{
	typedef typename GF::value_type T; static const int N = GF::N, K = MSG, NP = N - K; field_of<GF>();
	auto len = [](int op) { return op % 3 == 2 ? 1 + op * 7 % K : K; }; auto bytes = [](int n) { return (n + 7) / 8; };
	typedef CODE::BoseChaudhuriHocquenghemEncoder<N, K> E; typedef CODE::BoseChaudhuriHocquenghemDecoder<NR, FCR, K, GF> D;
	m.push_back(mach<E>(fmt("BCH encoder %s", t), 4, 40, [=](int op, Args &a) { By d(bytes(len(op))); Fill r(op); for (auto &x : d) x = (u8)r(256); a.in(d); a.out<u8>(bytes(NP)); },
		[=](E &o, int op, Args &a) { o(a.p(0), a.p(1), len(op)); }, [=](void *p) { new (p) E({MP...}); }));
	typedef CODE::BoseChaudhuriHocquenghemEncoderReference<NR, FCR, K, GF> ER; typedef CODE::BoseChaudhuriHocquenghemDecoderReference<NR, FCR, K, GF> DR; typedef typename GF::ValueType V; typedef typename GF::IndexType I;
	auto err = [](int op) { return op == 0 ? 0 : op == 1 ? NR / 2 : op == 2 ? NR / 2 + 1 : op == 3 ? NR + 2 : op == 4 ? NR : op == 5 ? 1 : op % (NR + 2); };
	auto prep = [=](int op, std::vector<T> &d, std::vector<T> &p, std::vector<T> &e) { int L = len(op); d.assign(L, 0); p.assign(NP, 0); int w = std::min(err(op), L + NP); hit(d, p, e, w, op == 4 || op > 6 ? std::min(w, op % (NR + 1)) : 0, op, 2, true); };
	m.push_back(mach<D>(fmt("BCH decoder %s", t), 7, 80, [=](int op, Args &a) { std::vector<T> d, p, e; prep(op, d, p, e); By bd(bytes((int)d.size()), 0), bp(bytes(NP), 0); for (size_t i = 0; i < d.size(); ++i) bd[i / 8] |= d[i] << (7 - i % 8); for (size_t i = 0; i < p.size(); ++i) bp[i / 8] |= p[i] << (7 - i % 8);
			if (op % 2) { if (d.size() % 8) bd.back() |= (1 << (8 - d.size() % 8)) - 1; if (NP % 8) bp.back() |= (1 << (8 - NP % 8)) - 1; } a.io(bd); a.io(bp); a.io(e); },
		[=](D &o, int op, Args &a) { int f = (int)(a.b[2].n / sizeof(T)); a.ret = o(a.p(0), a.p(1), f ? a.p<T>(2) : nullptr, f, len(op)); }));
	m.push_back(mach<ER>(fmt("BCH reference encoder %s", t), 3, 12, [=](int op, Args &a) { std::vector<T> d(len(op)); Fill r(op); for (auto &x : d) x = (T)r(2); a.in(d); a.out<T>(NP * sizeof(T)); }, [=](ER &o, int op, Args &a) { o(a.p<V>(0), a.p<V>(1), len(op)); }, [=](void *p) { new (p) ER({MP...}); }));
	m.push_back(mach<DR>(fmt("BCH reference decoder %s", t), 5, 30, [=](int op, Args &a) { std::vector<T> d, p, e; prep(op, d, p, e); a.io(d); a.io(p); a.io(e); }, [=](DR &o, int op, Args &a) { int f = (int)(a.b[2].n / sizeof(T)); a.ret = o(a.p<V>(0), a.p<V>(1), f ? a.p<I>(2) : nullptr, f, len(op)); }));
}
inline void rs_all(Machs &m, int which)
{
	typedef CODE::GaloisField<4, 19, uint8_t> F4; typedef CODE::GaloisField<8, 285, uint8_t> F8; typedef CODE::GaloisField<5, 37, uint16_t> F5; typedef CODE::GaloisField<7, 137, uint8_t> F7; typedef CODE::GaloisField<6, 67, uint8_t> F6;
	if (which == 0) { rs_machs<F4, 4, 1>(m, "(15,11)"); rs_machs<F4, 6, 0>(m, "(15,9)"); rs_machs<F5, 5, 1>(m, "(31,26)"); rs_machs<F8, 16, 1>(m, "(255,239)"); }
	else { bch_machs<F4, 4, 1, 7, 0b10011, 0b11111>(m, "(15,7)"); bch_machs<F6, 6, 1, 45, 0b1000011, 0b1010111, 0b1100111>(m, "(63,45)"); bch_machs<F7, 20, 1, 64, 0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011>(m, "(127,64)"); }
}
#endif

#if defined(MACH_SHORT)
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
#include "osd.hh"
inline std::vector<int8_t> cyclic(int N, int K, u64 g) { std::vector<int8_t> m(N * K, 0); for (int k = 0; k < K; ++k) for (int i = 0; i <= N - K; ++i) m[k * N + k + i] = N - K - i < 64 ? g >> (N - K - i) & 1 : i == 0 || (i + g) % 5 == 2; return m; }
inline So soft_word(int N, int op) { return op == 1 ? noise(N, 0, 5) : noise(N, op, op == 0 ? 0 : op == 2 ? 2 : op == 3 ? 1 : op == 4 ? 4 : op == 5 ? 3 : 1 + op % 4); }
template <int N, int K, int G, int T> void short_machs(Machs &m)
{
	typedef CODE::ShortBCHCodeEncoder<N, K, G> E; typedef CODE::ShortBCHCodeDecoder<N, K, G, T> D; auto t = fmt("(%d,%d)", N, K);
	m.push_back(mach<E>("short BCH encoder " + t, 4, 1 << K, [](int op, Args &a) { a.out<u8>(N); }, [](E &o, int op, Args &a) { int w = op & ((1 << K) - 1); a.ret = op & 1 ? o(w) : o((int8_t *)a.p(0), w); }));
	m.push_back(mach<D>("short BCH decoder " + t, 7, 200, [](int op, Args &a) { a.in(soft_word(N, op)); }, [](D &o, int op, Args &a) { a.ret = op == 6 ? o((int)(0x2a5 & ((1 << N) - 1))) : o((const int8_t *)a.p(0)); }));
}
template <int K> void had_machs(Machs &m)
{
	typedef CODE::HadamardEncoder<K> E; typedef CODE::HadamardDecoder<K> D; typedef CODE::SimplexEncoder<K> SE; typedef CODE::SimplexDecoder<K> SD; const int N = 1 << (K - 1);
	m.push_back(mach<E>(fmt("Hadamard encoder %d", K), 3, 1 << K, [=](int, Args &a) { a.out<u8>(N); }, [](E &o, int op, Args &a) { o((int8_t *)a.p(0), op & ((1 << K) - 1)); }));
	m.push_back(mach<D>(fmt("Hadamard decoder %d", K), 5, 60, [=](int op, Args &a) { a.in(soft_word(N, op)); }, [](D &o, int op, Args &a) { a.ret = o((const int8_t *)a.p(0)); }));
	m.push_back(mach<SE>(fmt("simplex encoder %d", K), 3, 1 << K, [=](int, Args &a) { a.out<u8>((1 << K) - 1); }, [](SE &o, int op, Args &a) { o((int8_t *)a.p(0), op & ((1 << K) - 1)); }));
	m.push_back(mach<SD>(fmt("simplex decoder %d", K), 5, 60, [=](int op, Args &a) { a.in(soft_word((1 << K) - 1, op)); }, [](SD &o, int op, Args &a) { a.ret = o((const int8_t *)a.p(0)); }));
}
template <int N, int K, int O, int L> void osd_machs(Machs &m, u64 g)
{
	auto gm = cyclic(N, K, g); auto t = fmt("(%d,%d) order %d", N, K, O);
	typedef CODE::OrderedStatisticsDecoder<N, K, O> D; typedef CODE::OrderedStatisticsListDecoder<N, K, O, L> LD; typedef CODE::LinearEncoder<N, K> E;
	auto prep = [=](int op, Args &a) { a.in(soft_word(N, op)); a.in(gm); };
	m.push_back(mach<D>("OSD " + t, 6, 40, [=](int op, Args &a) { prep(op, a); a.out<u8>((N + 7) / 8); }, [](D &o, int op, Args &a) { a.ret = o(a.p(2), (const int8_t *)a.p(0), (const int8_t *)a.p(1)); }));
	m.push_back(mach<LD>("OSD list " + t, 6, 40, [=](int op, Args &a) { prep(op, a); a.out<u8>((N + 7) / 8 * L); a.out<int>(4 * L); }, [](LD &o, int op, Args &a) { o(a.p<int>(3), a.p(2), (const int8_t *)a.p(0), (const int8_t *)a.p(1)); }));
	m.push_back(mach<E>("linear encoder " + t, 4, 20, [=](int op, Args &a) { By d((K + 7) / 8); Fill r(op); for (auto &x : d) x = (u8)r(256); a.in(d); a.in(gm); a.out<u8>((N + 7) / 8); }, [](E &o, int op, Args &a) { o(a.p(2), a.p(0), (const int8_t *)a.p(1)); }));
}
inline void short_all(Machs &m)
{
	short_machs<15, 7, 0b111010001, 2>(m); short_machs<15, 5, 0b10100110111, 3>(m); short_machs<7, 4, 0b1011, 1>(m); short_machs<16, 7, 0b1001110011, 2>(m);
	had_machs<2>(m); had_machs<3>(m); had_machs<4>(m); had_machs<5>(m); had_machs<7>(m);
	osd_machs<15, 7, 2, 4>(m, 0b111010001); osd_machs<31, 16, 3, 8>(m, 0b1000111110101111); osd_machs<63, 24, 1, 16>(m, 0b1101000110010110000111100111011011010001ull | 1ull << 39);
}
#endif

#if defined(MACH_POLAR)
#include "simd.hh"
#include "polar_helper.hh"
#include "polar_encoder.hh"
#include "polar_decoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
typedef std::vector<u32> Fz;
inline Fz shape(int level, int s) { int N = 1 << level; Fz f((N + 31) / 32, 0); for (int i = 0; i < N - 1; ++i) { bool z = s == 0 ? __builtin_popcount(i) < level / 2 : s == 1 ? (i * 7 + i / 5) % 3 == 0 : s == 2 ? i < N / 2 - 1 : s == 3 ? __builtin_popcount(i) * 3 < level + 2 : false; if (z) f[i / 32] |= 1u << i % 32; } return f; }
inline int nfree(const Fz &f, int N) { int k = 0; for (int i = 0; i < N; ++i) k += !(f[i / 32] >> i % 32 & 1); return k; }
inline int pfree(const Fz &f, int N, int stride, int first) { int k = 0, c = first; for (int i = 0; i < N; ++i) if (!(f[i / 32] >> i % 32 & 1)) { if (c == 0) c = stride; else --c, ++k; } return k; }
template <typename T> std::vector<T> conv(const So &s) { std::vector<T> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = (T)(std::is_floating_point<T>::value ? s[i] + s[i] / 4 * 0.25 : s[i]); return v; }
inline So psoft(int N, int op) { return noise(N, op, op == 0 ? 0 : op == 1 ? 2 : op == 2 ? 3 : op == 3 ? 1 : 1 + op % 3); }
template <typename T> void polar_basic(Machs &m, const char *t)
{
	auto lev = [](int op) { return op == 0 ? 3 : op == 1 ? 6 : op == 2 ? 1 : op == 3 ? 5 : op % 9; }; auto shp = [](int op) { return op / 2 % 5; };
	auto msgs = [=](int op, int n) { std::vector<T> v(n); Fill r(op); for (auto &x : v) x = (T)(r(2) ? 1 : -1); return v; };
	auto sl = [=](int op) { return std::max(1, lev(op)); };
	typedef CODE::PolarEncoder<T> E; typedef CODE::PolarSysEnc<T> S; typedef CODE::PolarParityEncoder<T> P;
	auto ep = [=](int op, Args &a, int par) { int l = sl(op); Fz f = shape(l, shp(op)); int st = 1 + op % 4, fi = op % 3; int n = par ? pfree(f, 1 << l, st, fi) : nfree(f, 1 << l); a.in(msgs(op, n)); a.in(f); a.out<T>(sizeof(T) << l); };
	m.push_back(mach<E>(fmt("polar encoder %s", t), 4, 36, [=](int op, Args &a) { ep(op, a, 0); }, [=](E &o, int op, Args &a) { o(a.p<T>(2), a.p<T>(0), a.p<u32>(1), sl(op)); }));
	m.push_back(mach<S>(fmt("polar systematic encoder %s", t), 4, 36, [=](int op, Args &a) { ep(op, a, 0); }, [=](S &o, int op, Args &a) { o(a.p<T>(2), a.p<T>(0), a.p<u32>(1), sl(op)); }));
	m.push_back(mach<P>(fmt("polar parity encoder %s", t), 4, 36, [=](int op, Args &a) { ep(op, a, 1); }, [=](P &o, int op, Args &a) { o(a.p<T>(2), a.p<T>(0), a.p<u32>(1), sl(op), 1 + op % 4, op % 3); }));
}
template <typename T> void polar_dec(Machs &m, const char *t)
{
	typedef CODE::PolarDecoder<T, 8> D; auto lev = [](int op) { return op == 0 ? 5 : op == 1 ? 8 : op == 2 ? 6 : op == 3 ? 5 : 5 + op % 4; };
	m.push_back(mach<D>(fmt("polar decoder %s", t), 5, 40, [=](int op, Args &a) { int l = lev(op); Fz f = shape(l, op % 5); a.in(conv<T>(psoft(1 << l, op))); a.in(f); a.out<T>(sizeof(T) * nfree(f, 1 << l)); }, [=](D &o, int op, Args &a) { o(a.p<T>(2), a.p<T>(0), a.p<u32>(1), lev(op)); }));
}
template <typename V, int L, int MM> void polar_list(Machs &m, const char *t)
{
	typedef SIMD<V, L> T; typedef CODE::PolarListDecoder<T, MM> D; typedef CODE::PolarParityDecoder<T, MM> P; auto lev = [](int op) { return op == 0 ? 5 : op == 1 ? MM : op == 2 ? 5 : op == 3 ? MM - 1 : 5 + op % (MM - 4); };
	// every lane is in use: at least as many information bits as the list can hold
	auto shp = [](int op) { return op % 5; };
	m.push_back(mach<D>(fmt("polar list decoder %s", t), 5, 40, [=](int op, Args &a) { int l = lev(op); Fz f = shape(l, shp(op)); a.in(conv<V>(psoft(1 << l, op))); a.in(f); a.out<T>(sizeof(T) * nfree(f, 1 << l)); a.out<int>(4 * L); }, [=](D &o, int op, Args &a) { o(op == 4 ? nullptr : a.p<int>(3), a.p<T>(2), a.p<V>(0), a.p<u32>(1), lev(op)); }));
	m.push_back(mach<P>(fmt("polar parity decoder %s", t), 5, 40, [=](int op, Args &a) { int l = lev(op); Fz f = shape(l, shp(op)); a.in(conv<V>(psoft(1 << l, op))); a.in(f); a.out<T>(sizeof(T) * pfree(f, 1 << l, 3 + op % 4, op % 3)); a.out<int>(4 * L); }, [=](P &o, int op, Args &a) { o(op == 4 ? nullptr : a.p<int>(3), a.p<T>(2), a.p<V>(0), a.p<u32>(1), lev(op), 3 + op % 4, op % 3); }));
}
inline void polar_all(Machs &m, int which)
{
	if (which == 0) {
		polar_basic<int8_t>(m, "int8"); polar_basic<float>(m, "float"); polar_dec<int8_t>(m, "int8"); polar_dec<float>(m, "float"); polar_dec<int16_t>(m, "int16");
		typedef CODE::PolarFreezer F; typedef CODE::PolarCodeConst0<7> C; typedef CODE::PolarSeqConst0<7> S;
		auto lv = [](int op) { return op == 0 ? 7 : op == 1 ? 5 : op == 2 ? 0 : op % 8; };
		m.push_back(mach<F>("polar freezer", 4, 32, [=](int op, Args &a) { a.io(std::vector<u32>(std::max(1, (1 << lv(op)) / 32), op % 2 ? ~0u : 0)); }, [=](F &o, int op, Args &a) { a.ret = o(a.p<u32>(0), lv(op), 0.1 + 0.07 * (op % 11), 0.02 + 0.06 * (op % 13)); }));
		m.push_back(mach<C>("polar construction", 4, 32, [=](int op, Args &a) { a.io(std::vector<u32>(std::max(1, (1 << lv(op)) / 32), op % 2 ? ~0u : 0)); }, [=](C &o, int op, Args &a) { o(a.p<u32>(0), lv(op), (op * 5 + 3) % ((1 << lv(op)) + 1), 0.1 + 0.07 * (op % 11)); }));
		m.push_back(mach<S>("polar sequence", 4, 32, [=](int op, Args &a) { a.out<int>(4 << lv(op)); }, [=](S &o, int op, Args &a) { o(a.p<int>(0), lv(op), 0.1 + 0.07 * (op % 11)); }));
	} else if (which == 1) { polar_list<int8_t, 16, 6>(m, "SIMD<int8,16>"); polar_list<int8_t, 32, 7>(m, "SIMD<int8,32>"); polar_list<float, 4, 6>(m, "SIMD<float,4>"); }
	else { polar_list<float, 8, 7>(m, "SIMD<float,8>"); polar_list<int8_t, 4, 7>(m, "SIMD<int8,4>"); polar_list<int16_t, 8, 6>(m, "SIMD<int16,8>"); }
}
#endif

#if defined(MACH_LDPC)
#include "ldpc.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
template <typename T, int B> void ldpc_machs(Machs &m, const char *t, bool big)
{
	typedef CODE::LDPCEncoder<T> E; typedef CODE::LDPCDecoder<T, B> D; const int K = T::K, R = T::N - T::K;
	m.push_back(mach<E>(fmt("LDPC encoder %s", t), 3, 10, [=](int op, Args &a) { So d(K); Fill r(op); for (auto &x : d) x = op == 0 ? 1 : r(2) ? 1 : -1; a.in(d); a.out<u8>(R); }, [](E &o, int op, Args &a) { o((const int8_t *)a.p(0), (int8_t *)a.p(1)); }));
	m.push_back(mach<D>(fmt("LDPC decoder %s", t), big ? 4 : 6, big ? 12 : 60, [=](int op, Args &a) { So s = op == 0 ? noise(K + R, 0, 0) : noise(K + R, op, op == 1 || op == 3 ? 2 : op == 2 ? 1 : op == 4 ? 4 : 1 + op % 4); a.io(So(s.begin(), s.begin() + K)); a.io(So(s.begin() + K, s.end())); },
		[](D &o, int op, Args &a) { a.ret = op == 3 ? o((int8_t *)a.p(0), (int8_t *)a.p(1), 1) : op % 7 == 5 ? o((int8_t *)a.p(0), (int8_t *)a.p(1), op) : o((int8_t *)a.p(0), (int8_t *)a.p(1)); }));
}
inline void ldpc_all(Machs &m, int which)
{
	if (which == 0) { ldpc_machs<Tab<30, 3, 2, 1, 3, 2, 2>, 1>(m, "30/3/2", false); ldpc_machs<Tab<30, 3, 4, 2, 4, 3, 3>, 0>(m, "30/3/4", false); ldpc_machs<Tab<60, 3, 4, 1, 5, 3, 4>, 1>(m, "60/3/4", false); ldpc_machs<Tab<90, 2, 3, 1, 4, 3, 7>, 1>(m, "90/2/3", false); ldpc_machs<Tab<30, 5, 3, 1, 5, 3, 4>, 2>(m, "30/5/3", false); }
	else if (which == 1) ldpc_machs<DVB_T2_TABLE_B7, 1>(m, "B7", true);
	else { ldpc_machs<DVB_T2_TABLE_A1, 1>(m, "A1", true); ldpc_machs<DVB_T2_TABLE_A3, 1>(m, "A3", true); ldpc_machs<DVB_T2_TABLE_A6, 1>(m, "A6", true); }
}
#endif

#if defined(MACH_MISC)
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "cauchy_prime_field_erasure_coding.hh"
#include "prime_field.hh"
#include "sort.hh"
#include "permute.hh"
#include "crc.hh"
#include "mls.hh"
#include "xorshift.hh"
#include "bitstream.hh"
template <typename GF> void crs_machs(Machs &m, const char *t, bool wide)
{
	typedef typename GF::value_type T; typedef CODE::CauchyReedSolomonErasureCoding<GF> C; field_of<GF>();
	auto len = [](int op) { return op % 3 == 0 ? 32 : op % 3 == 1 ? 5 : 1 + op * 11 % 70; }; auto cnt = [](int op) { return 1 + op * 3 % 7; };
	auto id = [=](int op, int k) { return cnt(op) + ((k * 5 + op) % (int)(GF::N - cnt(op))) ; };
	m.push_back(mach<C>(fmt("Cauchy RS %s", t), 6, 80, [=](int op, Args &a) { Fill r(op); int n = cnt(op), l = len(op); std::vector<T> d(l * n), e(n); for (auto &x : d) x = (T)r(GF::Q); std::set<int> u; for (int k = 0; k < n; ++k) { int v = id(op, k); while (u.count(v)) v = v + 1 <= GF::N ? v + 1 : n; u.insert(v); e[k] = (T)v; } bool al = op % 4 < 2; a.in(d, al); a.in(e); a.out<T>(l * sizeof(T), al); },
		[=](C &o, int op, Args &a) { if (op & 1) o.decode(a.p<T>(2), a.p<T>(0), a.p<T>(1), op / 2 % cnt(op), len(op), cnt(op)); else o.encode((const T *)a.p<T>(0), a.p<T>(2), (int)a.p<T>(1)[op / 2 % cnt(op)], len(op), cnt(op)); }));
}
template <typename PF, typename IO> void cpf_machs(Machs &m, const char *t, int P)
{
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, IO, 200> C; auto len = [](int op) { return op % 3 == 0 ? 32 : op % 3 == 1 ? 5 : 1 + op * 11 % 199; }; auto cnt = [](int op) { return 1 + op * 3 % 7; };
	m.push_back(mach<C>(fmt("Cauchy prime field %s", t), 8, 80, [=](int op, Args &a) { Fill r(op); int n = cnt(op), l = len(op); std::vector<IO> d(l * n), e(n), s(n); for (auto &x : d) x = (IO)(op == 6 ? 0 : op % 5 == 4 ? P - 1 - r(2) : r(P - 1)); for (int k = 0; k < n; ++k) { e[k] = (IO)(n + (k * 5 + op) % (P / 2 - n)); s[k] = (IO)r(P - 1); } a.in(d); a.in(e); a.in(s); a.out<IO>(l * sizeof(IO)); },
		[=](C &o, int op, Args &a) { if (op & 1) o.decode(a.p<IO>(3), a.p<IO>(0), a.p<IO>(2), a.p<IO>(1), op / 2 % cnt(op), len(op), cnt(op)); else a.ret = o.encode(a.p<IO>(0), a.p<IO>(3), (int)a.p<IO>(1)[op / 2 % cnt(op)], len(op), cnt(op)); }));
}
inline void misc_all(Machs &m)
{
	crs_machs<CODE::GaloisField<8, 285, uint8_t>>(m, "GF(256)", false); crs_machs<CODE::GaloisField<16, 69643, uint16_t>>(m, "GF(65536)", true); crs_machs<CODE::GaloisField<7, 137, uint8_t>>(m, "GF(128)", false);
	cpf_machs<CODE::PrimeField<uint32_t, 257>, uint8_t>(m, "257", 257); cpf_machs<CODE::PrimeField<uint64_t, 65537>, uint16_t>(m, "65537", 65537);
	typedef CODE::MergeSort<int16_t, 200> MS; m.push_back(mach<MS>("merge sort", 5, 60, [](int op, Args &a) { Fill r(op); int n = op == 0 ? 200 : op == 1 ? 33 : op == 2 ? 1 : op * 17 % 201; std::vector<i16> v(n); for (auto &x : v) x = (i16)r(op % 3 ? 50 : 60000); a.io(v); },
		[](MS &o, int op, Args &a) { int n = (int)a.b[0].n / 2; if (op & 1) o(a.p<i16>(0), n, [](i16 x, i16 y) { return x / 8 > y / 8; }); else o(a.p<i16>(0), n); }));
	typedef CODE::FisherYatesShuffle<50> FY; typedef CODE::ReverseFisherYatesShuffle<50> RF;
	auto arr = [](int op, Args &a) { std::vector<i16> v(50); Fill r(op); for (auto &x : v) x = (i16)r(1000); a.io(v); };
	m.push_back(mach<FY>("shuffle", 3, 9, arr, [](FY &o, int, Args &a) { o(a.p<i16>(0)); })); m.push_back(mach<RF>("reverse shuffle", 3, 9, arr, [](RF &o, int, Args &a) { o(a.p<i16>(0)); }));
	auto none = [](int, Args &) {}; auto bytes = [](int op, Args &a) { Fill r(op); By v(op * 3 % 11); for (auto &x : v) x = (u8)r(256); a.in(v); };
	typedef CODE::CRC<u16> C16; typedef CODE::CRC<u32> C32; typedef CODE::CRC<u8> C8;
	m.push_back(mach<C32>("CRC32 after reset", 5, 30, bytes, [](C32 &o, int op, Args &a) { o.reset(op == 3 ? 77 : 0); for (size_t i = 0; i < a.b[0].n; ++i) if (op == 4) for (int k = 0; k < 8; ++k) o((bool)(a.p(0)[i] >> k & 1)); else o(a.p(0)[i]); a.ret = o(); }, [](void *p) { new (p) C32(0x8F6E37A0); }));
	m.push_back(mach<C8>("CRC8 after reset", 4, 30, bytes, [](C8 &o, int op, Args &a) { o.reset(); for (size_t i = 0; i < a.b[0].n; ++i) o(a.p(0)[i]); a.ret = o(); }, [](void *p) { new (p) C8(0x8C, 5); }));
	m.push_back(mach<C16>("CRC16 stream", 4, 30, bytes, [](C16 &o, int op, Args &a) { if (op == 3) o.reset(9); for (size_t i = 0; i < a.b[0].n; ++i) o(a.p(0)[i]); a.ret = o(); }, [](void *p) { new (p) C16(0xA8F4, 3); }, true));
	typedef CODE::MLS ML; m.push_back(mach<ML>("MLS stream", 3, 3, none, [](ML &o, int op, Args &a) { if (op == 2) o.reset(5); for (int i = 0; i < 9 + op; ++i) a.ret = a.ret * 2 + o(); }, [](void *p) { new (p) ML(0b10001001); }, true));
	m.push_back(mach<ML>("MLS after reset", 4, 20, none, [](ML &o, int op, Args &a) { o.reset(op + 1); for (int i = 0; i < 20 + op; ++i) a.ret = a.ret * 2 + o(); }, [](void *p) { new (p) ML(0b10001001); }));
#define XS(X, n) { typedef CODE::X G; m.push_back(mach<G>(n " stream", 3, 3, none, [](G &o, int op, Args &a) { if (op == 2) o.reset(); for (int i = 0; i < 5 + op; ++i) a.ret = a.ret * 31 + o(); }, nullptr, true)); m.push_back(mach<G>(n " after reset", 4, 20, none, [](G &o, int op, Args &a) { if (op == 1) o.reset(12345); else o.reset(); for (int i = 0; i < 7 + op; ++i) a.ret = a.ret * 31 + o(); })); }
	XS(Xorshift32, "xorshift32") XS(Xorshift64, "xorshift64") XS(Xorwow, "xorwow") XS(Xorshift128, "xorshift128")
}
#endif

// objects with more of everything than 255 (and 65535 where that is affordable)
#if defined(MACH_BIGRS)
inline void big_all(Machs &m)
{
	typedef CODE::GaloisField<10, 1033, uint16_t> F10; typedef CODE::GaloisField<11, 2053, uint16_t> F11; size_t at = m.size();
	rs_machs<F10, 300, 1>(m, "(1023,723)"); rs_machs<F11, 40, 0>(m, "(2047,2007)"); bch_machs<F10, 4, 1, 1003, 0b10000001001, 0b10000001111>(m, "(1023,1003)");
	for (size_t i = at; i < m.size(); ++i) m[i].more = 14;
}
#elif defined(MACH_BIGSHORT)
inline void big_all(Machs &m)
{
	size_t at = m.size();
	had_machs<9>(m); had_machs<12>(m); osd_machs<300, 3, 2, 4>(m, 0b1011); osd_machs<512, 260, 1, 4>(m, 0x9e3779b97f4a7c15ull); osd_machs<300, 40, 2, 300>(m, 0x123456789abcdefull);
	for (size_t i = at; i < m.size(); ++i) m[i].more = 12;
}
#elif defined(MACH_BIGPOLAR)
template <typename V, int L, int MM> void list_big(Machs &m, const char *t)
{
	typedef SIMD<V, L> T; typedef CODE::PolarListDecoder<T, MM> D; typedef CODE::PolarParityDecoder<T, MM> P; auto lev = [](int op) { return op % 2 ? MM - 1 : MM; };
	m.push_back(mach<D>(fmt("polar list decoder %s level %d", t, MM), 4, 8, [=](int op, Args &a) { int l = lev(op); Fz f = shape(l, op % 5); a.in(conv<V>(psoft(1 << l, op))); a.in(f); a.out<T>(sizeof(T) * nfree(f, 1 << l)); a.out<int>(4 * L); }, [=](D &o, int op, Args &a) { o(a.p<int>(3), a.p<T>(2), a.p<V>(0), a.p<u32>(1), lev(op)); }));
	m.push_back(mach<P>(fmt("polar parity decoder %s level %d", t, MM), 4, 8, [=](int op, Args &a) { int l = lev(op); Fz f = shape(l, op % 5); a.in(conv<V>(psoft(1 << l, op))); a.in(f); a.out<T>(sizeof(T) * pfree(f, 1 << l, 300 + op, op * 129)); a.out<int>(4 * L); }, [=](P &o, int op, Args &a) { o(a.p<int>(3), a.p<T>(2), a.p<V>(0), a.p<u32>(1), lev(op), 300 + op, op * 129); }));
}
inline void big_all(Machs &m)
{
	list_big<int8_t, 16, 12>(m, "SIMD<int8,16>"); list_big<float, 8, 11>(m, "SIMD<float,8>");
	{ typedef CODE::PolarDecoder<int8_t, 13> D; auto lev = [](int op) { return op % 2 ? 12 : 13; }; m.push_back(mach<D>("polar decoder int8 level 13", 4, 8, [=](int op, Args &a) { int l = lev(op); Fz f = shape(l, op % 5); a.in(psoft(1 << l, op)); a.in(f); a.out<u8>(nfree(f, 1 << l)); }, [=](D &o, int op, Args &a) { o((int8_t *)a.p(2), (int8_t *)a.p(0), a.p<u32>(1), lev(op)); })); }
	{ typedef CODE::PolarFreezer F; typedef CODE::PolarCodeConst0<16> C; typedef CODE::PolarSeqConst0<16> S; auto lv = [](int op) { return op % 3 == 0 ? 16 : op % 3 == 1 ? 13 : 9; };
		m.push_back(mach<F>("polar freezer to level 16", 4, 6, [=](int op, Args &a) { a.io(std::vector<u32>((1 << lv(op)) / 32, op % 2 ? ~0u : 0)); }, [=](F &o, int op, Args &a) { a.ret = o(a.p<u32>(0), lv(op), 0.1 + 0.07 * (op % 11), 0.02 + 0.06 * (op % 13)); }));
		m.push_back(mach<C>("polar construction to level 16", 4, 6, [=](int op, Args &a) { a.io(std::vector<u32>((1 << lv(op)) / 32, op % 2 ? ~0u : 0)); }, [=](C &o, int op, Args &a) { o(a.p<u32>(0), lv(op), (op * 5555 + 300) % ((1 << lv(op)) + 1), 0.1 + 0.07 * (op % 11)); }));
		m.push_back(mach<S>("polar sequence to level 16", 4, 6, [=](int op, Args &a) { a.out<int>(4 << lv(op)); }, [=](S &o, int op, Args &a) { o(a.p<int>(0), lv(op), 0.1 + 0.07 * (op % 11)); })); }
}
#elif defined(MACH_BIGMISC)
template <typename T, int MAX, int M> void sort_machs(Machs &m, const char *t)
{
	typedef CODE::MergeSort<T, MAX, M> MS; m.push_back(mach<MS>(fmt("merge sort %d %s", MAX, t), 5, 10, [](int op, Args &a) { Fill r(op); int n = op == 0 ? MAX : op == 1 ? MAX / 2 + 1 : op == 2 ? 1 : op == 3 ? std::min(MAX, 65536) : MAX - op * 17 % MAX; std::vector<T> v(n); for (auto &x : v) x = (T)r(op % 3 ? 50 : 60000); a.io(v); },
		[](MS &o, int op, Args &a) { int n = (int)(a.b[0].n / sizeof(T)); if (op & 1) o(a.p<T>(0), n, [](T x, T y) { return x / 8 > y / 8; }); else o(a.p<T>(0), n); }));
}
template <int N> void shuffle_machs(Machs &m)
{
	typedef CODE::FisherYatesShuffle<N> FY; typedef CODE::ReverseFisherYatesShuffle<N> RF; auto arr = [](int op, Args &a) { std::vector<i32> v(N); Fill r(op); for (auto &x : v) x = (i32)r(1000); a.io(v); };
	m.push_back(mach<FY>(fmt("shuffle %d", N), 2, 2, arr, [](FY &o, int, Args &a) { o(a.p<i32>(0)); })); m.push_back(mach<RF>(fmt("reverse shuffle %d", N), 2, 2, arr, [](RF &o, int, Args &a) { o(a.p<i32>(0)); }));
}
template <typename GF> void crs_big(Machs &m, const char *t)
{
	typedef typename GF::value_type T; typedef CODE::CauchyReedSolomonErasureCoding<GF> C; field_of<GF>(); auto len = [](int op) { return op % 3 == 0 ? 300 : op % 3 == 1 ? 7 : 70000; }; auto cnt = [](int op) { return op % 3 == 0 ? (int)GF::Q / 2 > 300 ? 300 : (int)GF::Q / 2 : op % 3 == 1 ? (int)GF::Q / 2 > 260 ? 260 : (int)GF::Q / 2 - 1 : 3; };
	m.push_back(mach<C>(fmt("Cauchy RS %s, many and long blocks", t), 6, 12, [=](int op, Args &a) { Fill r(op); int n = cnt(op), l = len(op); std::vector<T> d((size_t)l * n), e(n); for (auto &x : d) x = (T)r(GF::Q); for (int k = 0; k < n; ++k) e[k] = (T)(op % 4 < 2 ? n + k : GF::N - k); a.in(d); a.in(e); a.out<T>(l * sizeof(T)); },
		[=](C &o, int op, Args &a) { if (op & 1) o.decode(a.p<T>(2), a.p<T>(0), a.p<T>(1), (op * 37 + 5) % cnt(op), len(op), cnt(op)); else o.encode((const T *)a.p<T>(0), a.p<T>(2), (int)a.p<T>(1)[(op * 37 + 5) % cnt(op)], len(op), cnt(op)); }));
}
template <typename PF, typename IO, int MAX> void cpf_big(Machs &m, int P)
{
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, IO, MAX> C; auto len = [](int op) { return op % 3 == 0 ? MAX : op % 3 == 1 ? std::min(MAX, 300) : MAX - 1; }; auto cnt = [=](int op) { return op % 3 == 0 ? 3 : op % 3 == 1 ? 60 : 50; };
	m.push_back(mach<C>(fmt("Cauchy prime field %d, many and long blocks", P), 6, 12, [=](int op, Args &a) { Fill r(op); int n = cnt(op), l = len(op); std::vector<IO> d((size_t)l * n), e(n), s(n); for (auto &x : d) x = (IO)r(P - 1); for (int k = 0; k < n; ++k) { e[k] = (IO)(op % 4 < 2 ? n + k : P / 2 - 1 - k); s[k] = (IO)r(P - 1); } a.in(d); a.in(e); a.in(s); a.out<IO>(l * sizeof(IO)); },
		[=](C &o, int op, Args &a) { if (op & 1) o.decode(a.p<IO>(3), a.p<IO>(0), a.p<IO>(2), a.p<IO>(1), (op * 37 + 5) % cnt(op), len(op), cnt(op)); else a.ret = o.encode(a.p<IO>(0), a.p<IO>(3), (int)a.p<IO>(1)[(op * 37 + 5) % cnt(op)], len(op), cnt(op)); }));
}
inline void big_all(Machs &m)
{
	sort_machs<i16, 70000, 32>(m, "int16"); sort_machs<i32, 1000, 300>(m, "int, runs of 300"); shuffle_machs<300>(m); shuffle_machs<70000>(m);
	crs_big<CODE::GaloisField<16, 69643, uint16_t>>(m, "GF(65536)"); crs_big<CODE::GaloisField<8, 285, uint8_t>>(m, "GF(256)"); cpf_big<CODE::PrimeField<uint64_t, 65537>, uint16_t, 5000>(m, 65537); cpf_big<CODE::PrimeField<uint32_t, 257>, uint8_t, 255>(m, 257);
}
#endif

#if defined(MACH_UTIL)
// free functions and the remaining classes
#include "simd.hh"
#include "simd_sort.hh"
#include "rotate.hh"
#include "interleave.hh"
#include "exclusive_reduce.hh"
#include "permute.hh"
#include "bitman.hh"
#include "bitstream.hh"
#include "mls.hh"
#include "prime_field.hh"
#include "crc.hh"
struct Free { char c; };
template <typename T> std::vector<T> numbers(int n, int op) { Fill r(op * 5 + n); std::vector<T> v(n); for (auto &x : v) x = (T)((i64)r(op % 3 == 0 ? 5 : 250) - (std::is_signed<T>::value ? 100 : 0)); return v; }
template <typename T, int W, int R> void rotate_mach(Machs &m, const char *t)
{
	typedef SIMD<T, W> V; typedef CODE::Rotate<V, R> X;
	m.push_back(mach<X>(fmt("rotate %d of %s", R, t), 5, 2 * R, [](int op, Args &a) { a.in(numbers<T>(W, op)); a.out<T>(R * sizeof(T)); }, [](X &o, int op, Args &a) { V v, w; for (int i = 0; i < W; ++i) v.v[i] = a.p<T>(0)[i]; w = o(v, op % (2 * R) < R ? op % R : -(op % R)); memcpy(a.p(1), w.v, R * sizeof(T)); },
		[](void *p) { new (p) X; }));
}
template <typename T, int W> void lanes_mach(Machs &m, const char *t)
{
	typedef SIMD<T, W> V; typedef SIMD<typename V::uint_type, W> U;
	m.push_back(mach<Free>(fmt("lane sort %s", t), 4, 20, [](int op, Args &a) { a.in(numbers<T>(W, op)); a.out<u8>(sizeof(V)); a.out<u8>(sizeof(U)); }, [](Free &, int, Args &a) { V v; memcpy(v.v, a.p(0), sizeof v.v); V s = vsort(v); U o = vorder(v); memcpy(a.p(1), s.v, sizeof s.v); memcpy(a.p(2), o.v, sizeof o.v); }));
}
template <typename T> void plain_machs(Machs &m, const char *t)
{
	auto len = [](int op) { return op == 0 ? 40 : op == 1 ? 1 : op == 2 ? 7 : 1 + op * 13 % 60; };
	m.push_back(mach<Free>(fmt("insertion sort %s", t), 6, 40, [=](int op, Args &a) { a.io(numbers<T>(len(op / 2), op)); a.out<int>(len(op / 2) * sizeof(int)); }, [](Free &, int op, Args &a) { int n = (int)(a.b[0].n / sizeof(T)); T *x = a.p<T>(0); for (int i = 0; i < n; ++i) a.p<int>(1)[i] = 0; if (op % 3 == 0) CODE::insertion_sort(x, n); else if (op % 3 == 1) CODE::insertion_sort(x, n, [](T a, T b) { return b < a; }); else CODE::insertion_sort(a.p<int>(1), x, n); }));
	m.push_back(mach<Free>(fmt("exclusive reduction %s", t), 5, 40, [=](int op, Args &a) { int n = 1 + len(op); a.in(numbers<T>(n, op)); a.out<T>(n * sizeof(T)); }, [](Free &, int op, Args &a) { int n = (int)(a.b[0].n / sizeof(T)); if (op & 1) CODE::exclusive_reduce(a.p<T>(0), a.p<T>(1), n, [](T x, T y) { return std::min(x, y); }); else CODE::exclusive_reduce(a.p<T>(0), a.p<T>(1), n, [](T x, T y) { return (T)(x + y); }); }));
	m.push_back(mach<Free>(fmt("interleaving %s", t), 6, 12, [](int op, Args &a) { a.in(numbers<T>(60, op)); a.out<T>(60 * sizeof(T)); }, [](Free &, int op, Args &a) { const T *x = a.p<T>(0); T *y = a.p<T>(1); switch (op % 6) { case 0: CODE::Interleave<60, 4>(y, x); break; case 1: CODE::Deinterleave<60, 4>(y, x); break; case 2: CODE::Interleave<60, 15>(y, x); break; case 3: CODE::Deinterleave<60, 1>(y, x); break; case 4: CODE::Interleave<60, 60>(y, x); break; default: CODE::Deinterleave<60, 20>(y, x); } }));
	m.push_back(mach<Free>(fmt("bit reversal %s", t), 4, 12, [](int op, Args &a) { a.io(numbers<T>(op % 4 == 0 ? 64 : op % 4 == 1 ? 8 : op % 4 == 2 ? 1 : 256, op)); }, [](Free &, int op, Args &a) { T *x = a.p<T>(0); switch (op % 4) { case 0: CODE::BitReversalPermute<64>(x); break; case 1: CODE::BitReversalPermute<8>(x); break; case 2: CODE::BitReversalPermute<1>(x); break; default: CODE::BitReversalPermute<256>(x); } }));
}
template <typename PF> void prime_mach(Machs &m, const char *t)
{
	typedef decltype(PF().v) T; m.push_back(mach<Free>(fmt("prime field %s", t), 4, 100, [](int op, Args &a) { std::vector<T> x(8); Fill r(op); for (auto &v : x) v = (T)(1 + r((u32)(PF::P - 1))); a.in(x); a.out<T>(8 * 6 * sizeof(T)); }, [](Free &, int, Args &a) { T *o = a.p<T>(1); for (int i = 0; i < 8; ++i) { PF x(a.p<T>(0)[i]), y(a.p<T>(0)[i * 3 % 8]); *o++ = (x + y)(); *o++ = (x - y)(); *o++ = (x * y)(); *o++ = (x / y)(); *o++ = (-x)(); *o++ = rcp(x)(); } }));
}
template <typename GF> void galois_mach(Machs &m, const char *t)
{
	typedef typename GF::value_type T; typedef typename GF::ValueType V; typedef typename GF::IndexType I; field_of<GF>();
	m.push_back(mach<Free>(fmt("Galois field %s", t), 4, 100, [](int op, Args &a) { std::vector<T> x(8); Fill r(op); for (auto &v : x) v = (T)(1 + r(GF::N)); a.in(x); a.out<T>(8 * 6 * sizeof(T)); }, [](Free &, int, Args &a) { T *o = a.p<T>(1); for (int i = 0; i < 8; ++i) { V x(a.p<T>(0)[i]), y(a.p<T>(0)[i * 3 % 8]); I q = index(y); *o++ = (x + y).v; *o++ = (x * y).v; *o++ = (x / y).v; *o++ = rcp(x).v; *o++ = fma(q, x, y).v; *o++ = value(index(x) * q).v; } }));
}
inline void util_all(Machs &m)
{
	plain_machs<int8_t>(m, "int8"); plain_machs<i32>(m, "int"); plain_machs<float>(m, "float"); plain_machs<u64>(m, "uint64");
	rotate_mach<int8_t, 16, 16>(m, "SIMD<int8,16>"); rotate_mach<int8_t, 16, 15>(m, "SIMD<int8,16>"); rotate_mach<int8_t, 32, 30>(m, "SIMD<int8,32>"); rotate_mach<int8_t, 32, 7>(m, "SIMD<int8,32>"); rotate_mach<float, 4, 3>(m, "SIMD<float,4>"); rotate_mach<int16_t, 8, 8>(m, "SIMD<int16,8>");
	lanes_mach<int8_t, 16>(m, "SIMD<int8,16>"); lanes_mach<int8_t, 32>(m, "SIMD<int8,32>"); lanes_mach<int16_t, 8>(m, "SIMD<int16,8>"); lanes_mach<float, 8>(m, "SIMD<float,8>"); lanes_mach<u64, 4>(m, "SIMD<uint64,4>");
	prime_mach<CODE::PrimeField<u32, 257>>(m, "257"); prime_mach<CODE::PrimeField<u64, 65537>>(m, "65537"); galois_mach<CODE::GaloisField<8, 285, uint8_t>>(m, "256"); galois_mach<CODE::GaloisField<11, 2053, uint16_t>>(m, "2048");
	auto none = [](int, Args &) {}; (void)none;
	typedef CODE::Bitstream<203> BS; m.push_back(mach<BS>("bit stream", 5, 40, [](int op, Args &a) { a.out<u8>(26); }, [](BS &o, int op, Args &a) { Fill r(op); o.reset(); int left = 203; while (left > 0) { if (left >= 8 && r(2)) { o.putbyte((u8)r(256)); left -= 8; } else { o.putbit(r(2)); --left; } } a.ret = o.tell(); o.seek(op % 5); for (int i = 0; i < 12; ++i) a.ret = a.ret * 3 + (i % 3 ? o.getbyte() : o.getbit()); memcpy(a.p(0), o.data(), 25); a.p(0)[25] = o.data()[25] & 7; }));
	m.push_back(mach<Free>("bit access", 4, 64, [](int op, Args &a) { Fill r(op); By v(1 + op % 9); for (auto &x : v) x = (u8)r(256); a.io(v); }, [](Free &, int op, Args &a) { Fill r(op * 3); int n = 8 * (int)a.b[0].n; for (int i = 0; i < 40; ++i) { int q = (int)r(n); bool b = r(2); switch (r(6)) { case 0: CODE::xor_be_bit(a.p(0), q, b); break; case 1: CODE::xor_le_bit(a.p(0), q, b); break; case 2: CODE::set_be_bit(a.p(0), q, b); break; case 3: CODE::set_le_bit(a.p(0), q, b); break; case 4: a.ret = a.ret * 2 + CODE::get_be_bit(a.p(0), q); break; default: a.ret = a.ret * 2 + CODE::get_le_bit(a.p(0), q); } } }));
	typedef CODE::MLS ML; m.push_back(mach<ML>("MLS badness test", 4, 8, [](int, Args &) {}, [](ML &o, int op, Args &a) { a.ret = o.bad(op + 1); }, [](void *p) { new (p) ML(0b10001001); })); m.push_back(mach<ML>("MLS badness test, reducible", 4, 8, [](int, Args &) {}, [](ML &o, int op, Args &a) { a.ret = o.bad(op + 1); }, [](void *p) { new (p) ML(0b10000101); }));
	typedef CODE::CRC<u64> C64; m.push_back(mach<C64>("CRC64 after reset", 5, 30, [](int op, Args &a) { a.in(numbers<u64>(1 + op % 4, op)); }, [](C64 &o, int op, Args &a) { o.reset(op % 3 * 77); for (size_t i = 0; i < a.b[0].n / 8; ++i) { u64 x = a.p<u64>(0)[i]; if (op % 5 == 0) o(x); else if (op % 5 == 1) { o((u32)x); o((u32)(x >> 32)); } else if (op % 5 == 2) for (int k = 0; k < 4; ++k) o((u16)(x >> 16 * k)); else if (op % 5 == 3) for (int k = 0; k < 8; ++k) o((u8)(x >> 8 * k)); else for (int k = 0; k < 64; ++k) o((bool)(x >> k & 1)); } a.ret = o(); }, [](void *p) { new (p) C64(0xC96C5795D7870F42ull); }));
}
#endif
