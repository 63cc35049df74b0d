// Shared by C12..C14: Reed-Solomon codes against polynomial evaluation.
#pragma once
#include "fields.hh"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
using namespace mc;
typedef std::vector<u16> Word;

// one code; symbols are u16 on this side whatever the storage type of the field
struct RS {
	int M, NR, FCR, N, NP, K, Q, bits; orc::Field o;
	std::vector<int> g;   // generator polynomial, highest coefficient first
	std::vector<u16> D, P, S; bool guards_ok;
	RS(int M, int poly, int NR, int FCR, int bits, int np = -1, int q = -1) : M(M), NR(NR), FCR(FCR), N((1 << M) - 1), NP(np < 0 ? NR : np), K(N - NP), Q(q < 0 ? N + 1 : q), bits(bits), o(M, poly), D(N), P(NP), S(NR)
	{
		if (Q == 2) return;
		g.assign(1, 1);
		for (int i = 0; i < NR; ++i) {
			int r = o.pw(FCR + i); std::vector<int> h(g.size() + 1, 0);
			for (size_t j = 0; j < g.size(); ++j) { h[j] ^= g[j]; h[j + 1] ^= o.m(r, g[j]); }
			g = h;
		}
	}
	virtual ~RS() {}
	virtual void encode(const u16 *data, int len) = 0;                                  // -> P, D, guards_ok
	virtual int syndromes(const u16 *word, int len) = 0;                                // -> S, guards_ok
	virtual int decode(const u16 *word, int len, const int *era, int f) = 0;            // -> D, P, guards_ok
	std::string name() const { return fmt("%s GF(2^%d,%#x) NR=%d FCR=%d K=%d", Q == 2 ? bits ? "BCH" : "BCH reference" : "RS", M, (int)o.poly, NR, FCR, K); }
	// value of the code polynomial (first symbol is the highest coefficient) at the i-th prescribed root
	int eval(const u16 *w, int n, int i) const
	{
		int e = (FCR + i) % N, r = 0;
		for (int j = 0; j < n; ++j) r = (r ? o.ex[o.lg[r] + e] : 0) ^ (int)w[j];
		return r;
	}
	bool codeword(const u16 *w, int n) const { if (Q == 2) for (int i = 0; i < n; ++i) if (w[i] > 1) return false; for (int i = 0; i < NR; ++i) if (eval(w, n, i)) return false; return true; }
	Word oracle_encode(const Word &d) const
	{
		std::vector<int> w(d.begin(), d.end()); w.resize(d.size() + NP, 0);
		for (size_t i = 0; i < d.size(); ++i) if (w[i]) { int f = w[i]; for (int j = 0; j <= NP; ++j) w[i + j] ^= o.m(f, g[j]); }
		Word r(d); for (int j = 0; j < NP; ++j) r.push_back((u16)w[d.size() + j]);
		return r;
	}
	// base codewords of a given data length: zero, arbitrary, all-ones, dense
	std::vector<Word> bases(int len, int cnt) const
	{
		std::vector<Word> r;
		for (int b = 0; b < cnt; ++b) {
			Word d(len); Fill f(b * 77 + len);
			for (int i = 0; i < len; ++i) d[i] = b == 0 ? 0 : b == 1 ? (u16)f(Q) : b == 2 ? (u16)(Q - 1) : (u16)(1 + f(Q - 1));
			r.push_back(oracle_encode(d));
		}
		return r;
	}
	std::string show(const u16 *w, int n) const { std::string s; for (int i = 0; i < n && i < 40; ++i) s += fmt(i ? " %d" : "%d", (int)w[i]); return s + (n > 40 ? " ..." : ""); }
};
template <int M_, int POLY, typename T, int NR_, int FCR_> struct RSC : RS {
	typedef CODE::GaloisField<M_, POLY, T> F;
	typedef CODE::ReedSolomonEncoder<NR_, FCR_, F> Enc;
	typedef CODE::ReedSolomonDecoder<NR_, FCR_, F> Dec;
	static const int G = 8;   // guard symbols on both sides
	F *field; Enc *enc; Dec *dec;
	std::vector<T> d, p, e, s;
	RSC() : RS(M_, POLY, NR_, FCR_, 8 * sizeof(T)), field(new F), enc(new Enc), dec(new Dec), d(N + 2 * G), p(NR + 2 * G), e(NR + 2), s(NR + 2) {}
	~RSC() { delete enc; delete dec; delete field; }
	void load(const u16 *w, int len)
	{
		for (int i = 0; i < G; ++i) d[i] = d[G + len + i] = (T)(i * 37 + 1), p[i] = p[G + NR + i] = (T)(i * 41 + 3);
		for (int i = 0; i < len; ++i) d[G + i] = (T)w[i];
		for (int i = 0; i < NR; ++i) p[G + i] = (T)w[len + i];
	}
	void store(int len)
	{
		for (int i = 0; i < len; ++i) D[i] = d[G + i];
		for (int i = 0; i < NR; ++i) P[i] = p[G + i];
		guards_ok = true;
		for (int i = 0; i < G; ++i)
			if (d[i] != (T)(i * 37 + 1) || d[G + len + i] != (T)(i * 37 + 1) || p[i] != (T)(i * 41 + 3) || p[G + NR + i] != (T)(i * 41 + 3)) guards_ok = false;
	}
	void encode(const u16 *w, int len) override
	{
		u16 x[1 << M_]; memcpy(x, w, 2 * len); for (int i = 0; i < NR; ++i) x[len + i] = (u16)((0x5A5A + i * 3) & N);   // stale parity
		load(x, len);
		if (len == K) (*enc)(d.data() + G, p.data() + G); else (*enc)(d.data() + G, p.data() + G, len);
		store(len);
	}
	int syndromes(const u16 *w, int len) override
	{
		load(w, len); for (auto &x : s) x = (T)1;
		int r = len == K ? dec->compute_syndromes(d.data() + G, p.data() + G, s.data() + 1) : dec->compute_syndromes(d.data() + G, p.data() + G, s.data() + 1, len);
		store(len);
		for (int i = 0; i < NR; ++i) S[i] = s[1 + i];
		if (s[0] != 1 || s[NR + 1] != 1) guards_ok = false;
		for (int i = 0; i < len; ++i) if (D[i] != w[i]) guards_ok = false;
		for (int i = 0; i < NR; ++i) if (P[i] != w[len + i]) guards_ok = false;
		return r;
	}
	int decode(const u16 *w, int len, const int *era, int f) override
	{
		load(w, len);
		for (int i = 0; i < f; ++i) e[i] = (T)era[i];
		int r = f == 0 && len == K ? (*dec)(d.data() + G, p.data() + G) : len == K ? (*dec)(d.data() + G, p.data() + G, e.data(), f) : (*dec)(d.data() + G, p.data() + G, f ? e.data() : (T *)0, f, len);
		store(len);
		return r;
	}
};

#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
namespace bch {
// cyclotomic cosets of the prescribed roots
constexpr bool first_of(int N, int FCR, int i) { for (int j = 0; j < i; ++j) { int a = (FCR + j) % N, b = a; do { if (b == (FCR + i) % N) return false; b = b * 2 % N; } while (b != a); } return true; }
constexpr int size_of(int N, int e) { int n = 0, b = e % N; do { ++n; b = b * 2 % N; } while (b != e % N); return n; }
constexpr int parity(int N, int NR, int FCR) { int n = 0; for (int i = 0; i < NR; ++i) if (first_of(N, FCR, i)) n += size_of(N, FCR + i); return n; }
constexpr int cosets(int N, int NR, int FCR) { int n = 0; for (int i = 0; i < NR; ++i) n += first_of(N, FCR, i); return n; }
inline std::vector<int> minpolys(const orc::Field &o, int NR, int FCR)
{
	std::vector<int> r;
	for (int i = 0; i < NR; ++i) if (first_of(o.N, FCR, i)) {
		std::vector<int> p(1, 1); int a = (FCR + i) % o.N, b = a;   // lowest coefficient first
		do { std::vector<int> q(p.size() + 1, 0); for (size_t j = 0; j < p.size(); ++j) { q[j + 1] ^= p[j]; q[j] ^= o.m(p[j], o.pw(b)); } p = q; b = b * 2 % o.N; } while (b != a);
		int m = 0; for (size_t j = 0; j < p.size(); ++j) { if (p[j] > 1) mc::fail(mc::current, "oracle: minimal polynomial not binary"); m |= p[j] << j; }
		r.push_back(m);
	}
	return r;
}
template <typename T, size_t... I> T *make(const std::vector<int> &v, std::index_sequence<I...>) { return new T({v[I]...}); }
}
template <int M_, int POLY, typename T, int NR_, int FCR_> struct BCHB : RS {
	static constexpr int NP_ = bch::parity((1 << M_) - 1, NR_, FCR_), K_ = (1 << M_) - 1 - NP_, NC_ = bch::cosets((1 << M_) - 1, NR_, FCR_);
	typedef CODE::GaloisField<M_, POLY, T> F;
	F *field; std::vector<int> mp;
	BCHB(int bits) : RS(M_, POLY, NR_, FCR_, bits, NP_, 2), field(new F), mp(bch::minpolys(o, NR_, FCR_))
	{
		g.assign(1, 1);
		for (int m : mp) {
			std::vector<int> h(g.size() + 0, 0); int deg = 31 - __builtin_clz(m);
			h.assign(g.size() + deg, 0);
			for (size_t i = 0; i < g.size(); ++i) for (int j = 0; j <= deg; ++j) if (m >> j & 1) h[i + deg - j] ^= g[i];
			g = h;
		}
	}
	~BCHB() { delete field; }
};
// bit packed, most significant bit first; bits outside the code carry a pattern that must survive decoding
template <int M_, int POLY, typename T, int NR_, int FCR_> struct BCHC : BCHB<M_, POLY, T, NR_, FCR_> {
	typedef BCHB<M_, POLY, T, NR_, FCR_> B; typedef typename B::F F;
	using B::N; using B::K; using B::NP; using B::NR; using RS::D; using RS::P; using RS::S; using RS::guards_ok;
	typedef CODE::BoseChaudhuriHocquenghemEncoder<(1 << M_) - 1, B::K_> Enc;
	typedef CODE::BoseChaudhuriHocquenghemDecoder<NR_, FCR_, B::K_, F> Dec;
	Enc *enc; Dec *dec; static const int G = 8;
	std::vector<u8> d, p, d0, p0; std::vector<T> e, s;
	BCHC() : B(8), enc(bch::make<Enc>(B::mp, std::make_index_sequence<B::NC_>())), dec(new Dec), d(N / 8 + 1 + 2 * G), p(NP / 8 + 1 + 2 * G), e(NR + 2), s(NR + 2) {}
	~BCHC() { delete enc; delete dec; }
	static int get(const std::vector<u8> &v, int i) { return v[G + i / 8] >> (7 - i % 8) & 1; }
	static void put(std::vector<u8> &v, int i, int b) { u8 m = 128 >> i % 8; v[G + i / 8] = (v[G + i / 8] & ~m) | (b ? m : 0); }
	void load(const u16 *w, int len)
	{
		for (size_t i = 0; i < d.size(); ++i) d[i] = (u8)(i * 37 + 0x95);
		for (size_t i = 0; i < p.size(); ++i) p[i] = (u8)(i * 41 + 0xA3);
		for (int i = 0; i < len; ++i) put(d, i, w[i]);
		for (int i = 0; i < NP; ++i) put(p, i, w[len + i]);
		d0 = d; p0 = p;
	}
	void store(int len, bool encoder = false)
	{
		for (int i = 0; i < len; ++i) D[i] = get(d, i);
		for (int i = 0; i < NP; ++i) P[i] = get(p, i);
		guards_ok = true;
		for (int i = 0; i < len; ++i) put(d, i, get(d0, i));
		for (int i = 0; i < NP; ++i) put(p, i, get(p0, i));
		if (encoder) for (int i = NP; i % 8; ++i) put(p, i, get(p0, i));   // the encoder owns its last parity byte
		if (d != d0 || p != p0) guards_ok = false;
	}
	void encode(const u16 *w, int len) override
	{
		u16 x[1 << M_]; memcpy(x, w, 2 * len); for (int i = 0; i < NP; ++i) x[len + i] = i % 3 == 1;
		load(x, len);
		if (len == K) (*enc)(d.data() + G, p.data() + G); else (*enc)(d.data() + G, p.data() + G, len);
		store(len, true);
	}
	int syndromes(const u16 *w, int len) override
	{
		load(w, len); for (auto &x : s) x = (T)1;
		int r = len == K ? dec->compute_syndromes(d.data() + G, p.data() + G, s.data() + 1) : dec->compute_syndromes(d.data() + G, p.data() + G, s.data() + 1, len);
		if (d != d0 || p != p0) { guards_ok = false; return r; }
		store(len);
		for (int i = 0; i < NR; ++i) S[i] = s[1 + i];
		if (s[0] != 1 || s[NR + 1] != 1) guards_ok = false;
		return r;
	}
	int decode(const u16 *w, int len, const int *era, int f) override
	{
		load(w, len);
		for (int i = 0; i < f; ++i) e[i] = (T)era[i];
		int r = f == 0 && len == K ? (*dec)(d.data() + G, p.data() + G) : len == K ? (*dec)(d.data() + G, p.data() + G, e.data(), f) : (*dec)(d.data() + G, p.data() + G, f ? e.data() : (T *)0, f, len);
		store(len);
		return r;
	}
};
template <int M_, int POLY, typename T, int NR_, int FCR_> struct BCHR : BCHB<M_, POLY, T, NR_, FCR_> {
	typedef BCHB<M_, POLY, T, NR_, FCR_> B; typedef typename B::F F;
	using B::N; using B::K; using B::NP; using B::NR; using RS::D; using RS::P; using RS::S; using RS::guards_ok;
	typedef CODE::BoseChaudhuriHocquenghemEncoderReference<NR_, FCR_, B::K_, F> Enc;
	typedef CODE::BoseChaudhuriHocquenghemDecoderReference<NR_, FCR_, B::K_, F> Dec;
	typedef typename F::ValueType V; typedef typename F::IndexType I;
	Enc *enc; Dec *dec; static const int G = 8;
	std::vector<V> d, p, s; std::vector<I> e;
	BCHR() : B(0), enc(bch::make<Enc>(B::mp, std::make_index_sequence<B::NC_>())), dec(new Dec), d(N + 2 * G), p(NP + 2 * G), s(NR + 2), e(NR + 2) {}
	~BCHR() { delete enc; delete dec; }
	void load(const u16 *w, int len)
	{
		for (int i = 0; i < G; ++i) d[i] = d[G + len + i] = V(i & 1), p[i] = p[G + NP + i] = V(~i & 1);
		for (int i = 0; i < len; ++i) d[G + i] = V((T)w[i]);
		for (int i = 0; i < NP; ++i) p[G + i] = V((T)w[len + i]);
	}
	void store(int len)
	{
		for (int i = 0; i < len; ++i) D[i] = (int)d[G + i];
		for (int i = 0; i < NP; ++i) P[i] = (int)p[G + i];
		guards_ok = true;
		for (int i = 0; i < G; ++i) if ((int)d[i] != (i & 1) || (int)d[G + len + i] != (i & 1) || (int)p[i] != (~i & 1) || (int)p[G + NP + i] != (~i & 1)) guards_ok = false;
	}
	void encode(const u16 *w, int len) override
	{
		u16 x[1 << M_]; memcpy(x, w, 2 * len); for (int i = 0; i < NP; ++i) x[len + i] = i % 3 == 1;
		load(x, len);
		if (len == K) (*enc)(d.data() + G, p.data() + G); else (*enc)(d.data() + G, p.data() + G, len);
		store(len);
	}
	int syndromes(const u16 *w, int len) override
	{
		load(w, len); for (auto &x : s) x = V(1);
		int r = len == K ? dec->compute_syndromes(d.data() + G, p.data() + G, s.data() + 1) : dec->compute_syndromes(d.data() + G, p.data() + G, s.data() + 1, len);
		store(len);
		for (int i = 0; i < NR; ++i) S[i] = (int)s[1 + i];
		return r;
	}
	int decode(const u16 *w, int len, const int *era, int f) override
	{
		load(w, len);
		for (int i = 0; i < f; ++i) e[i] = I((T)era[i]);
		int r = f == 0 && len == K ? (*dec)(d.data() + G, p.data() + G) : len == K ? (*dec)(d.data() + G, p.data() + G, e.data(), f) : (*dec)(d.data() + G, p.data() + G, f ? e.data() : (I *)0, f, len);
		store(len);
		return r;
	}
};
void encode_explore(RS &c); void decode_explore(RS &c); void honesty_explore(RS &c);
void explore(RS &c);
template <int M, int POLY, typename T, int NR, int... FCR> void fcrs()
{
	(job(fmt("RS GF(2^%d,%#x)/%d NR=%d FCR=%d", M, POLY, (int)sizeof(T) * 8, NR, FCR), [] { RS *c = new RSC<M, POLY, T, NR, FCR>; explore(*c); delete c; }), ...);
}
template <int M, int POLY, typename T, int NR, int FCR> void bchs(std::vector<std::pair<const char *, void (*)(RS &)>> fs, bool ref = true)
{
	for (auto f : fs) {
		job(fmt("BCH %sGF(2^%d,%#x)/%d NR=%d FCR=%d", f.first, M, POLY, (int)sizeof(T) * 8, NR, FCR), [=] { RS *c = new BCHC<M, POLY, T, NR, FCR>; f.second(*c); delete c; });
		if (ref) job(fmt("BCH reference %sGF(2^%d,%#x)/%d NR=%d FCR=%d", f.first, M, POLY, (int)sizeof(T) * 8, NR, FCR), [=] { RS *c = new BCHR<M, POLY, T, NR, FCR>; f.second(*c); delete c; });
	}
}
