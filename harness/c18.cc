// C18: Cauchy Reed-Solomon erasure coding: encoding is the Cauchy matrix product, any cnt blocks decode.
#include "fields.hh"
#include "galois_field.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
using namespace mc;

struct Crs {
	int M, Q, es; orc::Field o; u8 *arena; size_t asz;
	Crs(int M, int poly, int es) : M(M), Q(1 << M), es(es), o(M, poly) { asz = 1 << 23; arena = (u8 *)aligned_alloc(4096, asz); }
	virtual ~Crs() { free(arena); }
	virtual void enc(const void *d, void *b, int id, int len, int cnt, int ovl) = 0;
	virtual void dec(void *d, const void *b, const int *ids, int idx, int len, int cnt, int ovl) = 0;
	std::string name() const { return fmt("GF(2^%d,%#x) %d-byte symbols", M, (int)o.poly, es); }
	void put(u8 *p, int i, int v) { if (es == 1) p[i] = v; else memcpy(p + 2 * i, &v, 2); }
	int get(const u8 *p, int i) const { u16 v = p[i * es]; if (es == 2) memcpy(&v, p + 2 * i, 2); return v; }
	int coef(int id, int k) const { return o.inv(id ^ k); }
	static const int G = 64;
	// one complete history: encode the given blocks, decode every data block; offsets are byte offsets from maximal alignment
	std::vector<u8> copy;
	void run(const std::vector<int> &data, int len, int cnt, const int *ids, int od, int ob, int ovl, bool check_enc = true)
	{
		size_t per = (size_t)len * cnt * es;
		auto round = [](size_t x) { return (x + 127) & ~(size_t)63; };
		u8 *D = arena + G + od, *B = arena + round(G + per + 128) + 64 + ob, *R = arena + round((B - arena) + per + 128) + 64 + od;
		u8 *end = R + per + G;
		if (end > arena + asz) abort();
		memset(arena, 0x5a, end - arena);
		for (size_t i = 0; i < data.size(); ++i) put(D, (int)i, data[i]);
		copy.assign(arena, end);
		for (int n = 0; n < cnt; ++n) { enc(D, B + (size_t)n * len * es, ids[n], len, cnt, ovl); ++transitions; }
		++states;
		u8 *C = copy.data() + (B - arena);
		if (check_enc) {
			for (int n = 0; n < cnt; ++n) for (int i = 0; i < len; ++i) { int w = 0; for (int k = 0; k < cnt; ++k) w ^= o.m(coef(ids[n], k), data[(size_t)k * len + i]); put(C, n * len + i, w); }
			if (memcmp(arena, copy.data(), copy.size())) diff("encode", D, B, R, per, len, cnt, ids, od, ob, ovl, data);
		} else {
			memcpy(C, B, per);
			if (memcmp(arena, copy.data(), copy.size())) diff("encode (outside the block)", D, B, R, per, len, cnt, ids, od, ob, ovl, data);
		}
		for (int k = 0; k < cnt; ++k) { int q = (k * 5 + 2) % cnt; if (cnt % 5 == 0) q = cnt - 1 - k; dec(R + (size_t)q * len * es, B, ids, q, len, cnt, ovl); ++transitions; }
		memcpy(copy.data() + (R - arena), copy.data() + (D - arena), per);
		if (memcmp(arena, copy.data(), copy.size())) diff("decode", D, B, R, per, len, cnt, ids, od, ob, ovl, data);
		++traces;
	}
	void diff(const char *what, u8 *D, u8 *B, u8 *R, size_t per, int len, int cnt, const int *ids, int od, int ob, int ovl, const std::vector<int> &data)
	{
		size_t i = 0; while (arena[i] == copy[i]) ++i;
		u8 *p = arena + i; const char *where = "outside every buffer"; long sym = -1;
		if (p >= D && p < D + per) where = "in the data", sym = (p - D) / es;
		else if (p >= B && p < B + per) where = "in the blocks", sym = (p - B) / es;
		else if (p >= R && p < R + per) where = "in the decoded data", sym = (p - R) / es;
		fail(current, fmt("%s %s len=%d cnt=%d ids=%s data offset %d block offset %d overload %d: byte %#x want %#x %s (symbol %ld); data %s", name().c_str(), what, len, cnt, str(ids, cnt).c_str(), od, ob, ovl, arena[i], copy[i], where, sym, str(data, 24).c_str()));
	}
	std::vector<int> base(int n, int seed) { Fill f(seed); std::vector<int> d(n); for (auto &x : d) x = (int)f(Q); return d; }
	// every arrangement of identifiers
	void arrangements(int cnt, int len, int datas, u64 limit = ~0ull)
	{
		std::vector<int> ids(cnt); u64 n = 0;
		std::vector<std::vector<int>> ds; for (int i = 0; i < datas; ++i) ds.push_back(base(cnt * len, i + 1)); if (datas > 1) ds[1].assign(cnt * len, Q - 1);
		std::function<void(int)> rec = [&](int p) {
			if (n >= limit) return;
			if (p == cnt) { ++n; for (auto &d : ds) run(d, len, cnt, ids.data(), 0, 0, 0); return; }
			for (int v = cnt; v < Q; ++v) if (std::find(ids.begin(), ids.begin() + p, v) == ids.begin() + p) { ids[p] = v; rec(p + 1); }
		};
		rec(0);
	}
	void all_data(int cnt, int len)
	{
		std::vector<int> d(cnt * len), ids(cnt);
		for (int s = 0; s < 3; ++s) { for (int i = 0; i < cnt; ++i) ids[i] = s == 0 ? cnt + i : s == 1 ? Q - 1 - i : cnt + (i * 7 + 3) % (Q - cnt); if (s == 2 && std::set<int>(ids.begin(), ids.end()).size() < (size_t)cnt) continue;
			tuples(cnt * len, Q, [&](const int *t) { d.assign(t, t + cnt * len); run(d, len, cnt, ids.data(), 0, 0, 0); }); }
	}
	std::vector<std::vector<int>> idsets(int cnt)
	{
		std::vector<std::vector<int>> r; int T = Q - cnt;
		for (int s = 0; s < 6; ++s) {
			std::vector<int> v(cnt);
			for (int i = 0; i < cnt; ++i) v[i] = s == 0 ? cnt + i : s == 1 ? Q - 1 - i : s == 2 ? cnt + (i * 2) % T : s == 3 ? Q - cnt + i : s == 4 ? (i & 1 ? Q - 1 - i / 2 : cnt + i / 2) : cnt + (int)((i * (u64)(T / std::max(1, cnt)) + 1) % T);
			if (std::set<int>(v.begin(), v.end()).size() == (size_t)cnt) r.push_back(v);
		}
		return r;
	}
	void large(std::vector<int> cnts, int len) { for (int cnt : cnts) for (auto &v : idsets(cnt)) for (int s = 0; s < 2; ++s) { auto d = base(cnt * len, s + 1); if (s) std::fill(d.begin(), d.end(), Q - 1); run(d, len, cnt, v.data(), 0, 0, s, true); } }
	// every length around the vector sizes, every offset pair, three overloads
	void geometry(int lo, int hi)
	{
		for (int len = lo; len <= hi; ++len) for (int od : {0, 1, 2, 8, 15, 16, 24, 32, 48}) for (int ob : {0, 1, 4, 16, 17, 31, 32}) {
			if (es == 2 && (od % 2 || ob % 2)) continue;
			int cnt = 1 + len % 3; int ids[3] = {cnt + (len * 11) % (Q - cnt - 4), 0, 0}; ids[1] = ids[0] + 1; ids[2] = Q - 1;
			run(base(cnt * len, len), len, cnt, ids, od, ob, (len + od / 8 + ob) % 3);
		}
	}
	// blocks longer than 2^16 symbols
	void longblocks(std::vector<int> lens)
	{
		int n = 0;
		for (int len : lens) for (int cnt : {1, 3}) for (int ovl = 0; ovl < 3; ++ovl) { int ids[3] = {cnt + (len * 11) % (Q - cnt - 4), 0, Q - 1}; ids[1] = ids[0] + 1; run(base(cnt * len, len), len, cnt, ids, n % 3 == 1 ? 16 : 0, n % 4 == 3 ? 8 : 0, ovl); ++n; }
	}
	// the complete multiplication tables of the vector path: every symbol value times the coefficients of many identifiers
	void products(int from, int to, int step)
	{
		std::vector<int> d(Q); for (int i = 0; i < Q; ++i) d[i] = i;
		for (int id = from; id < to; id += step) { run(d, Q, 1, &id, 0, 0, 1); }
	}
	void products2(std::vector<int> idv)   // second block accumulates on the first
	{
		std::vector<int> d(2 * Q); for (int i = 0; i < Q; ++i) d[i] = i, d[Q + i] = (i * 5 + 1) % Q;
		for (int id : idv) { int ids[2] = {id, id == Q - 1 ? 2 : Q - 1}; run(d, Q, 2, ids, 0, 0, 1); run(d, Q, 2, ids, es, 0, 2); }
	}
};
template <int M_, int P_, typename T> struct CrsI : Crs {
	typedef CODE::GaloisField<M_, P_, T> GF; typedef CODE::CauchyReedSolomonErasureCoding<GF> C; typedef typename GF::ValueType V;
	GF *gf; C *c; std::vector<T> ids_;
	CrsI() : Crs(M_, P_, sizeof(T)), gf(new GF), c(new C) {}
	~CrsI() { delete c; delete gf; }
	void enc(const void *d, void *b, int id, int len, int cnt, int ovl) override
	{
		if (ovl == 0) c->encode((const T *)d, (T *)b, id, len, cnt); else if (ovl == 1) c->encode(d, b, id, len * (int)sizeof(T), cnt); else c->encode((const V *)d, (V *)b, id, len, cnt);
	}
	void dec(void *d, const void *b, const int *ids, int idx, int len, int cnt, int ovl) override
	{
		ids_.assign(cnt, 0); for (int i = 0; i < cnt; ++i) ids_[i] = (T)ids[i];
		if (ovl == 0) c->decode((T *)d, (const T *)b, ids_.data(), idx, len, cnt); else if (ovl == 1) c->decode(d, b, ids_.data(), idx, len * (int)sizeof(T), cnt); else c->decode((V *)d, (const V *)b, (const V *)ids_.data(), idx, len, cnt);
		for (int i = 0; i < cnt; ++i) MC_CHECK(ids_[i] == ids[i], "identifiers modified");
	}
};
template <int M, int P, typename T> void j(const std::string &n, std::function<void(Crs &)> f) { job(fmt("GF(2^%d,%#x) u%d %s", M, P, (int)sizeof(T) * 8, n.c_str()), [=] { Crs *c = new CrsI<M, P, T>; f(*c); delete c; }); }
template <int M, int P, typename T> void arr(int cnt, int len, int datas) { j<M, P, T>(fmt("arrangements cnt=%d len=%d", cnt, len), [=](Crs &c) { c.arrangements(cnt, len, datas); }); }
template <int M, int P, typename T> void all(int cnt, int len) { j<M, P, T>(fmt("all data cnt=%d len=%d", cnt, len), [=](Crs &c) { c.all_data(cnt, len); }); }
void mc_register()
{
#if PART == 0
	all<2, 7, u8>(1, 1); all<2, 7, u8>(2, 2); all<2, 7, u8>(2, 3); arr<2, 7, u8>(2, 5, 3); all<3, 11, u8>(1, 3); all<3, 11, u8>(2, 2); all<3, 13, u8>(4, 1); arr<3, 11, u8>(1, 4, 3); arr<3, 11, u8>(2, 4, 3); arr<3, 13, u8>(3, 3, 3); arr<3, 11, u8>(4, 3, 3); arr<3, 11, u16>(4, 3, 3);
	arr<4, 19, u8>(1, 3, 3); arr<4, 19, u8>(2, 3, 3); arr<4, 25, u8>(3, 2, 3); arr<4, 19, u8>(4, 2, 3); arr<4, 19, u8>(5, 1, 2); arr<4, 19, u8>(8, 1, 2); arr<4, 25, u16>(8, 2, 1); all<4, 19, u8>(2, 1); all<4, 19, u8>(4, 1);
	arr<5, 37, u8>(2, 2, 3); arr<5, 61, u8>(3, 1, 3); arr<6, 67, u8>(2, 2, 3); arr<6, 91, u8>(3, 1, 1); arr<7, 137, u8>(2, 2, 3);
	j<5, 37, u8>("large", [](Crs &c) { c.large({4, 5, 8, 13, 16}, 4); }); j<6, 67, u8>("large", [](Crs &c) { c.large({4, 8, 31, 32}, 4); }); j<7, 131, u16>("large", [](Crs &c) { c.large({4, 8, 31, 32, 63, 64}, 4); });
#elif PART == 1
	arr<8, 285, u8>(1, 32, 2); arr<8, 285, u8>(2, 1, 1); arr<8, 391, u8>(2, 32, 1);
	j<8, 285, u8>("large", [](Crs &c) { c.large({3, 4, 5, 16, 17, 32, 63, 100, 127, 128}, 32); }); j<8, 299, u8>("large", [](Crs &c) { c.large({3, 64, 128}, 5); }); j<8, 501, u16>("large", [](Crs &c) { c.large({3, 64, 128}, 16); });
	for (int g = 0; g < 4; ++g) j<8, 285, u8>(fmt("geometry %d", g), [=](Crs &c) { c.geometry(1 + g * 35, 35 + g * 35); });
	j<8, 361, u8>("geometry", [=](Crs &c) { c.geometry(250, 261); });
	j<8, 285, u8>("products", [](Crs &c) { c.products(1, 256, 1); }); j<8, 361, u8>("products", [](Crs &c) { c.products(1, 256, 1); });
	j<8, 285, u8>("products accumulate", [](Crs &c) { std::vector<int> v; for (int i = 2; i < 256; ++i) v.push_back(i); c.products2(v); });
	for (int g = 0; g < 2; ++g) j<8, 285, u8>(fmt("triples %d", g), [=](Crs &c) { auto d = c.base(3, 9); for (int a = 3 + g; a < 256; a += 2) for (int b = 3; b < 256; b += 5) for (int e = 3; e < 256; e += 7) if (a != b && b != e && a != e) { int ids[3] = {a, b, e}; c.run(d, 1, 3, ids, 0, 0, 0); } });
	j<8, 285, u8>("long blocks", [](Crs &c) { c.longblocks({4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 66001, 131073}); });
	j<8, 285, u16>("products", [](Crs &c) { c.products(1, 256, 1); });
#elif PART == 2
	for (int g = 0; g < 3; ++g) j<16, 69643, u16>(fmt("geometry %d", g), [=](Crs &c) { c.geometry(1 + g * 35, 35 + g * 35); });
	j<16, 65581, u16>("geometry", [=](Crs &c) { c.geometry(125, 131); });
	j<16, 69643, u16>("large", [](Crs &c) { c.large({1, 2, 3, 5, 16, 33, 100, 256}, 32); });
	j<16, 65581, u16>("large", [](Crs &c) { c.large({1, 2, 3, 5, 16, 33, 64}, 3); });
	for (int g = 0; g < 4; ++g) j<16, 69643, u16>(fmt("products %d", g), [=](Crs &c) { for (int b = g * 4; b < g * 4 + 4; ++b) { int id = c.o.inv(1 << b); c.products(id, id + 1, 1); id = c.o.inv(0xffff >> b); c.products(id, id + 1, 1); id = c.o.inv((1 << b) | 1); if (b) c.products(id, id + 1, 1); } });
	j<16, 69643, u16>("products boundary", [](Crs &c) { for (int id : {1, 2, 255, 256, 257, 4096, 32767, 32768, 65534, 65535}) c.products(id, id + 1, 1); });
	j<16, 66157, u16>("products accumulate", [](Crs &c) { c.products2({2, 3, 16, 256, 4097, 40000, 65535}); });
	j<16, 69643, u16>("long blocks", [](Crs &c) { c.longblocks({4096, 32767, 32769, 65535, 65537, 66001}); }); j<16, 69643, u16>("many blocks", [](Crs &c) { for (int cnt : {257, 1000}) { auto v = c.idsets(cnt); auto d = c.base(cnt, 5); c.run(d, 1, cnt, v[1].data(), 0, 0, 0); c.run(d, 1, cnt, v[4].data(), 0, 0, 2); } });
	j<12, 4179, u16>("large", [](Crs &c) { c.large({1, 2, 3, 16, 64, 200}, 32); }); j<12, 4179, u16>("geometry", [](Crs &c) { c.geometry(1, 40); }); j<10, 1033, u16>("arrangements", [](Crs &c) { for (int a = 2; a < 1024; a += 13) for (int b = 2; b < 1024; b += 11) if (a != b) { int ids[2] = {a, b}; c.run(c.base(4, a), 2, 2, ids, 0, 0, 2); } });
#endif
}
