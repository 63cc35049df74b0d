// C19: Cauchy prime field erasure coding with its escape value.
#include "mc.hh"
#include "prime_field.hh"
#include "cauchy_prime_field_erasure_coding.hh"
using namespace mc;

struct Cpf {
	int P, MAX, es, top;   // top: largest value an IO symbol of data may hold
	std::vector<int> invt;
	Cpf(int P, int MAX, int es) : P(P), MAX(MAX), es(es), top(std::min(P - 1, (1 << 8 * es) - 1)), invt(std::min(P, 1 << 17)) { for (int i = 1; i < P; ++i) invt[i] = (int)pw(i, P - 2); }
	virtual ~Cpf() {}
	u64 pw(u64 a, u64 m) const { u64 r = 1; for (; m; m >>= 1, a = a * a % P) if (m & 1) r = r * a % P; return r; }
	virtual int enc(const u16 *d, u16 *b, int id, int len, int cnt) = 0;                     // returns sub; checks guards
	virtual void dec(u16 *d, const u16 *b, const int *subs, const int *ids, int idx, int len, int cnt) = 0;
	std::string name() const { return fmt("P=%d %d-byte", P, es); }
	std::vector<u16> blocks, out; std::vector<int> subs; u64 escapes = 0;
	void run(const std::vector<u16> &data, int len, int cnt, const int *ids)
	{
		blocks.assign((size_t)len * cnt, 0); out.assign(len, 0); subs.assign(cnt, 0);
		++states;
		for (int n = 0; n < cnt; ++n) {
			u16 *b = &blocks[(size_t)n * len];
			int s = subs[n] = enc(data.data(), b, ids[n], len, cnt); ++transitions;
			MC_CHECK(s >= 0 && s <= std::min(P - 2, (1 << 8 * es) - 1), "%s id=%d: substitute %d", name().c_str(), ids[n], s);
			for (int i = 0; i < len; ++i) {
				u64 w = 0; for (int k = 0; k < cnt; ++k) w += (u64)data[(size_t)k * len + i] * invt[(ids[n] + k) % P] % P; w %= P;
				if ((int)w == P - 1) { ++escapes; MC_CHECK(b[i] == s, "%s len=%d cnt=%d id=%d data %s: symbol %d should be the substitute %d but is %d", name().c_str(), len, cnt, ids[n], str(data, 24).c_str(), i, s, b[i]); }
				else { MC_CHECK((int)w != s, "%s len=%d cnt=%d id=%d data %s: substitute %d is also symbol %d", name().c_str(), len, cnt, ids[n], str(data, 24).c_str(), s, i);
					MC_CHECK(b[i] == w, "%s len=%d cnt=%d id=%d data %s: symbol %d is %d want %d", name().c_str(), len, cnt, ids[n], str(data, 24).c_str(), i, b[i], (int)w); }
			}
		}
		for (int q = 0; q < cnt; ++q) {
			int k = (q * 3 + 1) % cnt; if (cnt % 3 == 0) k = cnt - 1 - q;
			dec(out.data(), blocks.data(), subs.data(), ids, k, len, cnt); ++transitions;
			for (int i = 0; i < len; ++i) MC_CHECK(out[i] == data[(size_t)k * len + i], "%s len=%d cnt=%d ids=%s data %s: decoded block %d symbol %d is %d want %d", name().c_str(), len, cnt, str(ids, cnt).c_str(), str(data, 24).c_str(), k, i, out[i], (int)data[(size_t)k * len + i]);
		}
		++traces;
	}
	void arrangements(int cnt, const std::function<void(const int *)> &f) { std::vector<int> ids(cnt); std::function<void(int)> rec = [&](int p) { if (p == cnt) { f(ids.data()); return; } for (int v = cnt; v < P / 2; ++v) if (std::find(ids.begin(), ids.begin() + p, v) == ids.begin() + p) { ids[p] = v; rec(p + 1); } }; rec(0); }
	void all(int cnt, int len, int alpha = 0)   // all arrangements x all data (alpha: restricted alphabet)
	{
		std::vector<int> al; if (!alpha) for (int i = 0; i <= top; ++i) al.push_back(i); else { al = {0, 1, P - 2, P - 1, P / 2, 2, P - 3}; al.resize(alpha); }
		arrangements(cnt, [&](const int *ids) { tuples(cnt * len, (int)al.size(), [&](const int *t) { std::vector<u16> d(cnt * len); for (int i = 0; i < cnt * len; ++i) d[i] = al[t[i]]; run(d, len, cnt, ids); }); });
		MC_SAMPLE("%s cnt=%d len=%d escapes %llu", name().c_str(), cnt, len, (unsigned long long)escapes);
	}
	// aim: choose data so that the blocks of the given id take prescribed values where that is possible
	bool aim(std::vector<u16> &d, int len, int cnt, int id, const std::vector<int> &target)
	{
		bool ok = true;
		for (int i = 0; i < len; ++i) {
			u64 rest = 0; for (int k = 1; k < cnt; ++k) rest += (u64)d[(size_t)k * len + i] * invt[(id + k) % P] % P;
			u64 v = ((u64)target[i] + (u64)P - rest % P) % P * (id % P) % P;
			if ((int)v > top) ok = false, v = top;
			d[i] = (u16)v;
		}
		return ok;
	}
	std::vector<int> idlist(int cnt, int s) { int T = P / 2 - cnt; std::vector<int> v(cnt); for (int i = 0; i < cnt; ++i) v[i] = s == 0 ? cnt + i : s == 1 ? P / 2 - 1 - i : s == 2 ? (i & 1 ? P / 2 - 1 - i / 2 : cnt + i / 2) : cnt + (int)((u64)i * std::max(1, T / cnt) % T); if (std::set<int>(v.begin(), v.end()).size() < (size_t)cnt) v.clear(); return v; }
	void large(std::vector<int> cnts, std::vector<int> lens, int ids_kinds = 4)
	{
		for (int cnt : cnts) for (int len : lens) for (int s = 0; s < ids_kinds; ++s) {
			auto ids = idlist(cnt, s); if (ids.empty()) continue;
			for (int kind = 0; kind < 9; ++kind) {
				Fill f(kind + cnt * 31 + len); std::vector<u16> d((size_t)cnt * len);
				for (auto &x : d) x = kind == 0 ? 0 : kind == 1 ? top : kind == 2 ? 1 : (u16)f(top + 1);
				if (kind >= 4) {   // steer the first block onto the escape value / the whole range
					std::vector<int> t(len);
					for (int i = 0; i < len; ++i) t[i] = kind == 4 ? P - 1 : kind == 5 ? (i == len - 1 ? P - 1 : i) : kind == 6 ? (i & 1 ? P - 1 : i / 2) : kind == 7 ? (len - 1 - i ? P - 1 - i % P + P : P - 1) % P : (i ? i - 1 : P - 1);
					aim(d, len, cnt, ids[0], t);
				}
				run(d, len, cnt, ids.data());
			}
		}
		MC_SAMPLE("%s escapes %llu", name().c_str(), (unsigned long long)escapes);
		MC_CHECK(escapes > 0, "machinery: no escape reached");
	}
	void single()   // one block: every identifier, every block content "all values but one", forwards
	{
		int len = std::min(MAX, P - 2);
		for (int id = 1; id < P / 2; id += std::max(1, P / 600)) for (int miss = 0; miss < P; miss += std::max(1, P / 90)) {
			// encoded values: 0..P-1 without miss and one more, truncated to len symbols
			std::vector<u16> d; for (int v = P - 1; v >= 0 && (int)d.size() < len; --v) { if (v == miss) continue; u64 x = (u64)v * id % P; if ((int)x <= top) d.push_back((u16)x); }
			run(d, (int)d.size(), 1, &id);
			if (P > 1000) continue;
			std::reverse(d.begin(), d.end()); run(d, (int)d.size(), 1, &id);
		}
	}
	void pairs(int step) { for (int a = 2; a < P / 2; a += step) for (int b = 2; b < P / 2; b += step) if (a != b) { int ids[2] = {a, b}; Fill f(a * 1000 + b); std::vector<u16> d(8); for (auto &x : d) x = f(top + 1); std::vector<int> t = {P - 1, 0, P - 1, P - 2}; aim(d, 4, 2, a, t); run(d, 4, 2, ids); } }
};
template <typename T, T P_, typename IO, int MAXL> struct CpfI : Cpf {
	typedef CODE::PrimeField<T, P_> PF; typedef CODE::CauchyPrimeFieldErasureCoding<PF, IO, MAXL> C;
	C *c; std::vector<IO> a, b, s, r; std::vector<IO> a2, b2;
	CpfI() : Cpf((int)P_, MAXL, sizeof(IO)), c(new C) {}
	~CpfI() { delete c; }
	int enc(const u16 *d, u16 *o, int id, int len, int cnt) override
	{
		a.assign(d, d + (size_t)len * cnt); a2 = a; b.assign(len + 16, (IO)0x55);
		int r = c->encode(a.data(), b.data() + 8, id, len, cnt);
		MC_CHECK(a == a2, "encode modified the data");
		for (int i = 0; i < 8; ++i) MC_CHECK(b[i] == 0x55 && b[8 + len + i] == 0x55, "encode wrote outside the block");
		for (int i = 0; i < len; ++i) o[i] = b[8 + i];
		return r;
	}
	void dec(u16 *d, const u16 *bl, const int *subs, const int *ids, int idx, int len, int cnt) override
	{
		a.assign(bl, bl + (size_t)len * cnt); a2 = a; s.assign(subs, subs + cnt); r.assign(ids, ids + cnt); b.assign(len + 16, (IO)0x55);
		auto s2 = s, r2 = r;
		c->decode(b.data() + 8, a.data(), s.data(), r.data(), idx, len, cnt);
		MC_CHECK(a == a2 && s == s2 && r == r2, "decode modified its input");
		for (int i = 0; i < 8; ++i) MC_CHECK(b[i] == 0x55 && b[8 + len + i] == 0x55, "decode wrote outside the block");
		for (int i = 0; i < len; ++i) d[i] = b[8 + i];
	}
};
template <typename T, T P, typename IO, int MAXL> void j(const std::string &n, std::function<void(Cpf &)> f) { job(fmt("P=%d u%d IO u%d MAX=%d %s", (int)P, (int)sizeof(T) * 8, (int)sizeof(IO) * 8, MAXL, n.c_str()), [=] { Cpf *c = new CpfI<T, P, IO, MAXL>; f(*c); delete c; }); }
void mc_register()
{
#if PART == 0
	j<u32, 5, u8, 3>("all cnt=1", [](Cpf &c) { for (int l = 1; l <= 3; ++l) c.all(1, l); });
	j<u32, 7, u8, 5>("all cnt=1", [](Cpf &c) { for (int l = 1; l <= 5; ++l) c.all(1, l); });
	j<u32, 11, u8, 9>("all cnt=1", [](Cpf &c) { for (int l = 1; l <= 4; ++l) c.all(1, l); }); j<u32, 11, u8, 9>("all cnt=2", [](Cpf &c) { c.all(2, 1); c.all(2, 2); }); j<u32, 11, u8, 9>("large", [](Cpf &c) { c.large({1, 2}, {1, 2, 5, 8, 9}); c.single(); });
	j<u32, 13, u8, 11>("all cnt=2", [](Cpf &c) { c.all(2, 1); c.all(2, 2); }); j<u32, 13, u8, 11>("all cnt=3", [](Cpf &c) { c.all(3, 1); c.all(3, 2, 7); });
	j<u64, 17, u8, 15>("all cnt=4", [](Cpf &c) { c.all(4, 1, 7); c.all(4, 1, 7); }); j<u64, 17, u16, 15>("all cnt=2", [](Cpf &c) { c.all(2, 1); c.all(2, 2, 5); });
	j<u32, 23, u8, 21>("all cnt=5", [](Cpf &c) { c.all(5, 1, 5); }); j<u32, 23, u8, 21>("all cnt=3", [](Cpf &c) { c.all(3, 1, 7); }); j<u32, 23, u8, 21>("large", [](Cpf &c) { c.large({1, 2, 3, 4, 5}, {1, 2, 20, 21}); c.single(); });
	j<u32, 31, u8, 29>("large", [](Cpf &c) { c.large({1, 2, 3, 7}, {1, 2, 28, 29}); c.single(); }); j<u32, 101, u8, 99>("large", [](Cpf &c) { c.large({1, 2, 3, 4, 5, 6, 24, 25}, {1, 2, 98, 99}); c.single(); });
#elif PART == 1
	j<u32, 257, u8, 255>("large", [](Cpf &c) { c.large({1, 2, 3, 4, 5, 6, 7, 8, 16, 63, 64}, {1, 2, 3, 254, 255}); });
	j<u32, 257, u8, 255>("single", [](Cpf &c) { c.single(); }); j<u32, 257, u8, 255>("pairs", [](Cpf &c) { c.pairs(1); });
	j<u32, 257, u8, 255>("short arrangements", [](Cpf &c) { for (int a = 3; a < 128; a += 5) for (int b = 3; b < 128; b += 3) for (int e = 3; e < 128; e += 7) if (a != b && b != e && a != e) { int ids[3] = {a, b, e}; std::vector<u16> d = {255, 0, 254, 3, 128, 255}; std::vector<int> t = {256, 256}; c.aim(d, 2, 3, b, t); c.run(d, 2, 3, ids); } });
	j<u32, 257, u8, 16>("every data pair", [](Cpf &c) { for (int x = 0; x < 256; ++x) for (int y = 0; y < 256; ++y) { int ids[2] = {2 + x % 100, 110 + y % 18}; c.run({(u16)x, (u16)y}, 1, 2, ids); int id2[2] = {127, 2}; c.run({(u16)x, (u16)y}, 1, 2, id2); } });
	j<u64, 65537, u16, 1024>("large", [](Cpf &c) { c.large({1, 2, 3, 4, 5, 16, 64}, {1, 2, 33}); c.large({1, 2, 7}, {1024}); c.large({256}, {3}, 3); });
	j<u64, 65537, u16, 65535>("full range", [](Cpf &c) { c.large({1, 2}, {65535}, 2); }); j<u64, 65537, u16, 65535>("single", [](Cpf &c) { for (int id : {1, 2, 3, 255, 16384, 32767}) for (int miss : {0, 1, 2, 32768, 65534, 65535, 65536}) { std::vector<u16> d; for (int v = 65536; v >= 0 && d.size() < 65535; --v) { if (v == miss) continue; u64 x = (u64)v * id % 65537; if (x <= 65535) d.push_back((u16)x); } c.run(d, (int)d.size(), 1, &id); } });
	j<u64, 65537, u16, 64>("pairs", [](Cpf &c) { c.pairs(331); });
#endif
}
