#include "mc.hh"
#include "crc.hh"
using namespace mc;
// oracle: long division on an explicit bit list, reflected convention (least significant bit first)
template <typename T> T oracle(T poly, T init, const std::vector<bool> &bits)
{
	// register bit 0 is the highest power; shift towards bit 0
	const int W = sizeof(T) * 8;
	bool reg[W];
	for (int i = 0; i < W; ++i) reg[i] = init >> i & 1;
	for (bool b : bits) {
		bool f = reg[0] ^ b;
		for (int i = 0; i + 1 < W; ++i) reg[i] = reg[i + 1];
		reg[W - 1] = 0;
		if (f) for (int i = 0; i < W; ++i) reg[i] = reg[i] ^ (poly >> i & 1);
	}
	T r = 0;
	for (int i = 0; i < W; ++i) r |= (T)reg[i] << i;
	return r;
}
template <typename T> T step(T poly, T reg, u64 data, int nbits)
{
	for (int i = 0; i < nbits; ++i) { bool f = (reg ^ (data >> i)) & 1; reg = (T)(reg >> 1); if (f) reg ^= poly; }
	return reg;
}
template <typename T> std::vector<T> polys()
{
	std::vector<T> p;
	u64 c[] = {0xA6, 0xD5, 0x8C, 0xE0, 0x8408, 0xA8F4, 0xA001, 0xC867, 0xD419CC15, 0x8F6E37A0, 0xEDB88320, 0x82F63B78,
		0xD800000000000000ull, 0xC96C5795D7870F42ull, 0x9A6C9329AC4BC9B5ull, 1, 2, 3, 0x80, 0x81, 0xFF, 0x8000, 0x8001, 0xFFFF, 0x80000000, 0xFFFFFFFF, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFFFull, 0x0123456789ABCDEFull, 0};
	std::set<T> s; for (u64 x : c) s.insert((T)x);
	return std::vector<T>(s.begin(), s.end());
}
template <typename T> std::vector<T> inits()
{
	std::set<T> s; u64 c[] = {0, 1, 0xFF, 0x80, (u64)(T)-1, (u64)1 << (sizeof(T) * 8 - 1), 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull};
	for (u64 x : c) s.insert((T)x);
	return std::vector<T>(s.begin(), s.end());
}
#define CQ(EXPR, WANT, ...) do { u64 g_ = opaque((u64)(EXPR)), w_ = (u64)(WANT); ++transitions; if (__builtin_expect(g_ != w_, 0)) mc::fail(mc::current, fmt("CRC%d poly=%#llx ", (int)sizeof(T) * 8, (unsigned long long)poly) + fmt(__VA_ARGS__) + fmt(": got %#llx want %#llx", (unsigned long long)g_, (unsigned long long)w_)); } while (0)

// every register state x every byte / bit: the complete one-step transition relation (8 and 16 bit registers)
template <typename T> void relation(T poly)
{
	CODE::CRC<T> c(poly);
	const int W = sizeof(T) * 8;
	auto at = [&](T reg) {
		for (int d = 0; d < 256; ++d) { ++states; c.reset(reg); T w = step<T>(poly, reg, d, 8); CQ(c((uint8_t)d), w, "reg=%#llx byte=%#x", (unsigned long long)reg, d); CQ(c(), w, "read back reg=%#llx byte %#x", (unsigned long long)reg, d); }
		for (int d = 0; d < 2; ++d) { ++states; c.reset(reg); CQ(c((bool)d), step<T>(poly, reg, d, 1), "reg=%#llx bit=%d", (unsigned long long)reg, d); }
	};
	if (W == 8 || (W == 16)) for (u64 r = 0; r < (1ull << (W & 31)); ++r) at((T)r);
	else {
		std::set<T> s;
		for (int i = 0; i < W; ++i) { s.insert((T)((T)1 << i)); s.insert((T)~((T)1 << i)); s.insert((T)(((T)1 << i) - 1)); for (int j = 0; j < i; ++j) s.insert((T)(((T)1 << i) | ((T)1 << j))); }
		for (int b = 0; b < 256; ++b) for (int k = 0; k < (int)sizeof(T); ++k) { s.insert((T)((u64)b << (8 * k))); s.insert((T)(~((u64)b << (8 * k)))); }
		for (T r : s) at(r);
	}
	++traces;
}
// every word width from every start value
template <typename T> void words(T poly)
{
	std::vector<u64> ws;
	for (int i = 0; i < 64; ++i) { ws.push_back(1ull << i); ws.push_back(~(1ull << i)); ws.push_back((1ull << i) - 1); for (int j = 0; j < i; ++j) ws.push_back((1ull << i) | (1ull << j)); }
	for (int b = 0; b < 256; ++b) for (int k = 0; k < 8; ++k) ws.push_back((u64)b << (8 * k));
	ws.push_back(0x0123456789ABCDEFull); ws.push_back(0xFEDCBA9876543210ull); ws.push_back(0xA5A5A5A55A5A5A5Aull);
	for (T init : inits<T>()) {
		CODE::CRC<T> c(poly, init);
		for (u64 w : ws) {
			++states;
			T n = step<T>(poly, init, w, 64);
			CQ(c((uint64_t)w), n, "init=%#llx u64=%#llx", (unsigned long long)init, (unsigned long long)w); CQ(c(), n, "read"); c.reset(init);
			CQ(c((uint32_t)w), step<T>(poly, init, w, 32), "init=%#llx u32=%#x", (unsigned long long)init, (u32)w); c.reset(init);
			CQ(c((uint16_t)w), step<T>(poly, init, w, 16), "init=%#llx u16=%#x", (unsigned long long)init, (u16)w); c.reset(init);
			CQ(c((uint8_t)w), step<T>(poly, init, w, 8), "init=%#llx u8=%#x", (unsigned long long)init, (u8)w); c.reset(init);
		}
		if (sizeof(T) <= 2 || 1) for (u32 w = 0; w < 65536; ++w) { ++states; c.reset(init); CQ(c((uint16_t)w), step<T>(poly, init, w, 16), "init=%#llx u16=%#x", (unsigned long long)init, w); }
	}
	++traces;
}
// all ways of cutting a message of up to 96 bits (byte-aligned pieces and single bits) into calls: depth-first with
// interleaved reads and a second object advanced in between
template <typename T> void cuts(T poly, T init, int nbytes, u64 seed)
{
	Fill f(seed);
	std::vector<u8> msg(nbytes);
	for (auto &b : msg) b = (u8)f();
	auto word = [&](int pos, int n) { u64 w = 0; for (int i = 0; i < n; ++i) w |= (u64)msg[pos + i] << (8 * i); return w; };
	std::vector<bool> bits; std::vector<T> want(nbytes * 8 + 1);
	want[0] = init;
	for (int i = 0; i < nbytes * 8; ++i) { bits.push_back(msg[i / 8] >> (i % 8) & 1); want[i + 1] = oracle<T>(poly, init, bits); }
	std::string path;
	std::function<void(CODE::CRC<T>, int)> go = [&](CODE::CRC<T> c, int pos) {
		++states;
		CQ(c(), want[pos * 8], "init=%#llx msg=%s cut=%s read", (unsigned long long)init, hex(msg.data(), nbytes).c_str(), path.c_str());
		if (pos == nbytes) { ++traces; return; }
		for (int k : {1, 2, 4, 8, 0}) {
			if (pos + k > nbytes) continue;
			CODE::CRC<T> d(c);
			path.push_back("b1234567H"[k]);
			int np = pos + (k ? k : 1);
			T got = 0;
			if (k == 1) got = d((uint8_t)word(pos, 1)); else if (k == 2) got = d((uint16_t)word(pos, 2)); else if (k == 4) got = d((uint32_t)word(pos, 4)); else if (k == 8) got = d((uint64_t)word(pos, 8));
			else for (int i = 0; i < 8; ++i) { got = d((bool)bits[pos * 8 + i]); CQ(got, want[pos * 8 + i + 1], "bit %d of byte %d cut=%s", i, pos, path.c_str()); }
			CQ(got, want[np * 8], "init=%#llx msg=%s cut=%s", (unsigned long long)init, hex(msg.data(), nbytes).c_str(), path.c_str());
			go(d, np);
			path.pop_back();
		}
	};
	go(CODE::CRC<T>(poly, init), 0);
	MC_SAMPLE("CRC%d poly %#llx init %#llx message %s all cuts -> %#llx", (int)sizeof(T) * 8, (unsigned long long)poly, (unsigned long long)init, hex(msg.data(), nbytes).c_str(), (unsigned long long)want.back());
}
// all operation sequences up to a depth over two live objects
template <typename T> void histories(int depth)
{
	std::vector<T> ps = polys<T>();
	T pa = ps[ps.size() / 2], pb = ps[ps.size() - 2];
	struct St { T a, b; };
	std::vector<int> path;
	std::function<void(CODE::CRC<T>, CODE::CRC<T>, T, T, int)> go = [&](CODE::CRC<T> a, CODE::CRC<T> b, T ra, T rb, int left) {
		++states;
		T poly = pa;
		auto ps = [&]() { return str(path); };
		CQ(a(), ra, "ops %s object a", ps().c_str()); CQ(b(), rb, "ops %s object b", ps().c_str());
		if (!left) { ++traces; return; }
		for (int op = 0; op < 11; ++op) {
			CODE::CRC<T> x(a), y(b); T na = ra, nb = rb;
			path.push_back(op);
			switch (op) {
			case 0: CQ(x(false), na = step<T>(pa, ra, 0, 1), "ops %s", ps().c_str()); break;
			case 1: CQ(x(true), na = step<T>(pa, ra, 1, 1), "ops %s", ps().c_str()); break;
			case 2: CQ(x((uint8_t)0xA7), na = step<T>(pa, ra, 0xA7, 8), "ops %s", ps().c_str()); break;
			case 3: CQ(x((uint16_t)0x8C31), na = step<T>(pa, ra, 0x8C31, 16), "ops %s", ps().c_str()); break;
			case 4: CQ(x((uint32_t)0x9B0117FE), na = step<T>(pa, ra, 0x9B0117FE, 32), "ops %s", ps().c_str()); break;
			case 5: CQ(x((uint64_t)0xC3D2E1F00F1E2D3Cull), na = step<T>(pa, ra, 0xC3D2E1F00F1E2D3Cull, 64), "ops %s", ps().c_str()); break;
			case 6: x.reset(); na = 0; break;
			case 7: x.reset((T)-1); na = (T)-1; break;
			case 8: CQ(y((uint8_t)0x5A), nb = step<T>(pb, rb, 0x5A, 8), "ops %s", ps().c_str()); break;
			case 9: y.reset((T)0x35); nb = (T)0x35; break;
			case 10: { CODE::CRC<T> z(pb, na); T keep = z(); CQ(keep, na, "new object"); x = CODE::CRC<T>(pa, na); break; }
			}
			go(x, y, na, nb, left - 1);
			path.pop_back();
		}
	};
	go(CODE::CRC<T>(pa), CODE::CRC<T>(pb, (T)7), 0, (T)7, depth);
	MC_SAMPLE("CRC%d: all sequences of %d operations on two objects", (int)sizeof(T) * 8, depth);
}
// all messages of up to three bytes
template <typename T> void messages(T poly, T init)
{
	for (u32 m = 0; m < (thorough ? 1u << 24 : 1u << 18); ++m) {
		++states;
		CODE::CRC<T> c(poly, init);
		c((uint8_t)m); c((uint8_t)(m >> 8)); T r = c((uint8_t)(m >> 16));
		CQ(r, step<T>(poly, init, m, 24), "bytes of %#x", m);
	}
	++traces;
}
template <typename T> void add_w(const char *n)
{
	int k = 0;
	for (T p : polys<T>()) {
		job(fmt("%s_rel_%llx", n, (unsigned long long)p), [p]() { relation<T>(p); }, sizeof(T) == 2 && (k % 4) ? 1 : 0);
		job(fmt("%s_words_%llx", n, (unsigned long long)p), [p]() { words<T>(p); });
		job(fmt("%s_cuts_%llx", n, (unsigned long long)p), [p]() { for (T i : inits<T>()) { cuts<T>(p, i, thorough ? 11 : 9, 5 + i); cuts<T>(p, i, 8, 77 + i); } });
		++k;
	}
	job(fmt("%s_hist", n), []() { histories<T>(thorough ? 6 : 5); });
	job(fmt("%s_msgs", n), []() { std::vector<T> p = polys<T>(); messages<T>(p[p.size() / 3], 0); messages<T>(p.back(), (T)-1); });
}
// complete state space of a width-8 register: all polynomials
static void all8(int lo, int hi) { for (int p = lo; p < hi; ++p) relation<u8>((u8)p); MC_SAMPLE("all 8-bit polynomials %d..%d, all registers, all bytes", lo, hi - 1); }
void mc_register()
{
	add_w<u8>("w8"); add_w<u16>("w16"); add_w<u32>("w32"); add_w<u64>("w64");
	for (int k = 0; k < 8; ++k) job(fmt("all8_%d", k), [k]() { all8(k * 32, k * 32 + 32); });
}
