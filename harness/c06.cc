#include "mc.hh"
#include "bitman.hh"
#include "bitstream.hh"
using namespace mc;
typedef std::vector<u8> Bits; // oracle: one element per bit, LSB first
static std::string show(const Bits &b) { std::string s; for (auto x : b) s += '0' + x; return s; }
template <int SIZE> struct B {
	typedef CODE::Bitstream<SIZE> S;
	static const int BYTES = (SIZE + 7) / 8;
	static Bits load(const u8 *buf) { Bits b(BYTES * 8); for (int i = 0; i < BYTES * 8; ++i) b[i] = buf[i / 8] >> (i % 8) & 1; return b; }
	static void compare(S &s, const Bits &m, int pos, const char *what, const Bits &before, int at, u64 arg, int num)
	{
		++transitions;
		Bits g = load(s.data());
		MC_CHECK(g == m && s.tell() == pos, "capacity %d buffer %s position %d: %s(%#llx,%d) gives %s at %d, want %s at %d", SIZE, show(before).c_str(), at, what, (unsigned long long)arg, num, show(g).c_str(), s.tell(), show(m).c_str(), pos);
	}
	static void setup(S &s, const u8 *buf, int pos) { memcpy(s.data(), buf, BYTES); s.seek(pos); }
	// every operation applicable at (buffer, pos)
	static void all_ops(const u8 *buf, int pos, bool wide)
	{
		++states; ++traces;
		Bits b0 = load(buf);
		S s;
		MC_CHECK(S::BITS == SIZE && S::BYTES == BYTES, "constants of Bitstream<%d>", SIZE);
		setup(s, buf, pos); compare(s, b0, pos, "seek", b0, pos, 0, 0);
		{ setup(s, buf, pos); s.reset(); compare(s, Bits(BYTES * 8, 0), 0, "reset", b0, pos, 0, 0); }
		if (pos + 1 <= SIZE) {
			for (int v = 0; v < 2; ++v) { setup(s, buf, pos); s.putbit(v); Bits m = b0; m[pos] = v; compare(s, m, pos + 1, "putbit", b0, pos, v, 1); }
			setup(s, buf, pos); int g = s.getbit(); MC_CHECK(g == b0[pos], "capacity %d buffer %s getbit at %d = %d", SIZE, show(b0).c_str(), pos, g); compare(s, b0, pos + 1, "getbit", b0, pos, 0, 1);
		}
		auto word = [&](int p, int n) { u64 w = 0; for (int i = 0; i < n; ++i) w |= (u64)b0[p + i] << i; return w; };
		if (pos + 8 <= SIZE) {
			for (int v = 0; v < 256; v += wide ? 1 : 17) { setup(s, buf, pos); s.putbyte((u8)v); Bits m = b0; for (int i = 0; i < 8; ++i) m[pos + i] = v >> i & 1; compare(s, m, pos + 8, "putbyte", b0, pos, v, 8); }
			setup(s, buf, pos); int g = s.getbyte(); MC_CHECK(g == (int)word(pos, 8), "capacity %d buffer %s getbyte at %d = %#x", SIZE, show(b0).c_str(), pos, g); compare(s, b0, pos + 8, "getbyte", b0, pos, 0, 8);
		}
		static const u64 vals[] = {0, ~0ull, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x0123456789ABCDEFull, 0xF0E1D2C3B4A59687ull, 1};
		for (int num = 0; num <= 64 && pos + num <= SIZE; ++num) {
			bits_one<u64>(s, buf, b0, pos, num, vals, 7, "writebits64");
			if (num <= 32) { bits_one<u32>(s, buf, b0, pos, num, vals, 7, "writebits32"); bits_one<i32>(s, buf, b0, pos, num, vals, 5, "writebitsS32"); }
			if (num <= 16) bits_one<u16>(s, buf, b0, pos, num, vals, 7, "writebits16");
			if (num <= 8) bits_one<u8>(s, buf, b0, pos, num, vals, 7, "writebits8");
			if (wide && num <= 8) for (u64 v = 0; v < (1u << num); ++v) bits_one<u8>(s, buf, b0, pos, num, &v, 1, "writebits8");
		}
		for (int len = 0; pos + 8 * len <= SIZE && (len <= 4 || !wide || 1); ++len) {
			std::vector<u8> d(len + 2), e(len + 2);
			for (int f = 0; f < 3; ++f) {
				for (int i = 0; i < len + 2; ++i) d[i] = f == 0 ? 0 : f == 1 ? 0xFF : (u8)(0x3B + 89 * i + (i << 5));
				e = d;
				setup(s, buf, pos); s.writebytes(d.data(), len); Bits m = b0; for (int i = 0; i < 8 * len; ++i) m[pos + i] = d[i / 8] >> (i % 8) & 1;
				compare(s, m, pos + 8 * len, "writebytes", b0, pos, f, len);
				MC_CHECK(d == e, "writebytes modified its source");
			}
			std::vector<u8> r(len + 2, 0x77);
			setup(s, buf, pos); s.readbytes(r.data(), len);
			for (int i = 0; i < len; ++i) MC_CHECK(r[i] == word(pos + 8 * i, 8), "capacity %d buffer %s readbytes(%d) at %d: byte %d = %#x", SIZE, show(b0).c_str(), len, pos, i, r[i]);
			MC_CHECK(r[len] == 0x77 && r[len + 1] == 0x77, "readbytes(%d) wrote past its destination", len);
			compare(s, b0, pos + 8 * len, "readbytes", b0, pos, 0, len);
		}
	}
	template <typename T> static void bits_one(S &s, const u8 *buf, const Bits &b0, int pos, int num, const u64 *vals, int nv, const char *what)
	{
		for (int k = 0; k < nv; ++k) {
			setup(s, buf, pos); s.writebits((T)vals[k], num);
			Bits m = b0; for (int i = 0; i < num; ++i) m[pos + i] = (u64)vals[k] >> i & 1;
			compare(s, m, pos + num, what, b0, pos, vals[k], num);
		}
		T r = (T)0x5A;
		setup(s, buf, pos); s.readbits(&r, num);
		u64 w = 0; for (int i = 0; i < num; ++i) w |= (u64)b0[pos + i] << i;
		MC_CHECK((typename std::make_unsigned<T>::type)r == (typename std::make_unsigned<T>::type)w, "capacity %d buffer %s readbits%d(%d) at %d = %#llx want %#llx", SIZE, show(b0).c_str(), (int)sizeof(T) * 8, num, pos, (unsigned long long)r, (unsigned long long)w);
		compare(s, b0, pos + num, "readbits", b0, pos, 0, num);
	}
	// complete state space: every buffer content, every position
	static void full() { fullpart(0, 1); }
	static void fullpart(int k, int n)
	{
		for (u64 c = k; c < (1ull << (BYTES * 8)); c += n) {
			u8 buf[BYTES]; for (int i = 0; i < BYTES; ++i) buf[i] = (u8)(c >> (8 * i));
			for (int pos = 0; pos <= SIZE; ++pos) all_ops(buf, pos, BYTES == 1);
		}
		MC_SAMPLE("capacity %d: all %llu buffers x %d positions x every operation", SIZE, 1ull << (BYTES * 8), SIZE + 1);
	}
	static void patterns()
	{
		std::vector<std::vector<u8>> bg(6, std::vector<u8>(BYTES));
		for (int i = 0; i < BYTES; ++i) { bg[0][i] = 0; bg[1][i] = 0xFF; bg[2][i] = 0x55; bg[3][i] = (u8)(i * 37 + 11); bg[4][i] = (u8)(0xC3 ^ (i * 101)); bg[5][i] = (u8)~(i * 37 + 11); }
		for (auto &b : bg) for (int pos = 0; pos <= SIZE; ++pos) all_ops(b.data(), pos, SIZE < 200);
		MC_SAMPLE("capacity %d: 6 backgrounds x %d positions x every operation and length", SIZE, SIZE + 1);
	}
	// long buffers: every operation at every position, the neighbourhood compared each time and the whole buffer at the end
	static void large()
	{
		std::unique_ptr<S> sp(new S); S &s = *sp; std::vector<u8> m(BYTES + 16);
		auto same = [&](int pos, const char *what, int num, int end) {
			++transitions; int lo = std::max(0, pos / 8 - 2), hi = std::min(BYTES, (pos + num) / 8 + 3);
			MC_CHECK(s.tell() == end && !memcmp(s.data() + lo, m.data() + lo, hi - lo), "capacity %d: %s of %d bits at %d leaves position %d, bytes %s want %s", SIZE, what, num, pos, s.tell(), hex(s.data() + lo, hi - lo).c_str(), hex(m.data() + lo, hi - lo).c_str());
		};
		auto put = [&](int pos, u64 v, int n) { for (int i = 0; i < n; ++i) { u8 &b = m[(pos + i) / 8]; int k = (pos + i) % 8; b = (u8)((b & ~(1 << k)) | (int)(v >> i & 1) << k); } };
		auto get = [&](int pos, int n) { u64 w = 0; for (int i = 0; i < n; ++i) w |= (u64)(m[(pos + i) / 8] >> (pos + i) % 8 & 1) << i; return w; };
		for (int bg = 0; bg < 2; ++bg) {
			memset(s.data(), 0xCC, BYTES); s.seek(SIZE); s.reset(); MC_CHECK(s.tell() == 0, "reset of capacity %d", SIZE);
			for (int i = 0; i < BYTES; ++i) MC_CHECK(s.data()[i] == 0, "capacity %d: reset leaves byte %d", SIZE, i);
			for (int i = 0; i < BYTES; ++i) s.data()[i] = m[i] = (u8)(bg ? ~(i * 73 + (i >> 8)) : i * 73 + (i >> 8));
			for (int pos = 0; pos < SIZE; ++pos) {
				++states; u64 v = 0x9E3779B97F4A7C15ull * (u64)(pos + 1);
				s.seek(pos); int b = s.getbit(); MC_CHECK(b == (int)get(pos, 1), "capacity %d: getbit at %d", SIZE, pos); same(pos, "getbit", 1, pos + 1);
				s.seek(pos); s.putbit(!b); put(pos, !b, 1); same(pos, "putbit", 1, pos + 1);
				if (pos + 8 <= SIZE) {
					s.seek(pos); b = s.getbyte(); MC_CHECK(b == (int)get(pos, 8), "capacity %d: getbyte at %d", SIZE, pos); same(pos, "getbyte", 8, pos + 8);
					s.seek(pos); s.putbyte((u8)v); put(pos, v, 8); same(pos, "putbyte", 8, pos + 8);
				}
				if (pos + 21 <= SIZE) {
					u32 r; s.seek(pos); s.readbits(&r, 21); MC_CHECK(r == get(pos, 21), "capacity %d: readbits at %d", SIZE, pos); same(pos, "readbits", 21, pos + 21);
					s.seek(pos); s.writebits((u32)(v >> 9), 21); put(pos, v >> 9, 21); same(pos, "writebits", 21, pos + 21);
				}
				if (pos + 24 <= SIZE) {
					u8 r[3]; s.seek(pos); s.readbytes(r, 3); MC_CHECK((u64)(r[0] | r[1] << 8 | r[2] << 16) == get(pos, 24), "capacity %d: readbytes at %d", SIZE, pos); same(pos, "readbytes", 24, pos + 24);
					for (int i = 0; i < 3; ++i) r[i] = (u8)(v >> (30 + 8 * i));
					s.seek(pos); s.writebytes(r, 3); put(pos, v >> 30, 24); same(pos, "writebytes", 24, pos + 24);
				}
			}
			MC_CHECK(!memcmp(s.data(), m.data(), BYTES), "capacity %d: some distant byte changed", SIZE);
			// the whole buffer in one block, at every alignment
			for (int off = 0; off < 9; ++off) {
				int len = (SIZE - off) / 8; std::vector<u8> d(len), r(len + 1, 0x77); for (int i = 0; i < len; ++i) d[i] = (u8)(i * 151 + (i >> 8) * 3 + off);
				s.seek(off); s.writebytes(d.data(), len); for (int i = 0; i < len; ++i) put(off + 8 * i, d[i], 8);
				MC_CHECK(s.tell() == off + 8 * len && !memcmp(s.data(), m.data(), BYTES), "capacity %d: writebytes of %d bytes at %d", SIZE, len, off);
				s.seek(off); s.readbytes(r.data(), len);
				MC_CHECK(s.tell() == off + 8 * len && !memcmp(r.data(), d.data(), len) && r[len] == 0x77, "capacity %d: readbytes of %d bytes at %d", SIZE, len, off);
				transitions += 2;
			}
			// a stream written and read back without seeking
			s.reset(); memset(m.data(), 0, m.size()); int p = 0, k = 0;
			for (; p + 40 <= SIZE; ++k) { int n = 1 + k * 7 % 39; u64 v = 0x9E3779B97F4A7C15ull * (u64)(k + 3); if (n == 8) s.putbyte((u8)v); else if (n == 1) s.putbit(v & 1); else s.writebits(v, n); put(p, v, n); p += n; ++transitions; MC_CHECK(s.tell() == p, "capacity %d: position %d want %d", SIZE, s.tell(), p); }
			MC_CHECK(!memcmp(s.data(), m.data(), BYTES), "capacity %d: stream of %d elements", SIZE, k);
			s.seek(0); for (int q = 0, j = 0; j < k; ++j) { int n = 1 + j * 7 % 39; u64 r = 0; if (n == 8) r = s.getbyte(); else if (n == 1) r = s.getbit(); else s.readbits(&r, n); ++transitions; MC_CHECK(r == get(q, n) && s.tell() == q + n, "capacity %d: element %d of the stream", SIZE, j); q += n; }
			++traces;
		}
		MC_SAMPLE("capacity %d: every operation at every position, whole-buffer blocks, one stream", SIZE);
	}
	// operation sequences on one object: hidden state, drifting position
	static void hist(int depth)
	{
		S s0; s0.reset();
		std::vector<int> path;
		std::function<void(S, Bits, int, int)> go = [&](S s, Bits m, int pos, int left) {
			++states;
			if (!left) { ++traces; return; }
			for (int op = 0; op < 14; ++op) {
				S t(s); Bits b = m; int p = pos; bool ok = true;
				auto room = [&](int n) { return p + n <= SIZE; };
				auto put = [&](u64 v, int n) { for (int i = 0; i < n; ++i) b[p++] = v >> i & 1; };
				auto get = [&](int n) { u64 w = 0; for (int i = 0; i < n; ++i) w |= (u64)b[p++] << i; return w; };
				u64 g = 0, w = 0; u8 buf[2] = {0xA9, 0x4D};
				switch (op) {
				case 0: if ((ok = room(1))) { t.putbit(1); put(1, 1); } break;
				case 1: if ((ok = room(1))) { t.putbit(0); put(0, 1); } break;
				case 2: if ((ok = room(1))) { g = t.getbit(); w = get(1); } break;
				case 3: if ((ok = room(8))) { t.putbyte(0x9D); put(0x9D, 8); } break;
				case 4: if ((ok = room(8))) { g = t.getbyte(); w = get(8); } break;
				case 5: if ((ok = room(16))) { t.writebytes(buf, 2); put(0x4DA9, 16); } break;
				case 6: if ((ok = room(16))) { t.readbytes(buf, 2); g = buf[0] | buf[1] << 8; w = get(16); } break;
				case 7: if ((ok = room(3))) { t.writebits(5, 3); put(5, 3); } break;
				case 8: if ((ok = room(11))) { t.writebits((u16)0x6E7, 11); put(0x6E7, 11); } break;
				case 9: if ((ok = room(5))) { u8 r; t.readbits(&r, 5); g = r; w = get(5); } break;
				case 10: if ((ok = room(13))) { u32 r; t.readbits(&r, 13); g = r; w = get(13); } break;
				case 11: t.seek(p = 0); break;
				case 12: ok = SIZE > 5; if (ok) t.seek(p = SIZE - 5); break;
				case 13: t.reset(); b.assign(BYTES * 8, 0); p = 0; break;
				}
				if (!ok) continue;
				path.push_back(op); ++transitions;
				MC_CHECK(g == w && t.tell() == p && load(t.data()) == b, "capacity %d operations %s: value %#llx want %#llx, position %d want %d, buffer %s want %s", SIZE, str(path).c_str(), (unsigned long long)g, (unsigned long long)w, t.tell(), p, show(load(t.data())).c_str(), show(b).c_str());
				go(t, b, p, left - 1);
				path.pop_back();
			}
		};
		go(s0, Bits(BYTES * 8, 0), 0, depth);
		MC_SAMPLE("capacity %d: all histories of %d operations out of 14", SIZE, depth);
	}
};
static void helpers()
{
	// complete: two byte buffers, all positions and values
	for (int c = 0; c < 65536; ++c) for (int pos = 0; pos < 16; ++pos) {
		u8 o[2] = {(u8)c, (u8)(c >> 8)}; ++states;
		int be = o[pos / 8] >> (7 - pos % 8) & 1, le = o[pos / 8] >> (pos % 8) & 1;
		MC_CHECK(CODE::get_be_bit(o, pos) == be && CODE::get_le_bit(o, pos) == le, "get bit %d of %04x", pos, c);
		for (int v = 0; v < 2; ++v) for (int op = 0; op < 4; ++op) {
			u8 b[4] = {0xEE, o[0], o[1], 0xDD};
			if (op == 0) CODE::xor_be_bit(b + 1, pos, v); else if (op == 1) CODE::xor_le_bit(b + 1, pos, v); else if (op == 2) CODE::set_be_bit(b + 1, pos, v); else CODE::set_le_bit(b + 1, pos, v);
			u8 w[2] = {o[0], o[1]}; int bit = op & 1 ? pos % 8 : 7 - pos % 8;
			if (op < 2) w[pos / 8] ^= v << bit; else w[pos / 8] = (u8)((w[pos / 8] & ~(1 << bit)) | v << bit);
			++transitions;
			MC_CHECK(b[0] == 0xEE && b[3] == 0xDD && b[1] == w[0] && b[2] == w[1], "helper %d bit %d value %d on %04x: %02x%02x want %02x%02x", op, pos, v, c, b[1], b[2], w[0], w[1]);
		}
	}
	// long arrays: every position
	const int N = 600000; std::vector<u8> z(N / 8), m;
	for (int bgd = 0; bgd < 3; ++bgd) {
		for (int i = 0; i < N / 8; ++i) z[i] = bgd == 0 ? 0 : bgd == 1 ? 0xFF : (u8)(i * 73 + (i >> 8));
		for (int pos = 0; pos < N; pos += 1) {
			++states; ++transitions;
			int by = pos / 8, be = 7 - pos % 8, le = pos % 8; u8 was = z[by];
			MC_CHECK(CODE::get_be_bit(z.data(), pos) == (was >> be & 1) && CODE::get_le_bit(z.data(), pos) == (was >> le & 1), "get %d", pos);
			CODE::xor_be_bit(z.data(), pos, 1); MC_CHECK(z[by] == (u8)(was ^ 1 << be), "xor_be %d", pos); z[by] = was;
			CODE::xor_le_bit(z.data(), pos, 1); MC_CHECK(z[by] == (u8)(was ^ 1 << le), "xor_le %d", pos); z[by] = was;
			CODE::set_be_bit(z.data(), pos, 1); MC_CHECK(z[by] == (u8)(was | 1 << be), "set_be %d", pos); z[by] = was;
			CODE::set_le_bit(z.data(), pos, 0); MC_CHECK(z[by] == (u8)(was & ~(1 << le)), "set_le %d", pos); z[by] = was;
		}
	}
	++traces;
	MC_SAMPLE("bit helpers: all 65536 two byte buffers x 16 positions, %d positions of a long array", N);
}
template <int... S> void addfull(std::integer_sequence<int, S...>) { (job(fmt("full%02d", S + 1), B<S + 1>::full), ...); }
template <int... S> void addpat() { (job(fmt("pat%04d", S), B<S>::patterns), ...); }
template <int... S> void addlarge() { (job(fmt("large%07d", S), B<S>::large), ...); }
template <int... S> void addhist() { (job(fmt("hist%04d", S), []() { B<S>::hist(thorough ? 6 : 5); }), ...); }
void mc_register()
{
#if PART == 0
	addfull(std::make_integer_sequence<int, 8>()); addhist<1, 3, 8, 9, 16, 17>(); job("helpers", helpers);
#elif PART == 1
	job("full09", B<9>::full); job("full12", B<12>::full, 1); for (int k = 0; k < 4; ++k) { job(fmt("full15_%d", k), [k]() { B<15>::fullpart(k, 4); }); job(fmt("full16_%d", k), [k]() { B<16>::fullpart(k, 4); }); } job("full13", B<13>::full, 1);
#elif PART == 2
	addpat<17, 18, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 71, 72>();
#elif PART == 3
	addpat<73, 95, 100, 127, 128, 129, 200, 255, 256>(); addhist<40, 64>();
#elif PART == 4
	addpat<257, 511, 512, 1000>(); addhist<100>(); addlarge<4096, 32775, 65544, 140001, 525001>(); if (thorough) addlarge<16777300>();
#endif
}
