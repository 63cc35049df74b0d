// C26: the LDPC decoder accepts exactly codewords, keeps clean ones and repairs small damage.
#include "ldpc.hh"
#include "ldpc_decoder.hh"
typedef std::vector<int8_t> Soft;
struct Dec {
	Code c; int beta; Soft b; virtual ~Dec() {}
	virtual int call(int8_t *m, int8_t *p, int trials) = 0;   // trials < -1: default
	virtual void renew() = 0;
	std::string nm() { return fmt("N=%d K=%d M=%d beta=%d", c.N, c.K, c.M, beta); }
	int run(const Soft &in, int trials, Soft &out)
	{
		static std::vector<int8_t> m, p; m.assign(c.K + 64, 0x55); p.assign(c.R + 64, 0x33);
		memcpy(&m[32], in.data(), c.K); memcpy(&p[32], in.data() + c.K, c.R);
		int r = call(&m[32], &p[32], trials); ++transitions;
		for (int i = 0; i < 32; ++i) MC_CHECK(m[i] == 0x55 && m[32 + c.K + i] == 0x55 && p[i] == 0x33 && p[32 + c.R + i] == 0x33, "%s: wrote outside the buffers", nm().c_str());
		out.assign(&m[32], &m[32] + c.K); out.insert(out.end(), &p[32], &p[32] + c.R);
		return r;
	}
	Soft out, out2;
	// success exactly when the hard decisions form a codeword
	int judge(const Soft &in, int trials, const char *what, int a = -1, int b2 = -1)
	{
		++states; int r = run(in, trials, out), t = trials < -1 ? 25 : trials;
		bool g = c.good(out.data());
		MC_CHECK(r >= -1 && r <= t, "%s %s %d %d trials %d: returned %d", nm().c_str(), what, a, b2, trials, r);
		MC_CHECK((r >= 0) == g, "%s %s %d %d trials %d: returned %d but the hard decisions are %s", nm().c_str(), what, a, b2, trials, r, g ? "a codeword" : "no codeword");
		return r;
	}
	std::vector<u8> word(int s) { std::vector<u8> m(c.K); Fill r(s); for (int i = 0; i < c.K; ++i) m[i] = s == 0 ? 0 : s == 1 ? 1 : r(2); auto p = c.parity(m); m.insert(m.end(), p.begin(), p.end()); return m; }
	Soft soft(const std::vector<u8> &w, int amp) { Soft v(c.N); for (int i = 0; i < c.N; ++i) v[i] = w[i] ? -amp : amp; return v; }
	void clean(int words)
	{
		for (int s = 0; s < words; ++s) { auto w = word(s); for (int amp : {1, 2, 3, 20, 31, 32, 64, 126, 127}) for (int t : {0, 1, 2, 25, -9}) {
			Soft in = soft(w, amp); int r = judge(in, t, "undistorted word", s, amp); MC_CHECK(r == (t < 0 ? 25 : t), "%s undistorted word %d amplitude %d trials %d: returned %d", nm().c_str(), s, amp, t, r); MC_CHECK(out == in, "%s undistorted word %d amplitude %d: output differs", nm().c_str(), s, amp); }
			Soft in = soft(w, 9); for (int i = 0; i < c.N; ++i) in[i] = in[i] < 0 ? -1 - (i * 7) % 128 : 1 + (i * 11) % 127; judge(in, 0, "uneven undistorted word", s); MC_CHECK(out == in, "%s uneven undistorted word %d: output differs", nm().c_str(), s); judge(in, 25, "uneven undistorted word", s); MC_CHECK(out == in, "%s uneven undistorted word %d: output differs", nm().c_str(), s); }
		++traces;
	}
	void restored(const Soft &in, const std::vector<u8> &w, const char *what, int a, int b2 = -1)
	{
		int r = judge(in, -9, what, a, b2);
		MC_CHECK(r >= 0, "%s %s %d %d: decoding failed", nm().c_str(), what, a, b2);
		for (int i = 0; i < c.N; ++i) MC_CHECK((out[i] < 0) == w[i], "%s %s %d %d: position %d has the wrong sign", nm().c_str(), what, a, b2, i);
	}
	// damage to a single position, every position
	void single(int from, int step, int words, std::vector<int> amps)
	{
		for (int s = 0; s < words; ++s) { auto w = word(s ? s + 1 : 1); for (int amp : amps) { Soft in = soft(w, amp); for (int p = from; p < c.N; p += step) { auto k = in[p]; in[p] = 0; restored(in, w, "erasure", p, amp); in[p] = k < 0 ? 1 : -1; restored(in, w, "weak error", p, amp); in[p] = -std::max(-8, std::min(8, k / 3)); restored(in, w, "small error", p, amp); in[p] = k; } } }
		++traces;
	}
	void pairs(int lim)
	{
		auto w = word(5); Soft in = soft(w, 24); int n = 0, skip = 0;
		subsets(std::min(lim, c.N), 2, [&](const int *q) { int a = q[0] * (u64)c.N / std::min(lim, c.N), b = q[1] * (u64)c.N / std::min(lim, c.N); if (c.N < 200 && !c.peel({a, b})) { ++skip; return; } ++n; auto x = in[a], y = in[b]; in[a] = in[b] = 0; restored(in, w, "erasures", a, b); in[a] = x; in[b] = y; });
		MC_SAMPLE("%d pairs restored, %d not resolvable", n, skip); ++traces;
	}
	// larger erasure sets: those which iterated substitution resolves are filled in
	void erasures(int sets, int lo)
	{
		int n = 0, skip = 0;
		for (int s = lo; s < lo + sets; ++s) {
			Fill r(s + 900); auto w = word(s % 5 + 2); Soft in = soft(w, 24); std::vector<int> e; int cnt = 3 + s % (beta ? 4 : c.R / 2), step = s % 3 == 0 ? 1 : s % 3 == 1 ? c.M : 0, at = r(c.N);
			for (int i = 0; i < cnt; ++i) { int q = step ? (at + i * step) % c.N : r(c.N); if (std::find(e.begin(), e.end(), q) == e.end()) e.push_back(q); }
			if (!c.peel(e)) { ++skip; continue; }
			for (int q : e) in[q] = 0;
			++n; int rr = judge(in, 1000, "erasure set", s, cnt); MC_CHECK(rr >= 0, "%s erasure set %d of %d positions: decoding failed", nm().c_str(), s, cnt);
			for (int i = 0; i < c.N; ++i) MC_CHECK((out[i] < 0) == w[i], "%s erasure set %d: position %d has the wrong sign", nm().c_str(), s, i);
		}
		MC_SAMPLE("%d erasure sets filled in, %d not resolvable by substitution", n, skip); ++traces;
	}
	// arbitrary words: the verdict is exact for every trial budget, and a smaller budget only cuts the same computation short
	void arbitrary(int words, int lo)
	{
		for (int s = lo; s < lo + words; ++s) {
			Fill r(s + 100); Soft in(c.N); int mode = s % 8; auto w = word(s + 2);
			for (int i = 0; i < c.N; ++i) { int sg = w[i] ? -1 : 1; in[i] = mode == 0 ? (int8_t)r(256) : mode == 1 ? (r(2) ? 1 : -1) : mode == 2 ? (r(2) ? 127 : -128) : mode == 3 ? (int)r(3) - 1 : mode == 4 ? sg * (int)(r(20) + 1) * (r(12) ? 1 : -1) : mode == 5 ? sg * (r(10) ? 12 : 0) : mode == 6 ? sg * (r(20) ? 30 : -28) : sg * ((int)r(40) - 10); }
			renew(); int full = judge(in, 25, "arbitrary word", s); int used = full < 0 ? 26 : 25 - full; Soft ref = out;
			for (int t : {0, 1, 2, 3, 5, 8, 13, 24, 26, 40}) { renew(); int q = judge(in, t, "arbitrary word", s); if (used <= 25) { MC_CHECK(q == (t >= used ? t - used : -1), "%s arbitrary word %d: decoded after %d iterations, yet a budget of %d returns %d", nm().c_str(), s, used, t, q); if (q >= 0) MC_CHECK(out == ref, "%s arbitrary word %d: output depends on the budget %d", nm().c_str(), s, t); } else MC_CHECK(q < 0 || t > 25, "%s arbitrary word %d: no success within 25 iterations but within %d", nm().c_str(), s, t); }
		}
		++traces;
	}
	// complete small alphabets on eight positions
	void alphabet(int at, int step, int amp) { auto w = word(3); Soft base = soft(w, amp); const int al[3] = {-1, 0, 1}; tuples(8, 3, [&](const int *t) { Soft in = base; for (int i = 0; i < 8; ++i) in[(at + i * step) % c.N] = al[t[i]] * amp; judge(in, 6, "alphabet", at, t[0]); }); ++traces; }
};
template <typename T, int B> struct DecI : Dec {
	typedef CODE::LDPCDecoder<T, B> D; D *d;
	DecI() { d = (D *)aligned_alloc(64, (sizeof(D) + 63) & ~(size_t)63); memset((void *)d, 0, sizeof(D)); new (d) D; c = Code::make<T>(); beta = B; }
	~DecI() { free((void *)d); }
	void renew() override { memset((void *)d, 0, sizeof(D)); new (d) D; }
	int call(int8_t *m, int8_t *p, int t) override { return t < -1 ? (*d)(m, p) : (*d)(m, p, t); }
};
template <typename T, int B> void j(const char *t, const std::string &n, std::function<void(Dec &)> f) { job(fmt("%s beta %d %s", t, B, n.c_str()), [=] { Dec *e = new DecI<T, B>; f(*e); delete e; }); }
template <typename T, int B> void small(const char *t)
{
	j<T, B>(t, "undistorted", [](Dec &e) { e.clean(20); });
	j<T, B>(t, "single", [](Dec &e) { e.single(0, 1, 4, {6, 12, 24, 100}); });
	j<T, B>(t, "pairs", [](Dec &e) { e.pairs(thorough ? 1000 : 160); });
	for (int s = 0; s < 4; ++s) j<T, B>(t, fmt("erasures %d", s), [=](Dec &e) { e.erasures(thorough ? 4000 : 500, s * 4000); });
	for (int s = 0; s < 4; ++s) j<T, B>(t, fmt("arbitrary %d", s), [=](Dec &e) { e.arbitrary(thorough ? 400 : 80, s * 400); });
	for (int s : {1, 7, 30}) j<T, B>(t, fmt("alphabet step %d", s), [=](Dec &e) { e.alphabet(3, s, 8); });
}
template <typename T, int B> void large(const char *t, int step)
{
	j<T, B>(t, "undistorted", [](Dec &e) { e.clean(3); });
	for (int s = 0; s < 8; ++s) { j<T, B>(t, fmt("single %d", s), [=](Dec &e) { e.single(s * (step / 8), thorough ? step / 8 : step, 1, {12}); }); j<T, B>(t, fmt("arbitrary %d", s), [=](Dec &e) { e.arbitrary(2, s * 2); }); }
	j<T, B>(t, "pairs", [](Dec &e) { e.pairs(24); });
}
void mc_register()
{
#if PART == 0
	small<Tab<30, 3, 2, 1, 3, 2, 2>, 1>("30/3/2"); small<Tab<30, 3, 4, 2, 4, 3, 3>, 0>("30/3/4"); small<Tab<30, 5, 3, 1, 5, 3, 4>, 2>("30/5/3");
#elif PART == 1
	small<Tab<60, 3, 4, 1, 5, 3, 4>, 1>("60/3/4"); small<Tab<90, 2, 3, 1, 4, 3, 7>, 1>("90/2/3"); small<Tab<60, 1, 2, 1, 3, 2, 2>, 0>("60/1/2"); small<Tab<60, 3, 4, 1, 5, 3, 4>, 0>("60/3/4"); small<Tab<90, 2, 3, 1, 4, 3, 7>, 0>("90/2/3");
#elif PART == 2
	large<DVB_T2_TABLE_B7, 1>("B7", 64);
#elif PART == 3
	large<DVB_T2_TABLE_A1, 1>("A1", 800);
#elif PART == 4
	large<DVB_T2_TABLE_A3, 1>("A3", 800);
#elif PART == 5
	large<DVB_T2_TABLE_A6, 1>("A6", 800);
#endif
}
