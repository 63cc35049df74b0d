// C25: the LDPC encoder against the accumulation rule of the address tables, and the parity checks themselves.
#include "ldpc.hh"
#include "ldpc_encoder.hh"
struct Enc {
	Code c; std::vector<int8_t> d, p; virtual ~Enc() {}
	virtual void call(const int8_t *d, int8_t *p) = 0;
	void one(const std::vector<u8> &m, const std::string &what)
	{
		d.assign(c.K + 32, 7); p.assign(c.R + 32, 9); for (int i = 0; i < c.K; ++i) d[16 + i] = 1 - 2 * m[i];
		auto d2 = d; call(d.data() + 16, p.data() + 16); ++states; ++transitions;
		MC_CHECK(d == d2, "N=%d K=%d %s: message modified", c.N, c.K, what.c_str());
		auto w = c.parity(m);
		for (int i = 0; i < 16; ++i) MC_CHECK(p[i] == 9 && p[16 + c.R + i] == 9, "N=%d K=%d %s: wrote outside the parity", c.N, c.K, what.c_str());
		for (int i = 0; i < c.R; ++i) MC_CHECK(p[16 + i] == 1 - 2 * w[i], "N=%d K=%d %s: parity %d is %d want %d", c.N, c.K, what.c_str(), i, p[16 + i], 1 - 2 * w[i]);
	}
	void checks(const std::vector<u8> &m) { one(m, "dense message"); std::vector<int8_t> v(c.N); for (int i = 0; i < c.K; ++i) v[i] = d[16 + i]; for (int i = 0; i < c.R; ++i) v[c.K + i] = p[16 + i]; MC_CHECK(c.good(v.data()), "N=%d K=%d: a parity check fails", c.N, c.K); ++transitions; }
	void units(int from, int step) { std::vector<u8> m(c.K, 0); for (int i = from; i < c.K; i += step) { m[i] = 1; one(m, fmt("unit message %d", i)); m[i] = 0; } ++traces; }
	void groups() { std::vector<u8> m(c.K, 0); for (int g = 0; g < c.K; g += c.M) for (int o : {0, 1, c.M / 2, c.M - 1}) { m[g + o] = 1; one(m, fmt("unit message %d", g + o)); m[g + o] = 0; } ++traces; }
	void dense() { for (int s = 0; s < 12; ++s) { std::vector<u8> m(c.K); Fill r(s); for (int i = 0; i < c.K; ++i) m[i] = s == 0 ? 0 : s == 1 ? 1 : s == 2 ? i & 1 : s == 3 ? i % 3 == 0 : r(2); checks(m); } ++traces; }
	void pairs() { std::vector<u8> m(c.K, 0); subsets(std::min(c.K, 90), 2, [&](const int *s) { m[s[0]] = m[s[1]] = 1; one(m, fmt("message %d+%d", s[0], s[1])); m[s[0]] = m[s[1]] = 0; }); ++traces; }
	void all() { if (c.K > 16) abort(); std::vector<u8> m(c.K); for (u32 x = 0; x < 1u << c.K; ++x) { for (int i = 0; i < c.K; ++i) m[i] = x >> i & 1; one(m, fmt("message %#x", x)); } ++traces; }
};
template <typename T> struct EncI : Enc { CODE::LDPCEncoder<T> *e; EncI() { void *p = malloc(sizeof *e); memset(p, 0x5b, sizeof *e); e = new (p) CODE::LDPCEncoder<T>; c = Code::make<T>(); } ~EncI() { free((void *)e); } void call(const int8_t *d, int8_t *p) override { (*e)(d, p); } };
template <typename T> void j(const std::string &n, std::function<void(Enc &)> f) { job(n, [=] { Enc *e = new EncI<T>; f(*e); delete e; }); }
template <typename T> void std_(const char *n) { j<T>(fmt("%s unit messages of every group", n), [](Enc &e) { e.groups(); }); j<T>(fmt("%s dense", n), [](Enc &e) { e.dense(); }); for (int s = 0; s < 8; ++s) job(fmt("%s unit messages %d", n, s), [=] { Enc *e = new EncI<T>; e->units(s * 13, thorough ? 8 : 67); delete e; }); }
template <typename T> void tiny() { j<T>(fmt("N=%d K=%d M=%d all messages", T::N, T::K, T::M), [](Enc &e) { e.all(); e.dense(); }); }
template <typename T> void small() { j<T>(fmt("N=%d K=%d M=%d", T::N, T::K, T::M), [](Enc &e) { e.units(0, 1); e.pairs(); e.dense(); }); }
void mc_register()
{
	std_<DVB_T2_TABLE_A1>("A1"); std_<DVB_T2_TABLE_A3>("A3"); std_<DVB_T2_TABLE_A6>("A6"); std_<DVB_T2_TABLE_B7>("B7");
	for (int s = 0; s < 8; ++s) j<DVB_T2_TABLE_B7>(fmt("B7 every unit message %d", s), [=](Enc &e) { e.units(s, 8); });
	tiny<Tab<1, 4, 6, 3, 2, 1, 1>>(); tiny<Tab<2, 3, 5, 2, 3, 2, 2>>(); tiny<Tab<3, 2, 4, 1, 4, 2, 3>>(); tiny<Tab<4, 3, 3, 1, 3, 2, 5>>(); tiny<Tab<5, 2, 3, 2, 3, 1, 4>>(); tiny<Tab<5, 5, 3, 1, 4, 3, 7>>(); tiny<Tab<2, 1, 6, 2, 2, 1, 9>>(); tiny<Tab<7, 2, 2, 1, 3, 2, 6>>();
	small<Tab<30, 3, 2, 1, 3, 2, 2>>(); small<Tab<30, 3, 4, 2, 4, 3, 3>>(); small<Tab<15, 4, 6, 2, 4, 2, 5>>(); small<Tab<60, 3, 4, 1, 5, 3, 4>>(); small<Tab<90, 2, 3, 1, 4, 3, 7>>(); small<Tab<8, 8, 8, 4, 5, 3, 8>>(); small<Tab<16, 5, 3, 1, 6, 4, 11>>();
}
