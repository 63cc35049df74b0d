// C34: the LDPC decoder against scalar layered message passing over the check equations.
#include "ldpc.hh"
#include "ldpc_decoder.hh"
typedef std::vector<int8_t> Soft;
static int sat(int v) { return v < -128 ? -128 : v > 127 ? 127 : v; }
// checks are visited layer by layer: D checks, W apart, of one residue; reads of a layer come before its writes
struct Graph {
	int M, q, W, D, K, R; struct Link { int unit, var; }; 
	std::vector<std::vector<std::vector<Link>>> layers;   // [layer][lane][link], parity links last
	std::vector<std::vector<std::vector<int>>> runs;      // [layer][run][link]: links which share a unit of D bits
	template <typename T> static Graph make(int D)
	{
		Graph g; g.M = T::M; g.D = D; g.W = g.M / D; g.K = T::K; g.R = T::N - T::K; g.q = g.R / g.M;
		std::vector<std::vector<std::array<int, 2>>> res(g.q); const int *p = T::POS; int block = 0;
		for (int a = 0; T::LEN[a]; ++a) for (int r = 0; r < T::LEN[a]; ++r, ++block) { for (int d = 0; d < T::DEG[a]; ++d) res[p[d] % g.q].push_back({block, p[d] / g.q}); p += T::DEG[a]; }
		for (int i = 0; i < g.q; ++i) for (int j = 0; j < g.W; ++j) {
			std::vector<std::vector<Link>> lanes(D); std::vector<std::vector<int>> runs;
			for (int n = 0; n < D; ++n) { int m = g.W * n + j; for (auto &l : res[i]) { int b = (m - l[1] + g.M) % g.M; lanes[n].push_back({l[0] * g.W + b % g.W, l[0] * g.M + b}); } int c = g.q * m + i; lanes[n].push_back({-1, g.K + c}); if (c) lanes[n].push_back({-2, g.K + c - 1}); }
			std::map<int, std::vector<int>> by; for (int k = 0; k < (int)res[i].size(); ++k) by[lanes[0][k].unit].push_back(k);
			for (auto &x : by) if (x.second.size() > 1) runs.push_back(x.second);
			g.layers.push_back(lanes); g.runs.push_back(runs);
		}
		return g;
	}
	bool shared() const { for (auto &r : runs) if (r.size()) return true; return false; }
	u64 orders(u64 lim) const { u64 n = 1; for (auto &l : runs) for (auto &r : l) { for (size_t i = 2; i <= r.size(); ++i) n *= i; if (n > lim) return lim + 1; } return n; }
	void order(u64 n) { for (auto &l : runs) for (auto &r : l) { u64 f = 1; for (size_t i = 2; i <= r.size(); ++i) f *= i; u64 k = n % f; n /= f; while (k--) std::next_permutation(r.begin(), r.end()); } }
};
struct Model {
	Graph g; int beta; std::vector<std::vector<std::vector<int>>> msg; Soft v; int t;
	void start(const Soft &in) { v = in; t = 0; msg.resize(g.layers.size()); for (size_t l = 0; l < msg.size(); ++l) { msg[l].resize(g.D); for (int n = 0; n < g.D; ++n) msg[l][n].assign(g.layers[l][n].size(), 0); } }
	void iterate()
	{
		static std::vector<std::vector<int>> out, post;
		for (size_t l = 0; l < msg.size(); ++l) {
			out.resize(g.D); post.resize(g.D);
			for (int n = 0; n < g.D; ++n) {
				auto &ln = g.layers[l][n]; int deg = (int)ln.size(); out[n].assign(deg, 0); post[n].assign(deg, 0);
				for (int k = 0; k < deg; ++k) post[n][k] = sat(v[ln[k].var] - msg[l][n][k]);
				for (int k = 0; k < deg; ++k) {
					int mag = 31, neg = 0;
					for (int i = 0; i < deg; ++i) if (i != k) { int x = post[n][i]; mag = std::min(mag, std::max(0, std::min(127, std::abs(x)) - beta)); neg ^= x < 0; }
					int o = neg ? -mag : mag, old = msg[l][n][k]; if ((old > 0 && o < 0) || (old < 0 && o > 0)) o = 0;
					out[n][k] = o;
				}
			}
			std::vector<u8> off(out[0].size() + 1, 0);
			for (auto &r : g.runs[l]) { int s = (int)r.size(), on = (s - 1 - t % s + s) % s; for (int i = 0; i < s; ++i) if (i != on) off[r[i]] = 1; }
			for (int n = 0; n < g.D; ++n) { auto &ln = g.layers[l][n]; for (int k = 0; k < (int)ln.size(); ++k) if (!off[k]) { v[ln[k].var] = (int8_t)sat(post[n][k] + out[n][k]); msg[l][n][k] = out[n][k]; } }
		}
		++t;
	}
};
struct Dec {
	Code c; int beta; std::vector<Model> cand; virtual ~Dec() {}
	virtual int call(int8_t *m, int8_t *p, int trials) = 0;
	std::string nm() { return fmt("N=%d K=%d M=%d beta=%d", c.N, c.K, c.M, beta); }
	Soft word(int s)
	{
		Fill r(s + 100); Soft in(c.N); int mode = s % 10; std::vector<u8> m(c.K); for (auto &b : m) b = r(2); auto p = c.parity(m); m.insert(m.end(), p.begin(), p.end());
		for (int i = 0; i < c.N; ++i) { int sg = m[i] ? -1 : 1; in[i] = mode == 0 ? (int8_t)r(256) : mode == 1 ? (r(2) ? 1 : -1) : mode == 2 ? (r(2) ? 127 : -128) : mode == 3 ? (int)r(3) - 1 : mode == 4 ? sg * (int)(r(20) + 1) * (r(12) ? 1 : -1) : mode == 5 ? sg * (r(10) ? 12 : 0) : mode == 6 ? sg * (r(20) ? 30 : -28) : mode == 7 ? sg * ((int)r(40) - 10) : mode == 8 ? sg * (r(6) ? 5 : -4) : sg * ((int)r(20) - 6); }
		return in;
	}
	std::vector<Soft> got; std::vector<int> ret;
	void decode(const Soft &in, const std::vector<int> &budgets)
	{
		got.clear(); ret.clear();
		for (int t : budgets) { static std::vector<int8_t> m, p; m.assign(in.begin(), in.begin() + c.K); p.assign(in.begin() + c.K, in.end()); ret.push_back(call(m.data(), p.data(), t)); ++transitions; m.insert(m.end(), p.begin(), p.end()); got.push_back(m); }
	}
	void one(const Soft &in, const std::vector<int> &budgets, const std::string &what)
	{
		++states; decode(in, budgets); std::string why;
		for (size_t k = 0; k < cand.size();) {
			Model &d = cand[k]; d.start(in); bool ok = true;
			for (size_t b = 0; b < budgets.size() && ok; ++b) {
				while (!c.good(d.v.data()) && d.t < budgets[b]) d.iterate();
				bool g = c.good(d.v.data()); int want = g ? budgets[b] - d.t : -1;
				if (d.v != got[b]) { int i = 0; while (d.v[i] == got[b][i]) ++i; why = fmt("position %d is %d want %d", i, got[b][i], d.v[i]); ok = false; }
				else if (ret[b] != want) { why = fmt("returned %d want %d", ret[b], want); ok = false; }
				if (!ok) why = fmt("%s %s after at most %d iterations: %s", nm().c_str(), what.c_str(), budgets[b], why.c_str());
			}
			if (ok) ++k; else if (cand.size() == 1) fail(current, why); else cand.erase(cand.begin() + k);
		}
	}
	static std::vector<int> ladder(int hi) { std::vector<int> b; for (int i = 0; i <= hi; ++i) b.push_back(i); return b; }
	void words(int n, int lo) { for (int s = lo; s < lo + n; ++s) one(word(s), s % 4 ? std::vector<int>{0, 1, 2, 3, 5, 9, 25} : ladder(12), fmt("word %d", s)); done(); }
	void alphabet(int at, int step, int seed, const std::vector<int> &al) { Soft base = word(seed); for (int s = 0; s < 8; ++s) one(word(seed * 100 + s), {1, 3}, fmt("word %d", seed * 100 + s)); tuples(6, (int)al.size(), [&](const int *t) { Soft in = base; for (int i = 0; i < 6; ++i) in[(at + i * step) % c.N] = al[t[i]]; one(in, {1, 2, 4}, fmt("alphabet at %d step %d", at, step)); }); done(); }
	void done() { ++traces; MC_SAMPLE("%d order(s) of taking turns fit", (int)cand.size()); }
	// without saturation a soft value moves by at most 31 for each of its links
	void drift(int n, int lo)
	{
		std::vector<int> deg(c.N, 0); for (auto &r : c.rows) for (int p : r) ++deg[p];
		for (int s = lo; s < lo + n; ++s) {
			Soft in = word(s); for (auto &v : in) v = v % 35; ++states; decode(in, {1, 7, 60}); 
			for (size_t b = 0; b < got.size(); ++b) for (int i = 0; i < c.N; ++i) if (deg[i] <= 3) MC_CHECK(std::abs(got[b][i] - in[i]) <= 31 * deg[i], "%s word %d: position %d with %d checks moved from %d to %d", nm().c_str(), s, i, deg[i], in[i], got[b][i]);
		}
		++traces;
	}
};
template <typename T, int B> struct DecI : Dec {
	typedef CODE::LDPCDecoder<T, B> D; D *d;
	DecI(bool models) { d = (D *)aligned_alloc(64, (sizeof(D) + 63) & ~(size_t)63); memset((void *)d, 0, sizeof(D)); new (d) D; c = Code::make<T>(); beta = B; if (!models) return;
		bool dep = false; for (int w : {15, 30}) if (c.M % w == 0) { Graph g = Graph::make<T>(w); dep |= g.shared() || g.q == 1; }
		// without shared units the layers only group independent checks, whatever their size
		for (int w : {15, 30}) if (c.M % w == 0 && (dep || cand.empty())) { Graph g = Graph::make<T>(w); if (g.q == 1 && g.W == 1) continue; u64 lim = c.N > 10000 ? 1 : 4096, n = g.orders(lim); if (n > lim) continue; for (u64 k = 0; k < n; ++k) { Model m; m.g = g; m.beta = B; m.g.order(k); cand.push_back(m); } }
		MC_CHECK(cand.size(), "no model"); }
	~DecI() { free((void *)d); }
	int call(int8_t *m, int8_t *p, int t) override { return (*d)(m, p, t); }
};
template <typename T, int B> void j(const char *t, const std::string &n, bool models, std::function<void(Dec &)> f) { job(fmt("%s beta %d %s", t, B, n.c_str()), [=] { Dec *e = new DecI<T, B>(models); f(*e); delete e; }); }
template <typename T, int B> void small(const char *t)
{
	for (int s = 0; s < 4; ++s) j<T, B>(t, fmt("words %d", s), true, [=](Dec &e) { e.words(thorough ? 1000 : 100, s * 1000); });
	for (int s = 0; s < 4; ++s) j<T, B>(t, fmt("alphabet %d", s), true, [=](Dec &e) { e.alphabet(s * 31, 1 + s * 7, s + 4, s % 2 ? std::vector<int>{-9, -1, 0, 14} : std::vector<int>{-100, 0, 25}); });
	j<T, B>(t, "bounded", false, [](Dec &e) { e.drift(200, 50); });
}
template <typename T, int B> void large(const char *t)
{
#ifndef __AVX2__
	// with 15 checks at a time no unit is shared in these tables
	if (!Graph::make<T>(15).shared()) for (int s = 0; s < 10; ++s) j<T, B>(t, fmt("word %d", s), true, [=](Dec &e) { for (int k = 0; k < (thorough ? 6 : 1); ++k) e.one(e.word(s + 10 * k), {0, 1, 2, 7, 25}, fmt("word %d", s)); e.done(); });
#endif
	j<T, B>(t, "bounded", false, [](Dec &e) { e.drift(6, 3); });
}
void mc_register()
{
#if PART == 0
	small<Tab<30, 3, 2, 1, 3, 2, 2>, 1>("30/3/2"); small<Tab<30, 3, 4, 2, 4, 3, 3>, 0>("30/3/4"); small<Tab<30, 5, 3, 1, 5, 3, 4>, 2>("30/5/3");
#elif PART == 1
	small<Tab<60, 3, 4, 1, 5, 3, 4>, 1>("60/3/4"); small<Tab<90, 2, 3, 1, 4, 3, 7>, 1>("90/2/3"); small<Tab<60, 1, 2, 1, 3, 2, 2>, 0>("60/1/2");
#elif PART == 2
	small<Tab<30, 2, 3, 1, 4, 1, 2>, 0>("30/2/3"); small<Tab<30, 2, 3, 1, 2, 2, 6>, 1>("30/2/3b"); small<Tab<30, 2, 2, 1, 5, 1, 8>, 1>("30/2/2");
#elif PART == 3
	small<Tab<30, 4, 6, 3, 4, 2, 5>, 1>("30/4/6"); small<Tab<60, 2, 4, 2, 3, 2, 9>, 0>("60/2/4"); small<Tab<30, 3, 5, 1, 6, 2, 11>, 2>("30/3/5"); small<Tab<60, 5, 3, 3, 3, 3, 10>, 1>("60/5/3");
#elif PART == 5
	// checks with 30 links, repeated words first and last
	small<Tab<30, 2, 26, 25, 2, 6, 2>, 1>("30/2/26"); small<Tab<30, 2, 26, 1, 6, 2, 4>, 0>("30/2/26b");
#elif PART == 4
	large<DVB_T2_TABLE_B7, 1>("B7"); large<DVB_T2_TABLE_A1, 1>("A1"); large<DVB_T2_TABLE_A3, 1>("A3"); large<DVB_T2_TABLE_A6, 1>("A6");
#endif
}
