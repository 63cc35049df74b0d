// C29: results never depend on an object's history, on what its memory held, or on other objects.
#include "machines.hh"
#include <chrono>
struct Hist {
	Mach m; std::vector<By> ref; Args a; By r; int shade = 0;
	Hist(const Mach &m) : m(m) { for (int k = 0; k < m.ops; ++k) ref.push_back(alone(k)); }
	By alone(int k) { Room o(m.size, 0); m.make(o.p); By v; step(o.p, k); v = r; m.destroy(o.p); return v; }
	void step(void *o, int k)
	{
		static const int shades[4] = {0, 255, 0x5a, 1};
		a.clear(); m.prep(k, a); paint(shades[shade++ & 3]); m.exec(o, k, a); ++transitions;
		std::string s = a.intact(); MC_CHECK(s.empty(), "%s operation %d: %s", m.name.c_str(), k, s.c_str()); a.result(r);
	}
	std::string diff(const By &x, const By &y) { size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i; return fmt("result byte %d of %d is %#x, a new object gives %#x", (int)i, (int)y.size(), i < x.size() ? x[i] : -1, i < y.size() ? y[i] : -1); }
	// reachable object states, from several contents of the memory the object is created in; every state tried with every operation
	void closure(int limit)
	{
		struct St { By b; std::vector<int> path; int fill; }; std::vector<St> all; std::unordered_map<std::string, int> seen;
		auto add = [&](u8 *p, const std::vector<int> &path, int fill) { std::string key((char *)p, m.size); if (seen.emplace(key, 0).second) { all.push_back({By(p, p + m.size), path, fill}); ++states; } };
		Room o(m.size, 0);
		for (int fill : {0, 255, 0xa5, -1}) { for (size_t i = 0; i < m.size; ++i) o.p[i] = fill < 0 ? (u8)(i * 37 + 11) : fill; m.make(o.p); add(o.p, {}, fill); }
		size_t i = 0;
		for (; i < all.size() && (int)i < limit; ++i) for (int k = 0; k < m.ops; ++k) {
			memcpy(o.p, all[i].b.data(), m.size); step(o.p, k); auto path = all[i].path; path.push_back(k);
			MC_CHECK(r == ref[k], "%s created in memory filled with %#x after operations %s: %s", m.name.c_str(), all[i].fill, str(path).c_str(), diff(r, ref[k]).c_str());
			add(o.p, path, all[i].fill);
		}
		MC_SAMPLE("%s: %d object states reached, %s", m.name.c_str(), (int)all.size(), i == all.size() ? "closed under every operation" : "bound reached"); ++traces;
	}
	void sequences(int depth)
	{
		tuples(depth, m.ops, [&](const int *t) { Room o(m.size, 0xa5); m.make(o.p); for (int i = 0; i < depth; ++i) { step(o.p, t[i]); MC_CHECK(r == ref[t[i]], "%s operation %d of %s: %s", m.name.c_str(), i, str(t, depth).c_str(), diff(r, ref[t[i]]).c_str()); } m.destroy(o.p); ++traces; ++states; });
	}
	// one object used for every succession of order calls (de Bruijn sequence)
	void marathon(int order)
	{
		std::vector<int> seq, w(order * m.ops + order, 0); int k = m.ops, n = order;
		std::function<void(int, int)> db = [&](int t, int p) { if (t > n) { if (n % p == 0) for (int j = 1; j <= p; ++j) seq.push_back(w[j]); } else { w[t] = w[t - p]; db(t + 1, p); for (int j = w[t - p] + 1; j < k; ++j) { w[t] = j; db(t + 1, t); } } };
		db(1, 1); Room o(m.size, 0x3c); m.make(o.p); std::vector<int> last;
		for (size_t i = 0; i < seq.size() + order; ++i) { int q = seq[i % seq.size()]; last.push_back(q); step(o.p, q); MC_CHECK(r == ref[q], "%s call %d, the last ones being %s: %s", m.name.c_str(), (int)i, str(std::vector<int>(last.end() - std::min<size_t>(8, last.size()), last.end())).c_str(), diff(r, ref[q]).c_str()); }
		m.destroy(o.p); ++traces;
	}
	// the same calls with their buffers at every place within 64 bytes their types allow
	void placement(int calls, int step_)
	{
		Room o(m.size, 0x69), far(m.size + 64, 0x96); u8 *at = far.p; m.make(o.p);
		for (size_t d = m.align; d <= 64; d *= 2) if (at == far.p) at += d;   // another object at the least aligned place its type allows
		m.make(at);
		for (int k = 0; k < std::min(calls, m.more); ++k) {
			auto run = [&](int al) { u8 *p = al % 2 ? at : o.p; Args::align() = al; if (m.stream) { m.destroy(p); m.make(p); } a.clear(); m.prep(k, a); m.exec(p, k, a); ++transitions; std::string s = a.intact(); MC_CHECK(s.empty(), "%s operation %d, buffers %d bytes past a multiple of 64: %s", m.name.c_str(), k, al % 64, s.c_str()); a.result(r); };
			run(64); By want = r;
			for (int al = 1; al < 64; al += al < 4 ? 1 : step_) { run(al); ++states; MC_CHECK(r == want, "%s operation %d, buffers %d bytes past a multiple of 64: %s (at a multiple of 64)", m.name.c_str(), k, al, diff(r, want).c_str()); }
		}
		Args::align() = 64; m.destroy(o.p); m.destroy(at); ++traces;
	}
	// one object used very often: counters that wrap
	void endurance(double seconds)
	{
		Room o(m.size, 0xc3); m.make(o.p); u64 i = 0; auto t0 = std::chrono::steady_clock::now(); bool late = false;
		auto call = [&](int k) {
			a.clear(); m.prep(k, a); m.exec(o.p, k, a); ++transitions; a.result(r);
			MC_CHECK(r == ref[k], "%s call %llu of a long life (operation %d): %s", m.name.c_str(), (unsigned long long)i, k, diff(r, ref[k]).c_str());
			if (++i % 64 == 0) late = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds;
		};
		// every operation, then another one often enough for whatever the first left behind to come around (8 bit, 16 bit counters)
		for (int x = 0; x < m.ops; ++x) for (int d = 1; d < m.ops || d == 1; ++d) { call(x); for (int j = 0; j < 257; ++j) call((x + d) % m.ops); if (late && x) break; }
		int runs = 0;
		for (int d = 1; (d < m.ops || d == 1) && !late; ++d) for (int x = 0; x < m.ops && !late; ++x) { call(x); for (int j = 0; j < 65537 && !late; ++j) call((x + d) % m.ops); runs += !late; }
		m.destroy(o.p); ++traces; MC_SAMPLE("%s: %llu calls on one object, %d runs of 65537 equal calls", m.name.c_str(), (unsigned long long)i, runs);
	}
};
// two objects: every interleaving of create, two calls, destroy with the same of another object
static void neighbours(const Mach &x, const Mach &y, int variants)
{
	for (int v = 0; v < variants; ++v) {
		int ox[2] = {v % x.ops, (v / 2 + 1) % x.ops}, oy[2] = {(v + 1) % y.ops, v / 3 % y.ops};
		auto play = [&](const int *who, std::vector<By> &res) {
			const Mach *ms[2] = {&x, &y}; Room r0(x.size, 0x11), r1(y.size, 0x77); Room *rs[2] = {&r0, &r1}; int at[2] = {0, 0};
			for (int i = 0; i < 8; ++i) { int w = who[i]; if (w < 0) continue; const Mach &m = *ms[w]; int e = at[w]++; if (e == 0) m.make(rs[w]->p); else if (e == 3) m.destroy(rs[w]->p); else { Args a; int k = (w ? oy : ox)[e - 1]; m.prep(k, a); m.exec(rs[w]->p, k, a); ++transitions; a.result(res[w * 2 + e - 1]); } }
		};
		std::vector<By> base(4), got(4); int s0[8] = {0, 0, 0, 0, -1, -1, -1, -1}, s1[8] = {1, 1, 1, 1, -1, -1, -1, -1}; play(s0, base); play(s1, base);
		subsets(8, 4, [&](const int *c) { int who[8] = {1, 1, 1, 1, 1, 1, 1, 1}; for (int i = 0; i < 4; ++i) who[c[i]] = 0; play(who, got); ++states; for (int i = 0; i < 4; ++i) MC_CHECK(got[i] == base[i], "%s and %s, order of events %s, operations %d %d / %d %d: call %d of the %s gives another result than alone", x.name.c_str(), y.name.c_str(), str(who, 8).c_str(), ox[0], ox[1], oy[0], oy[1], i & 1, i < 2 ? "first" : "second"); });
	}
	++traces;
}
void mc_register()
{
	static Machs m; bool big = false; double cost = 1;
#if PART == 0
	rs_all(m, 0);
#elif PART == 1
	rs_all(m, 1);
#elif PART == 2
	short_all(m);
#elif PART == 3
	polar_all(m, 0);
#elif PART == 4
	polar_all(m, 1);
#elif PART == 5
	polar_all(m, 2);
#elif PART == 6
	ldpc_all(m, 0);
#elif PART == 7
	ldpc_all(m, 1); big = true;
#elif PART == 8
	ldpc_all(m, 2); big = true;
#elif PART == 9
	misc_all(m);
#elif defined(MACH_UTIL)
	util_all(m);
#else
	big_all(m); big = true;
#endif
	(void)cost;
	for (auto &x : m) {
		job(x.name + " placement", [&x, big] { Hist(x).placement(big ? 4 : thorough ? 1000 : 24, big ? 5 : 1); });
		if (!x.stream) {
			job(x.name + " reachable states", [&x, big] { Hist(x).closure(big ? 8 : thorough ? 2000 : 200); });
			job(x.name + " sequences", [&x, big] { Hist(x).sequences(big ? thorough ? 3 : 2 : thorough ? 4 : 3); });
			if (!big) job(x.name + " endurance", [&x] { Hist(x).endurance(thorough ? 120 : 5); });
			job(x.name + " marathon", [&x, big] { Hist(x).marathon(big ? 2 : thorough ? 5 : 4); });
		}
		if (!big) job(x.name + " neighbours", [&x] { for (auto &y : m) neighbours(x, y, thorough ? 12 : 2); });
		else job(x.name + " neighbours", [&x] { neighbours(x, x, 1); });
	}
}
