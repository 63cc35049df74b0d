// Bounded-exhaustive exploration support: job registry, counters, deterministic failure reports.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <array>
#include <numeric>
#include <tuple>
#include <type_traits>

#ifndef PART
#define PART 0
#endif

namespace mc {

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef int64_t i64; typedef int32_t i32; typedef int16_t i16; typedef int8_t i8;

struct Job { std::string name; int tier; std::function<void()> fn; };
inline std::vector<Job> &jobs() { static std::vector<Job> j; return j; }
inline void job(const std::string &name, std::function<void()> fn, int tier = 0) { jobs().push_back({name, tier, fn}); }

// states: distinct configurations/states visited; transitions: implementation calls whose outcome was
// compared with the model; traces: complete histories run through the implementation.
inline u64 states, transitions, traces;
inline bool thorough;
inline std::vector<std::string> samples;
inline u64 digest_ = 1469598103934665603ull; inline bool has_digest;
inline const char *current = "";

inline std::string fmt(const char *f, ...)
{
	char buf[4096];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	return buf;
}
inline void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s); }
#define MC_SAMPLE(...) do { if (mc::samples.size() < 3) mc::sample(mc::fmt(__VA_ARGS__)); } while (0)

inline void digest(const void *p, size_t n)
{
	has_digest = true;
	const u8 *b = (const u8 *)p;
	for (size_t i = 0; i < n; ++i) { digest_ ^= b[i]; digest_ *= 1099511628211ull; }
}
inline void emit()
{
	printf("MCSTAT %llu %llu %llu\n", (unsigned long long)states, (unsigned long long)transitions, (unsigned long long)traces);
	if (has_digest) printf("MCDIGEST %016llx\n", (unsigned long long)digest_);
	for (auto &s : samples) {
		std::string t = s; for (auto &c : t) if (c == '\n') c = ' ';
		printf("MCSAMPLE %s\n", t.c_str());
	}
}
[[noreturn]] inline void fail(const std::string &key, const std::string &msg)
{
	std::string t = msg; for (auto &c : t) if (c == '\n') c = ' ';
	printf("MCFAIL %s | %s\n", key.c_str(), t.c_str());
	emit();
	fflush(stdout);
	_Exit(10);
}
// MC_CHECK(cond, format...): a failed check ends the job
#define MC_CHECK(cond, ...) do { if (__builtin_expect(!(cond), 0)) mc::fail(mc::current, mc::fmt(__VA_ARGS__)); } while (0)

template <typename T> std::string str(const T *a, int n, int max = 64)
{
	std::ostringstream o; o << "[";
	for (int i = 0; i < n && i < max; ++i) { if (i) o << " "; o << +a[i]; }
	if (n > max) o << " ...";
	o << "]"; return o.str();
}
template <typename T> std::string str(const std::vector<T> &a, int max = 64) { return str(a.data(), (int)a.size(), max); }
inline std::string hex(const u8 *a, int n, int max = 48)
{
	std::string s; for (int i = 0; i < n && i < max; ++i) s += fmt("%02x", a[i]);
	if (n > max) s += "..."; return s;
}

// keeps the optimiser from proving a comparison away: the real call is executed
template <typename T> inline T opaque(T v) { asm volatile("" : "+r"(v)); return v; }

// deterministic filler for "arbitrary" base contents (not used to choose which cases are explored)
struct Fill { u64 s; explicit Fill(u64 s = 1) : s(s * 0x9E3779B97F4A7C15ull + 1) {}
	u64 operator()() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull >> 8; }
	u64 operator()(u64 n) { return (*this)() % n; } };

// all k-subsets of {0..n-1}, lexicographic; f(const int*) returns void
template <typename F> void subsets(int n, int k, F f)
{
	if (k > n) return;
	std::vector<int> c(k + 1);
	for (int i = 0; i < k; ++i) c[i] = i;
	for (;;) {
		f((const int *)c.data());
		int i = k - 1;
		while (i >= 0 && c[i] == n - k + i) --i;
		if (i < 0) return;
		++c[i];
		for (int j = i + 1; j < k; ++j) c[j] = c[j - 1] + 1;
	}
}
// all tuples in base b of length n
template <typename F> void tuples(int n, int b, F f)
{
	std::vector<int> c(n + 1, 0);
	for (;;) {
		f((const int *)c.data());
		int i = n - 1;
		while (i >= 0 && c[i] == b - 1) c[i--] = 0;
		if (i < 0) return;
		++c[i];
	}
}
template <typename F> void permutations(int n, F f)
{
	std::vector<int> c(n); for (int i = 0; i < n; ++i) c[i] = i;
	do f((const int *)c.data()); while (std::next_permutation(c.begin(), c.end()));
}
inline u64 binom(int n, int k) { u64 r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
}

void mc_register();

int main(int argc, char **argv)
{
	std::string name; bool list = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--list") list = true;
		else if (a == "--thorough") mc::thorough = true;
		else if (a == "--job" && i + 1 < argc) name = argv[++i];
	}
	mc_register();
	if (list) {
		for (auto &j : mc::jobs())
			if (j.tier == 0 || mc::thorough) printf("%s\n", j.name.c_str());
		return 0;
	}
	for (auto &j : mc::jobs())
		if (j.name == name) {
			mc::current = j.name.c_str();
			j.fn();
			mc::emit();
			printf("MCDONE\n");
			fflush(stdout);
			return 0;
		}
	fprintf(stderr, "no such job\n");
	return 3;
}
