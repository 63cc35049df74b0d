#include "mc.hh"
#include "permute.hh"
#include "interleave.hh"
using namespace mc;
static u32 xs(u32 &y) { y ^= y << 13; y ^= y >> 17; y ^= y << 5; return y; }
template <typename T> T tag(int i) { return (T)i; }
struct Big { int a; char pad[20]; bool operator==(const Big &o) const { return a == o.a; } };
template <> Big tag<Big>(int i) { Big b; b.a = i; memset(b.pad, i, sizeof b.pad); return b; }
template <int SIZE, typename T> void shuffle_one()
{
	std::vector<int> want(SIZE); for (int i = 0; i < SIZE; ++i) want[i] = i;
	u32 y = 2463534242u;
	for (int i = 0; i < SIZE - 1; ++i) std::swap(want[i], want[i + xs(y) % (SIZE - i)]);
	std::vector<T> a(SIZE + 2);
	auto fill = [&]() { a[0] = tag<T>(91); a[SIZE + 1] = tag<T>(92); for (int i = 0; i < SIZE; ++i) a[i + 1] = tag<T>(i); };
	CODE::FisherYatesShuffle<SIZE> f; CODE::ReverseFisherYatesShuffle<SIZE> r;
	auto check = [&](auto w, const char *what) { ++transitions; for (int i = 0; i < SIZE; ++i) MC_CHECK(a[i + 1] == tag<T>(w(i)), "size %d %s: element %d wrong", SIZE, what, i); MC_CHECK(a[0] == tag<T>(91) && a[SIZE + 1] == tag<T>(92), "size %d %s: wrote outside", SIZE, what); };
	for (int rep = 0; rep < 3; ++rep) {
		++states; ++traces;
		fill(); f(a.data() + 1); check([&](int i) { return want[i]; }, rep ? "repeated shuffle" : "shuffle");
		r(a.data() + 1); check([&](int i) { return i; }, "shuffle then unshuffle");
		r(a.data() + 1); std::vector<int> inv(SIZE); for (int i = 0; i < SIZE; ++i) inv[want[i]] = i;
		check([&](int i) { return inv[i]; }, "unshuffle alone");
		f(a.data() + 1); check([&](int i) { return i; }, "unshuffle then shuffle");
		// twice forward, twice backward
		f(a.data() + 1); f(a.data() + 1); check([&](int i) { return want[want[i]]; }, "shuffle twice");
		r(a.data() + 1); r(a.data() + 1); check([&](int i) { return i; }, "two there and two back");
		CODE::Xorshift32 other; other(); other.reset(1);
	}
	{ CODE::FisherYatesShuffle<SIZE> f2; CODE::ReverseFisherYatesShuffle<SIZE> r2; fill(); f2(a.data() + 1); check([&](int i) { return want[i]; }, "second object"); r2(a.data() + 1); check([&](int i) { return i; }, "second object back"); }
}
template <int SIZE> void shuffle() { shuffle_one<SIZE, int>(); if (SIZE <= 256) shuffle_one<SIZE, u8>(); shuffle_one<SIZE, Big>(); shuffle_one<SIZE, double>(); }
template <int K, typename T> void reversal()
{
	const int SIZE = 1 << K;
	std::vector<T> a(SIZE + 2);
	for (int i = 0; i < SIZE + 2; ++i) a[i] = tag<T>(i);
	auto rev = [](int i) { int r = 0; for (int b = 0; b < K; ++b) if (i >> b & 1) r |= 1 << (K - 1 - b); return r; };
	CODE::BitReversalPermute<SIZE>(a.data() + 1); ++states; ++transitions; ++traces;
	for (int i = 0; i < SIZE; ++i) MC_CHECK(a[i + 1] == tag<T>(rev(i) + 1), "bit reversal size %d: element %d wrong", SIZE, i);
	MC_CHECK(a[0] == tag<T>(0) && a[SIZE + 1] == tag<T>(SIZE + 1), "bit reversal size %d wrote outside", SIZE);
	CODE::BitReversalPermute<SIZE>(a.data() + 1); ++transitions;
	for (int i = 0; i < SIZE; ++i) MC_CHECK(a[i + 1] == tag<T>(i + 1), "bit reversal size %d is not an involution at %d", SIZE, i);
}
template <int SIZE, int ORDER, typename T> void inter_one()
{
	const int L = SIZE / ORDER;
	std::vector<T> in(SIZE), out(SIZE + 2, tag<T>(77)), back(SIZE + 2, tag<T>(78));
	for (int i = 0; i < SIZE; ++i) in[i] = tag<T>(i);
	std::vector<T> copy(in);
	CODE::Interleave<SIZE, ORDER>(out.data() + 1, (const T *)in.data()); ++states; ++transitions; ++traces;
	for (int i = 0; i < L; ++i) for (int j = 0; j < ORDER; ++j) MC_CHECK(out[1 + ORDER * i + j] == in[i + j * L], "interleave %d order %d: element %d wrong", SIZE, ORDER, ORDER * i + j);
	MC_CHECK(out[0] == tag<T>(77) && out[SIZE + 1] == tag<T>(77) && in == copy, "interleave %d order %d: wrote outside", SIZE, ORDER);
	CODE::Deinterleave<SIZE, ORDER>(back.data() + 1, (const T *)out.data() + 1); ++transitions;
	for (int i = 0; i < SIZE; ++i) MC_CHECK(back[1 + i] == in[i], "deinterleave %d order %d: element %d wrong", SIZE, ORDER, i);
	MC_CHECK(back[0] == tag<T>(78) && back[SIZE + 1] == tag<T>(78), "deinterleave %d order %d: wrote outside", SIZE, ORDER);
	// the other way round
	CODE::Deinterleave<SIZE, ORDER>(back.data() + 1, (const T *)in.data()); CODE::Interleave<SIZE, ORDER>(out.data() + 1, (const T *)back.data() + 1); transitions += 2;
	for (int i = 0; i < SIZE; ++i) MC_CHECK(out[1 + i] == in[i], "interleave after deinterleave %d order %d: element %d wrong", SIZE, ORDER, i);
}
template <int SIZE, int ORDER> void inter() { if constexpr (SIZE % ORDER == 0) { inter_one<SIZE, ORDER, int>(); inter_one<SIZE, ORDER, Big>(); if (SIZE < 256) inter_one<SIZE, ORDER, u8>(); } }
template <int SIZE, int... O> void inters(std::integer_sequence<int, O...>) { (inter<SIZE, O + 1>(), ...); }
template <int B, int... S> void small(std::integer_sequence<int, S...>) { (job(fmt("shuffle%03d", S + B), shuffle<S + B>), ...); }
template <int B, int... S> void smalli(std::integer_sequence<int, S...>) { (job(fmt("interleave%03d", S + B), []() { inters<S + B>(std::make_integer_sequence<int, S + B>()); }), ...); }
template <int... K> void revs(std::integer_sequence<int, K...>) { (job(fmt("reversal%02d", K), []() { reversal<K, int>(); reversal<K, Big>(); reversal<K, float>(); }), ...); }
void mc_register()
{
#if PART == 0
	small<1>(std::make_integer_sequence<int, 20>());
#elif PART == 4
	small<21>(std::make_integer_sequence<int, 20>());
#elif PART == 5
	smalli<1>(std::make_integer_sequence<int, 26>());
#elif PART == 6
	smalli<34>(std::make_integer_sequence<int, 7>());
#elif PART == 1
	job("shuffle64", shuffle<64>); job("shuffle63", shuffle<63>); job("shuffle65", shuffle<65>); job("shuffle100", shuffle<100>); job("shuffle127", shuffle<127>); job("shuffle128", shuffle<128>); job("shuffle255", shuffle<255>); job("shuffle256", shuffle<256>); job("shuffle257", shuffle<257>);
	job("shuffle1000", shuffle<1000>); job("shuffle1024", shuffle<1024>); job("shuffle4095", shuffle<4095>); job("shuffle32768", shuffle<32768>); job("shuffle65536", shuffle<65536>); job("shuffle100000", shuffle<100000>);
	revs(std::make_integer_sequence<int, 20>());
#elif PART == 2
	smalli<27>(std::make_integer_sequence<int, 7>());
#elif PART == 3
	job("i64", []() { inters<64>(std::make_integer_sequence<int, 64>()); }); job("i96", []() { inters<96>(std::make_integer_sequence<int, 96>()); }); job("i100", []() { inters<100>(std::make_integer_sequence<int, 100>()); }); job("i128", []() { inters<128>(std::make_integer_sequence<int, 128>()); });
	job("ibig", []() { inter<1024, 2>(); inter<1024, 32>(); inter<1024, 512>(); inter<65536, 16>(); inter<65536, 256>(); inter<65536, 4096>(); inter<64800, 3>(); inter<64800, 90>(); inter<64800, 360>(); inter<16200, 45>(); inter<99999, 9>(); inter<99999, 11111>(); });
#endif
}
