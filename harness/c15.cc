// C15: BCH encoders (packed and reference) and decoding of every pattern inside the design distance.
#include "rs_encode.hh"
#include "rs_decode.hh"
void explore(RS &c) {}
void mc_register()
{
	std::vector<std::pair<const char *, void (*)(RS &)>> H_ = {{"encode ", encode_explore}, {"decode ", decode_explore}};
	std::vector<std::pair<const char *, void (*)(RS &)>> P_ = {{"all position pairs ", pairs_full}};
	(void)P_;
#if PART == 0
	bchs<3, 11, u8, 1, 1>(H_); bchs<3, 11, u8, 2, 1>(H_); bchs<3, 13, u8, 3, 0>(H_); bchs<3, 13, u8, 4, 1>(H_); bchs<3, 11, u8, 2, 3>(H_);
	bchs<4, 19, u8, 1, 0>(H_); bchs<4, 19, u8, 2, 1>(H_); bchs<4, 19, u8, 4, 1>(H_); bchs<4, 25, u8, 6, 1>(H_); bchs<4, 19, u16, 5, 0>(H_); bchs<4, 19, u8, 2, 3>(H_); bchs<4, 25, u8, 3, 1>(H_);
#elif PART == 1
	bchs<5, 37, u8, 2, 1>(H_); bchs<5, 37, u8, 4, 1>(H_); bchs<5, 61, u8, 6, 1>(H_); bchs<5, 41, u8, 5, 0>(H_); bchs<5, 47, u8, 10, 1>(H_, false); bchs<5, 55, u8, 3, 14>(H_);
	bchs<6, 67, u8, 4, 1>(H_); bchs<6, 91, u8, 6, 1>(H_); bchs<6, 103, u8, 3, 0>(H_); bchs<6, 115, u8, 10, 1>(H_, false);
#elif PART == 2
	bchs<7, 137, u8, 4, 1>(H_); bchs<7, 253, u8, 6, 1>(H_, false); bchs<7, 131, u8, 14, 1>(H_, false);
	bchs<8, 285, u8, 2, 1>(H_); bchs<8, 285, u8, 4, 1>(H_, false); bchs<8, 299, u8, 6, 1>(H_, false); bchs<8, 391, u8, 3, 0>(H_, false); bchs<8, 285, u8, 16, 1>(H_); bchs<8, 501, u8, 42, 1>(H_, false);
#elif PART == 3
	bchs<9, 529, u16, 4, 1>(H_, false); bchs<10, 1033, u16, 6, 1>(H_, false); bchs<11, 2053, u16, 8, 1>(H_, false); bchs<16, 65581, u16, 4, 1>(H_, false);
	bchs<8, 285, u8, 4, 1>(P_); bchs<8, 301, u8, 4, 1>(P_, false); bchs<8, 299, u8, 4, 0>(P_, false); bchs<7, 191, u8, 4, 1>(P_, false); bchs<7, 131, u8, 4, 1>(P_); bchs<6, 91, u8, 4, 1>(P_, false); bchs<6, 67, u8, 4, 1>(P_, false); bchs<9, 529, u16, 4, 1>(P_, false);
#elif PART == 4
	std::vector<std::pair<const char *, void (*)(RS &)>> W_ = {{"many roots ", wide_decode}, {"encode ", encode_explore}};
	bchs<8, 285, u8, 60, 0>(W_); bchs<9, 529, u16, 100, 1>(W_, false); bchs<10, 1033, u16, 300, 1>(W_, false); bchs<12, 4179, u16, 200, 1>(W_, false); bchs<16, 65581, u16, 24, 1>({{"many roots ", wide_decode}}, false);
#endif
}
