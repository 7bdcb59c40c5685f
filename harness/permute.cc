// Permutations and interleavers: each is undone by its inverse and moves every element where it is documented to go
#include "pbt.hh"
#include "permute.hh"
#include "interleave.hh"

namespace {

using pbt::G;
using pbt::Buf;

struct Wide { uint64_t a; uint8_t b; bool operator==(const Wide &o) const { return a == o.a && b == o.b; } };

template <typename T> T make(uint64_t v) { return T(v); }
template <> Wide make<Wide>(uint64_t v) { return Wide{ v, uint8_t(v * 7) }; }

// the sequence both sides of a transmission have to agree on
template <int SIZE>
const std::vector<int> &fisher_yates()
{
	static std::vector<int> map;
	if (map.empty()) {
		uint32_t y = 2463534242u;
		for (int i = 0; i < SIZE; ++i)
			map.push_back(i);
		for (int i = 0; i < SIZE - 1; ++i) {
			y ^= y << 13;
			y ^= y >> 17;
			y ^= y << 5;
			int j = i + (int)(y % uint32_t(SIZE - i));
			int t = map[i];
			map[i] = map[j];
			map[j] = t;
		}
	}
	return map;
}

template <int SIZE, typename T>
void shuffle(G &g)
{
	Buf<T> a(SIZE), b(SIZE);
	pbt::Rng r(g.bulk());
	for (int i = 0; i < SIZE; ++i)
		b[i] = a[i] = make<T>(r.next());
	std::vector<T> orig(a.begin(), a.end());
	pbt::Fresh<CODE::FisherYatesShuffle<SIZE>> fwd(g);
	pbt::Fresh<CODE::ReverseFisherYatesShuffle<SIZE>> rev(g);
	const std::vector<int> &map = fisher_yates<SIZE>();
	int times = (int)g.range(1, 3);
	g.note("shuffle %d elements of %d bytes %d times", SIZE, (int)sizeof(T), times);
	for (int k = 0; k < times; ++k) {
		std::vector<T> before(a.begin(), a.end());
		(*fwd)(a.get());
		for (int i = 0; i < SIZE; ++i)
			CHECK(a[i] == before[map[i]], "shuffle of %d: place %d does not hold element %d", SIZE, i, map[i]);
		a.check("shuffled array");
	}
	for (int k = 0; k < times; ++k)
		(*rev)(a.get());
	for (int i = 0; i < SIZE; ++i)
		CHECK(a[i] == orig[i], "shuffle of %d is not undone at %d", SIZE, i);
	(*rev)(b.get());
	(*fwd)(b.get());
	for (int i = 0; i < SIZE; ++i)
		CHECK(b[i] == orig[i], "reverse shuffle of %d is not undone at %d", SIZE, i);
	a.check("array");
	b.check("array");
	if (SIZE > 2)
		g.nontrivial();
}

template <int SIZE>
void shuffles(G &g)
{
	switch (g.draw(3)) {
	case 0: return shuffle<SIZE, int>(g);
	case 1: return shuffle<SIZE, int8_t>(g);
	case 2: return shuffle<SIZE, double>(g);
	default: return shuffle<SIZE, Wide>(g);
	}
}

PROP(shuffle, 60000, 500000)
{
	switch (g.draw(13)) {
	case 0: return shuffles<2>(g);
	case 1: return shuffles<3>(g);
	case 2: return shuffles<4>(g);
	case 3: return shuffles<5>(g);
	case 4: return shuffles<7>(g);
	case 5: return shuffles<16>(g);
	case 6: return shuffles<31>(g);
	case 7: return shuffles<64>(g);
	case 8: return shuffles<100>(g);
	case 9: return shuffles<255>(g);
	case 10: return shuffles<256>(g);
	case 11: return shuffles<1000>(g);
	case 12: return shuffles<1024>(g);
	default: return shuffles<4099>(g);
	}
}

template <int SIZE, typename T>
void reversal(G &g)
{
	Buf<T> a(SIZE);
	pbt::Rng r(g.bulk());
	for (int i = 0; i < SIZE; ++i)
		a[i] = make<T>(r.next());
	std::vector<T> orig(a.begin(), a.end());
	CODE::BitReversalPermute<SIZE>(a.get());
	int bits = 0;
	while ((1 << bits) < SIZE)
		++bits;
	for (int i = 0; i < SIZE; ++i) {
		int j = 0;
		for (int k = 0; k < bits; ++k)
			j |= ((i >> k) & 1) << (bits - 1 - k);
		CHECK(a[i] == orig[j], "bit reversal of %d: place %d does not hold element %d", SIZE, i, j);
	}
	a.check("array");
	CODE::BitReversalPermute<SIZE>(a.get());
	for (int i = 0; i < SIZE; ++i)
		CHECK(a[i] == orig[i], "bit reversal of %d is not its own inverse at %d", SIZE, i);
	g.note("bit reversal of %d elements of %d bytes", SIZE, (int)sizeof(T));
	if (SIZE > 2)
		g.nontrivial();
}

PROP(reversal, 60000, 480000)
{
	bool wide = g.flip();
	pbt::dispatch<14>((int)g.draw(13), [&](auto c) {
		const int SIZE = 1 << decltype(c)::value;
		if (wide)
			reversal<SIZE, Wide>(g);
		else
			reversal<SIZE, int8_t>(g);
	});
}

template <int SIZE, int ORDER, typename T>
void interleave(G &g)
{
	Buf<T> in(SIZE), mid(SIZE), out(SIZE);
	pbt::Rng r(g.bulk());
	for (int i = 0; i < SIZE; ++i)
		in[i] = make<T>(r.next());
	std::vector<T> orig(in.begin(), in.end());
	CODE::Interleave<SIZE, ORDER>(mid.get(), (const T *)in.get());
	// element i of block j goes to place j of group i
	for (int k = 0; k < SIZE; ++k) {
		int block = k / (SIZE / ORDER), at = k % (SIZE / ORDER);
		CHECK(mid[at * ORDER + block] == orig[k], "interleave %d by %d: element %d is not at %d", SIZE, ORDER, k, at * ORDER + block);
	}
	mid.check("interleaved array");
	CODE::Deinterleave<SIZE, ORDER>(out.get(), (const T *)mid.get());
	for (int k = 0; k < SIZE; ++k)
		CHECK(out[k] == orig[k] && in[k] == orig[k], "interleave %d by %d is not undone at %d", SIZE, ORDER, k);
	out.check("deinterleaved array");
	// and the other way around
	CODE::Deinterleave<SIZE, ORDER>(mid.get(), (const T *)in.get());
	CODE::Interleave<SIZE, ORDER>(out.get(), (const T *)mid.get());
	for (int k = 0; k < SIZE; ++k)
		CHECK(out[k] == orig[k], "deinterleave %d by %d is not undone at %d", SIZE, ORDER, k);
	g.note("interleave %d by %d, %d bytes each", SIZE, ORDER, (int)sizeof(T));
	if (ORDER > 1 && ORDER < SIZE)
		g.nontrivial();
}

template <int SIZE, int ORDER>
void interleaves(G &g)
{
	switch (g.draw(2)) {
	case 0: return interleave<SIZE, ORDER, int8_t>(g);
	case 1: return interleave<SIZE, ORDER, float>(g);
	default: return interleave<SIZE, ORDER, Wide>(g);
	}
}

PROP(interleave, 120000, 960000)
{
	switch (g.draw(13)) {
	case 0: return interleaves<1, 1>(g);
	case 1: return interleaves<6, 2>(g);
	case 2: return interleaves<6, 3>(g);
	case 3: return interleaves<6, 6>(g);
	case 4: return interleaves<6, 1>(g);
	case 5: return interleaves<60, 5>(g);
	case 6: return interleaves<60, 12>(g);
	case 7: return interleaves<64, 8>(g);
	case 8: return interleaves<64, 2>(g);
	case 9: return interleaves<1000, 10>(g);
	case 10: return interleaves<1024, 32>(g);
	case 11: return interleaves<1155, 7>(g);
	case 12: return interleaves<2048, 4>(g);
	default: return interleaves<49, 7>(g);
	}
}

// more elements than sixteen bit wide indices could tell apart
PROP(large, 400, 4000)
{
	switch (g.draw(11)) {
	case 0: return shuffle<32769, int>(g);
	case 1: return shuffle<65535, int8_t>(g);
	case 2: return shuffle<65536, int>(g);
	case 3: return shuffle<65537, int>(g);
	case 4: return shuffle<70000, Wide>(g);
	case 5: return shuffle<131072, int>(g);
	case 6: return reversal<32768, int>(g);
	case 7: return reversal<65536, int>(g);
	case 8: return reversal<131072, int>(g);
	case 9: return interleave<65536, 2, int>(g);
	case 10: return interleave<70000, 350, int>(g);
	default: return interleave<131072, 131072 / 4, int>(g);
	}
}

}
