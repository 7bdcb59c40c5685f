// Polar list decoding
#include "polarlist.hh"
#include "polar_list_decoder.hh"

namespace {

template <typename TYPE, int MAX>
void decode(G &g, int level)
{
	typedef typename TYPE::value_type V;
	bool last = g.chance(7, 8);
	int most = g.chance(1, 4) ? 7 : 1 << 30;
	Frozen z(frozen_set(g, level, 1, most, last));
	Roles roles(z);
	std::vector<char> sent(message_bits(g, z.k));
	bool noiseless;
	std::vector<int> soft(soft_code(g, transform(roles.place(sent)), sizeof(V) == 1, noiseless));
	Buf<V> code(z.n);
	// the unit of floating point values is free
	V unit = (V)(sizeof(V) > 1 && g.flip() ? std::ldexp(1., (int)g.range(0, 90) - 30) : 1.);
	for (int i = 0; i < z.n; ++i)
		code[i] = (V)soft[i] * unit;
	Buf<TYPE> message(z.k, 0x5a);
	Buf<int> rank(TYPE::SIZE);
	bool ranked = g.chance(7, 8);
	g.note("%s x %d, level %d, %d left, soft %d %d.. times %g", sizeof(V) == 1 ? "int8" : "float", TYPE::SIZE, level, z.k, soft[0], soft[1], (double)unit);
	keep<CODE::PolarListDecoder<TYPE, MAX>>()(ranked ? rank.get() : nullptr, message.get(), (const V *)code.get(), z.bits.data(), level);
	message.check("message");
	rank.check("rank");
	for (int i = 0; i < z.n; ++i)
		CHECK(code[i] == (V)soft[i] * unit, "decoder changed its input");
	judge(g, z, roles, soft, noiseless, sent, message, ranked ? rank.get() : nullptr);
}

}

PROP(floats, 240000, 1920000)
{
	int level = g.chance(1, 20) ? (int)g.range(8, 9) : (int)g.range(5, 7);
	switch (g.draw(4)) {
	case 0: decode<SIMD<float, 4>, 10>(g, level); break;
	case 1: decode<SIMD<float, 8>, 10>(g, level); break;
	case 2: decode<SIMD<float, 16>, 10>(g, level); break;
	case 3: decode<SIMD<float, 32>, 10>(g, level); break;
	default: decode<SIMD<float, 8>, 5>(g, 5);
	}
}

PROP(bytes, 320000, 2560000)
{
	int level = g.chance(1, 20) ? (int)g.range(8, 9) : (int)g.range(5, 7);
	switch (g.draw(3)) {
	case 0: decode<SIMD<int8_t, 16>, 10>(g, level); break;
	case 1: decode<SIMD<int8_t, 32>, 10>(g, level); break;
	case 2: decode<SIMD<int8_t, 8>, 10>(g, level); break;
	default: decode<SIMD<int8_t, 32>, 5>(g, 5);
	}
}

PROP(long_codes, 1280, 10240)
{
	int level = (int)g.range(10, 13);
	if (g.flip())
		decode<SIMD<int8_t, 32>, 13>(g, level);
	else
		decode<SIMD<float, 8>, 13>(g, level);
}

PROP(longest_codes, 60, 480)
{
	int level = (int)g.range(14, 16);
	if (g.chance(1, 3))
		decode<SIMD<int8_t, 32>, 16>(g, level);
	else
		decode<SIMD<float, 8>, 16>(g, level);
}
