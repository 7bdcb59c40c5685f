// Parity-aided polar coding
#include "polarlist.hh"
#include "polar_parity_aided.hh"

namespace {

template <typename TYPE>
struct Lanes
{
	static const int COUNT = 1;
	static void put(TYPE &d, int, int v) { d = (TYPE)v; }
	static int get(const TYPE &d, int) { return (int)d; }
};
template <typename T, int W>
struct Lanes<SIMD<T, W>>
{
	static const int COUNT = W;
	static void put(SIMD<T, W> &d, int k, int v) { d.v[k] = (T)v; }
	static int get(const SIMD<T, W> &d, int k) { return (int)d.v[k]; }
};

void shape(G &g, const Frozen &z, int &stride, int &first)
{
	stride = g.chance(1, 3) ? (int)g.range(0, 3) : g.chance(1, 6) ? (int)g.range(0, z.n) : (int)g.range(0, 31);
	first = g.chance(1, 4) ? 0 : g.chance(1, 6) ? (int)g.range(0, z.n) : (int)g.range(0, 31);
	if (!first && !stride)
		(g.flip() ? first : stride) = 1;
}

template <typename TYPE>
void encode(G &g, int level)
{
	typedef Lanes<TYPE> L;
	Frozen z(frozen_set(g, level));
	int stride, first;
	shape(g, z, stride, first);
	Roles roles(z, stride, first);
	Buf<TYPE> message(roles.messages), codeword(z.n);
	std::vector<std::vector<char>> msg;
	for (int c = 0; c < L::COUNT; ++c) {
		msg.push_back(message_bits(g, roles.messages));
		for (int i = 0; i < roles.messages; ++i)
			L::put(message[i], c, 1 - 2 * msg[c][i]);
	}
	g.note("encoder: level %d, %d message bits of %d, stride %d, first %d", level, roles.messages, z.k, stride, first);
	CODE::PolarParityEncoder<TYPE> enc;
	enc(codeword.get(), (const TYPE *)message.get(), z.bits.data(), level, stride, first);
	codeword.check("codeword");
	for (int c = 0; c < L::COUNT; ++c) {
		std::vector<char> want(transform(roles.place(msg[c])));
		for (int i = 0; i < z.n; ++i)
			CHECK(L::get(codeword[i], c) == 1 - 2 * want[i], "encoder, level %d, stride %d, first %d: code bit %d is %d", level, stride, first, i, L::get(codeword[i], c));
	}
	if (roles.messages && roles.messages < z.k)
		g.nontrivial();
}

template <typename TYPE, int MAX>
void decode(G &g, int level)
{
	typedef typename TYPE::value_type V;
	bool last = g.chance(7, 8);
	int most = g.chance(1, 4) ? 9 : 1 << 30;
	Frozen z(frozen_set(g, level, 2, most, last));
	int stride, first;
	shape(g, z, stride, first);
	Roles roles(z, stride, first);
	if (!roles.messages)
		return;
	std::vector<char> sent(message_bits(g, roles.messages));
	bool noiseless;
	std::vector<int> soft(soft_code(g, transform(roles.place(sent)), sizeof(V) == 1, noiseless));
	Buf<V> code(z.n);
	// the unit of floating point values is free
	V unit = (V)(sizeof(V) > 1 && g.flip() ? std::ldexp(1., (int)g.range(0, 90) - 30) : 1.);
	for (int i = 0; i < z.n; ++i)
		code[i] = (V)soft[i] * unit;
	Buf<TYPE> message(roles.messages, 0x5a);
	Buf<int> rank(TYPE::SIZE);
	bool ranked = g.chance(7, 8);
	g.note("%s x %d, level %d, %d message bits of %d, stride %d, first %d, soft %d %d.. times %g", sizeof(V) == 1 ? "int8" : "float", TYPE::SIZE, level, roles.messages, z.k, stride, first, soft[0], soft[1], (double)unit);
	keep<CODE::PolarParityDecoder<TYPE, MAX>>()(ranked ? rank.get() : nullptr, message.get(), (const V *)code.get(), z.bits.data(), level, stride, first);
	message.check("message");
	rank.check("rank");
	for (int i = 0; i < z.n; ++i)
		CHECK(code[i] == (V)soft[i] * unit, "decoder changed its input");
	g.label(roles.messages < z.k ? "with parity" : "without parity");
	judge(g, z, roles, soft, noiseless, sent, message, ranked ? rank.get() : nullptr);
}

}

PROP(encoders, 320000, 2560000)
{
	int level = (int)(g.chance(1, 30) ? g.range(10, g.chance(1, 200) ? 17 : 12) : g.range(1, 9));
	switch (g.draw(4)) {
	case 0: encode<int8_t>(g, level); break;
	case 1: encode<float>(g, level); break;
	case 2: encode<SIMD<int8_t, 16>>(g, level); break;
	case 3: encode<SIMD<float, 4>>(g, level); break;
	default: encode<SIMD<int8_t, 32>>(g, level);
	}
}

PROP(floats, 240000, 1920000)
{
	int level = g.chance(1, 20) ? (int)g.range(8, 9) : (int)g.range(5, 7);
	switch (g.draw(4)) {
	case 0: decode<SIMD<float, 4>, 10>(g, level); break;
	case 1: decode<SIMD<float, 8>, 10>(g, level); break;
	case 2: decode<SIMD<float, 16>, 10>(g, level); break;
	case 3: decode<SIMD<float, 32>, 10>(g, level); break;
	default: decode<SIMD<float, 8>, 5>(g, 5);
	}
}

PROP(bytes, 320000, 2560000)
{
	int level = g.chance(1, 20) ? (int)g.range(8, 9) : (int)g.range(5, 7);
	switch (g.draw(3)) {
	case 0: decode<SIMD<int8_t, 16>, 10>(g, level); break;
	case 1: decode<SIMD<int8_t, 32>, 10>(g, level); break;
	case 2: decode<SIMD<int8_t, 8>, 10>(g, level); break;
	default: decode<SIMD<int8_t, 32>, 5>(g, 5);
	}
}

PROP(long_codes, 1280, 10240)
{
	int level = (int)g.range(10, 13);
	if (g.flip())
		decode<SIMD<int8_t, 32>, 13>(g, level);
	else
		decode<SIMD<float, 8>, 13>(g, level);
}

PROP(longest_codes, 60, 480)
{
	int level = (int)g.range(14, 16);
	if (g.chance(1, 3))
		decode<SIMD<int8_t, 32>, 16>(g, level);
	else
		decode<SIMD<float, 8>, 16>(g, level);
}
