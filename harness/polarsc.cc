// Polar encoders and successive cancellation decoding
#include "polar.hh"
#include "polar_encoder.hh"
#include "polar_decoder.hh"

namespace {

template <typename T>
struct Lane
{
	typedef T value;
	static const int COUNT = 1;
	static void put(T &d, int, T v) { d = v; }
	static T get(const T &d, int) { return d; }
	static const char *name() { return sizeof(T) == 1 ? "int8" : sizeof(T) == 4 ? "float" : "double"; }
};
template <typename T, int W>
struct Lane<SIMD<T, W>>
{
	typedef T value;
	static const int COUNT = W;
	static void put(SIMD<T, W> &d, int k, T v) { d.v[k] = v; }
	static T get(const SIMD<T, W> &d, int k) { return d.v[k]; }
	static const char *name() { return sizeof(T) == 1 ? "int8 vector" : sizeof(T) == 4 ? "float vector" : "double vector"; }
};

template <typename TYPE>
void encode(G &g, int level)
{
	typedef Lane<TYPE> L;
	typedef typename L::value V;
	Frozen z(frozen_set(g, level));
	const int C = L::COUNT;
	bool systematic = g.flip();
	if (systematic && g.chance(3, 4)) {
		// a set a systematic encoder is for: with a position all that dominate it
		for (int h = 1; h < z.n; h *= 2)
			for (int i = 0; i < z.n; ++i)
				if ((i & h) && !z.f[i ^ h])
					z.f[i] = 0;
		z = Frozen(level, z.f, g.flip());
	}
	bool proper = true;
	for (int h = 1; h < z.n; h *= 2)
		for (int i = 0; i < z.n; ++i)
			if ((i & h) && !z.f[i ^ h] && z.f[i])
				proper = false;
	Buf<TYPE> message(z.k), codeword(z.n);
	std::vector<std::vector<char>> msg;
	for (int c = 0; c < C; ++c) {
		msg.push_back(message_bits(g, z.k));
		for (int i = 0; i < z.k; ++i)
			L::put(message[i], c, msg[c][i] ? V(-1) : V(1));
	}
	g.note("%s: level %d, %d left%s", L::name(), level, z.k, systematic ? ", systematic" : "");
	if (systematic) {
		CODE::PolarSysEnc<TYPE> enc;
		enc(codeword.get(), (const TYPE *)message.get(), z.bits.data(), level);
	} else {
		CODE::PolarEncoder<TYPE> enc;
		enc(codeword.get(), (const TYPE *)message.get(), z.bits.data(), level);
	}
	codeword.check("codeword");
	message.check("message");
	for (int c = 0; c < C; ++c) {
		std::vector<char> x(z.n);
		for (int i = 0; i < z.n; ++i) {
			V v = L::get(codeword[i], c);
			CHECK(v == 1 || v == -1, "%s, level %d: code bit %d is %g", L::name(), level, i, (double)v);
			x[i] = v < 0;
		}
		for (int i = 0; i < z.k; ++i)
			CHECK(L::get(message[i], c) == (msg[c][i] ? V(-1) : V(1)), "encoder changed the message");
		if (!systematic) {
			std::vector<char> want(transform(spread(z, msg[c])));
			for (int i = 0; i < z.n; ++i)
				CHECK(x[i] == want[i], "%s, level %d, lane %d: code bit %d is %d", L::name(), level, c, i, x[i]);
		} else {
			std::vector<char> u(transform(x));
			for (int i = 0, m = 0; i < z.n; ++i) {
				CHECK(!z.f[i] || !u[i], "%s, level %d, lane %d: not a codeword, position %d is frozen", L::name(), level, c, i);
				if (!z.f[i]) {
					CHECK(!proper || x[i] == msg[c][m], "%s, level %d, lane %d: message bit %d is not code bit %d", L::name(), level, c, m, i);
					++m;
				}
			}
		}
	}
	g.label(!systematic ? "plain encoder" : proper ? "systematic encoder" : "systematic encoder, other set");
	if (z.k > 1)
		g.nontrivial();
}

// one codeword, decided position by position
template <typename V>
struct Plain
{
	const Frozen &z;
	std::vector<char> msg;
	bool tie = false;
	static V add(V a, V b)
	{
		if (sizeof(V) == 1)
			return V(std::min(127, std::max(-127, (int)a + (int)b)));
		return a + b;
	}
	explicit Plain(const Frozen &z) : z(z) {}
	// off: how much the values may be off, -128 counts as itself or as -127
	std::vector<char> decode(const std::vector<V> &soft, int at, const std::vector<int> &off)
	{
		int n = (int)soft.size();
		if (n == 1) {
			if (z.f[at])
				return std::vector<char>(1, 0);
			if (off.size() ? std::abs((int)soft[0]) <= off[0] : soft[0] == 0)
				tie = true;
			msg.push_back(soft[0] < 0);
			return std::vector<char>(1, soft[0] < 0);
		}
		std::vector<V> half(n / 2);
		std::vector<int> sub(off.size() / 2);
		for (int i = 0; i < (int)sub.size(); ++i)
			sub[i] = std::max(off[i], off[i + n / 2]);
		for (int i = 0; i < n / 2; ++i) {
			V a = soft[i], b = soft[i + n / 2], c = a < 0 ? -a : a, d = b < 0 ? -b : b, m = c < d ? c : d;
			half[i] = (a < 0) != (b < 0) ? -m : m;
		}
		std::vector<char> left(decode(half, at, sub));
		for (int i = 0; i < n / 2; ++i)
			half[i] = add(left[i] ? -soft[i] : soft[i], soft[i + n / 2]);
		for (int i = 0; i < (int)sub.size(); ++i)
			sub[i] = std::min(255, off[i] + off[i + n / 2]);
		std::vector<char> right(decode(half, at + n / 2, sub));
		std::vector<char> all(n);
		for (int i = 0; i < n / 2; ++i) {
			all[i] = left[i] ^ right[i];
			all[i + n / 2] = right[i];
		}
		return all;
	}
};

template <typename TYPE, int MAX>
CODE::PolarDecoder<TYPE, MAX> &decoder()
{
	static CODE::PolarDecoder<TYPE, MAX> *d = [] {
		void *p = nullptr;
		if (posix_memalign(&p, 64, sizeof(CODE::PolarDecoder<TYPE, MAX>)))
			abort();
		memset(p, 0xa5, sizeof(CODE::PolarDecoder<TYPE, MAX>));
		return new (p) CODE::PolarDecoder<TYPE, MAX>;
	}();
	return *d;
}

template <typename TYPE, int MAX>
void decode(G &g, int level)
{
	typedef Lane<TYPE> L;
	typedef typename L::value V;
	const int C = L::COUNT;
	Frozen z(frozen_set(g, level));
	Buf<TYPE> message(z.k, 0x5a), code(z.n);
	int same = (int)g.draw(2);
	std::vector<std::vector<V>> soft(C, std::vector<V>(z.n));
	std::vector<std::vector<char>> sent(C);
	std::vector<char> noiseless(C, 0), lowest(C, 0);
	for (int c = 0; c < C; ++c) {
		sent[c] = message_bits(g, z.k);
		std::vector<char> x(transform(spread(z, sent[c])));
		int kind = c && same ? 7 : (int)g.draw(6);
		Rng r(g.bulk());
		double sigma = 0.2 + r.uni() * 1.2, amp = 1 + r.uni() * 30;
		int mag = (int)r.range(1, 127);
		if (kind == 7)
			kind = (int)r.below(7);
		noiseless[c] = kind == 0 || kind == 6;
		// what no quantizer gives but the type can hold
		bool low = sizeof(V) == 1 && r.below(4) == 0;
		if (low && kind != 1)
			mag = 127;
		for (int i = 0; i < z.n; ++i) {
			double s = x[i] ? -1 : 1, v;
			switch (kind) {
			case 0: v = s * mag; break;
			case 1: v = (s + r.gauss() * sigma) * amp; break;
			case 2: v = (double)r.range(-127, 127); break;
			case 3: v = r.below(2) ? -127 : 127; break;
			case 4: v = r.below(4) ? s * mag : 0; break;
			case 5: v = (double)r.range(-3, 3) + (sizeof(V) > 1 ? r.uni() : 0); break;
			default: v = s * (double)r.range(1, 127);
			}
			if (sizeof(V) == 1)
				v = std::nearbyint(std::min(127., std::max(-127., v)));
			if (low && v == -127) {
				v = -128;
				lowest[c] = 1;
			}
			soft[c][i] = (V)v;
			L::put(code[i], c, (V)v);
		}
	}
	g.note("%s: level %d, %d left, soft %g %g..", L::name(), level, z.k, (double)soft[0][0], (double)soft[0][1]);
	decoder<TYPE, MAX>()(message.get(), (const TYPE *)code.get(), z.bits.data(), level);
	message.check("message");
	code.check("code");
	for (int c = 0; c < C; ++c) {
		for (int i = 0; i < z.n; ++i)
			CHECK(L::get(code[i], c) == soft[c][i], "decoder changed its input");
		Plain<V> p(z);
		std::vector<V> sat(soft[c]);
		std::vector<int> off(lowest[c] ? z.n : 0);
		for (int i = 0; i < (int)off.size(); ++i)
			if (soft[c][i] == V(-128)) {
				sat[i] = V(-127);
				off[i] = 1;
			}
		p.decode(sat, 0, off);
		if (noiseless[c]) {
			CHECK((lowest[c] || !p.tie) && p.msg == sent[c], "oracle");
			p.tie = false;
		}
		if (lowest[c])
			g.label("with -128");
		if (p.tie) {
			g.label("undecided by the input");
			continue;
		}
		g.label(p.msg == sent[c] ? "as sent" : "other than sent");
		for (int i = 0; i < z.k; ++i) {
			V v = L::get(message[i], c);
			CHECK(v == (p.msg[i] ? V(-1) : V(1)), "%s, level %d, lane %d: message bit %d of %d is %g, not %d", L::name(), level, c, i, z.k, (double)v, p.msg[i] ? -1 : 1);
		}
		if (z.k && z.k < z.n && !noiseless[c])
			g.nontrivial();
	}
}

}

PROP(encoders, 60000, 2000000)
{
	int level = (int)(g.chance(1, 30) ? g.range(10, 14) : g.range(1, 9));
	switch (g.draw(5)) {
	case 0: encode<int8_t>(g, level); break;
	case 1: encode<float>(g, level); break;
	case 2: encode<SIMD<int8_t, 16>>(g, level); break;
	case 3: encode<SIMD<float, 4>>(g, level); break;
	case 4: encode<SIMD<int8_t, 32>>(g, level); break;
	default: encode<double>(g, level);
	}
}

PROP(long_encoders, 150, 3000)
{
	int level = (int)g.range(15, g.chance(1, 3) ? 20 : 17);
	switch (g.draw(3)) {
	case 0: encode<int8_t>(g, level); break;
	case 1: encode<float>(g, level); break;
	case 2: encode<int>(g, level); break;
	default: encode<double>(g, level);
	}
}

PROP(scalars, 60000, 2000000)
{
	int level = (int)g.range(5, 10);
	switch (g.draw(3)) {
	case 0: decode<int8_t, 10>(g, level); break;
	case 1: decode<float, 10>(g, level); break;
	case 2: decode<int8_t, 5>(g, 5); break;
	default: decode<double, 10>(g, level);
	}
}

PROP(vectors, 20000, 700000)
{
	int level = (int)g.range(5, 9);
	switch (g.draw(3)) {
	case 0: decode<SIMD<int8_t, 16>, 10>(g, level); break;
	case 1: decode<SIMD<float, 4>, 10>(g, level); break;
	case 2: decode<SIMD<int8_t, 32>, 10>(g, level); break;
	default: decode<SIMD<float, 8>, 10>(g, level);
	}
}

PROP(long_codes, 800, 20000)
{
	int level = (int)g.range(11, g.chance(1, 10) ? 20 : 14);
	if (g.flip())
		decode<int8_t, 20>(g, level);
	else
		decode<float, 20>(g, level);
}
