// Reed-Solomon codes: every correctable pattern is corrected, nothing else is called a success
#include "pbt.hh"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "gfmodel.hh"

namespace {

using pbt::G;
using pbt::Buf;

template <typename GF>
void need_tables()
{
	static GF *gf = new GF;
	(void)gf;
}

template <typename T>
T *garbage_new()
{
	void *p = nullptr;
	if (posix_memalign(&p, 64, sizeof(T)))
		abort();
	memset(p, 0xa5, sizeof(T));
	return new (p) T;
}

template <int M, int POLY, typename TYPE, int NR, int FCR>
struct Code
{
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef CODE::ReedSolomonEncoder<NR, FCR, GF> Enc;
	typedef CODE::ReedSolomonDecoder<NR, FCR, GF> Dec;
	typedef GFModel<M, POLY> Mod;
	typedef typename GF::ValueType V;
	typedef typename GF::IndexType I;
	static const int N = (1 << M) - 1, K = N - NR;
	static Enc &enc() { need_tables<GF>(); static Enc *e = garbage_new<Enc>(); return *e; }
	static Dec &dec() { need_tables<GF>(); static Dec *d = garbage_new<Dec>(); return *d; }

	static int length(G &g)
	{
		if (K <= 300)
			return (int)g.edgy(1, K);
		switch (g.draw(15)) {
		case 0: return (int)g.range(1, K);
		case 1: return K - (int)g.draw(3);
		default: return (int)g.edgy(1, 200);
		}
	}
	static void syndromes(const TYPE *data, const TYPE *parity, int len, int *s)
	{
		const Mod &m = Mod::get();
		for (int i = 0; i < NR; ++i) {
			int x = m.pow(FCR + i);
			s[i] = m.eval(parity, NR, x, m.eval(data, len, x));
		}
	}
	static bool codeword(const TYPE *data, const TYPE *parity, int len)
	{
		int s[NR];
		syndromes(data, parity, len, s);
		for (int i = 0; i < NR; ++i)
			if (s[i])
				return false;
		return true;
	}

	static void encode(G &g)
	{
		int len = length(g);
		Buf<TYPE> data(len), orig(len), parity(NR, (uint8_t)g.pick({ 0xa5, 0xff, 0x00 }));
		g.fill(data.get(), len, M);
		memcpy(orig.get(), data.get(), len * sizeof(TYPE));
		bool whole = len == K && g.flip();
		if (whole && g.flip())
			enc()((const TYPE *)data.get(), parity.get());
		else if (whole)
			enc()(reinterpret_cast<const V *>(data.get()), reinterpret_cast<V *>(parity.get()));
		else if (g.flip())
			enc()((const TYPE *)data.get(), parity.get(), len);
		else
			enc()(reinterpret_cast<const V *>(data.get()), reinterpret_cast<V *>(parity.get()), len);
		data.check("data");
		parity.check("parity");
		g.note("RS(%d,%d) FCR %d, %d symbols", N, K, FCR, len);
		CHECK(!memcmp(orig.get(), data.get(), len * sizeof(TYPE)), "RS(%d,%d) FCR %d: encoder changed the data", N, K, FCR);
		for (int i = 0; i < NR; ++i)
			CHECK(parity[i] <= N, "RS(%d,%d) FCR %d: parity symbol %d out of range", N, K, FCR, (int)parity[i]);
		CHECK(codeword(data, parity, len), "RS(%d,%d) FCR %d length %d: encoder gave no codeword", N, K, FCR, len);
		if (len > 1)
			g.nontrivial();
	}

	static void decode(G &g)
	{
		int len = length(g), total = len + NR;
		Buf<TYPE> sent(total), word(total), data(len), parity(NR), erasures(NR);
		g.fill(sent.get(), len, M);
		enc()((const TYPE *)sent.get(), sent.get() + len, len);
		memcpy(word.get(), sent.get(), total * sizeof(TYPE));
		// what happens on the way
		int kind = (int)g.draw(9);
		int E = g.flip() ? 0 : (int)g.edgy(0, std::min(NR, total));
		int most = std::min((NR - E) / 2, total - E), e;
		if (kind <= 6)
			e = (int)g.edgy(0, most);
		else if (kind == 7)
			e = (int)std::min<int64_t>(most + 1 + g.draw(2), total - E);
		else
			e = (int)g.edgy(0, std::min(total - E, NR + 3));
		std::vector<int> pos;
		if (g.chance(1, 5)) {
			int at = (int)g.draw(total - 1);
			for (int i = 0; i < E + e; ++i)
				pos.push_back((at + i) % total);
		} else {
			pos = g.subset(total, E + e);
		}
		bool zero_some = g.flip();
		auto damage = [&](int p) {
			int v = (int)(g.chance(1, 4) ? 1 + g.draw(1) : 1 + g.draw(N - 1));
			word[p] ^= (TYPE)(v > N ? N : v);
		};
		for (int i = 0; i < E + e; ++i)
			if (!(i < E && zero_some && g.flip()))
				damage(pos[i]);
		int changed = 0, wrong_unknown = 0;
		for (int i = 0; i < total; ++i)
			changed += word[i] != sent[i];
		for (int i = E; i < E + e; ++i)
			wrong_unknown += word[pos[i]] != sent[pos[i]];
		bool correctable = 2 * wrong_unknown + E <= NR;
		memcpy(data.get(), word.get(), len * sizeof(TYPE));
		memcpy(parity.get(), word.get() + len, NR * sizeof(TYPE));
		for (int i = 0; i < E; ++i)
			erasures[i] = (TYPE)pos[i];
		g.note("RS(%d,%d) FCR %d, %d symbols, %d erasures, %d errors, first at %d", N, K, FCR, len, E, e, E + e ? pos[0] : -1);
		// syndromes of the damaged word
		{
			Buf<TYPE> synd(NR);
			int want[NR], nonzero = 0;
			syndromes(word.get(), word.get() + len, len, want);
			int got = dec().compute_syndromes((const TYPE *)data.get(), (const TYPE *)parity.get(), synd.get(), len);
			synd.check("syndromes");
			for (int i = 0; i < NR; ++i) {
				nonzero += !!want[i];
				CHECK(synd[i] == want[i], "RS(%d,%d) FCR %d length %d: syndrome %d is %d, not %d", N, K, FCR, len, i, (int)synd[i], want[i]);
			}
			CHECK(got == nonzero, "RS(%d,%d) FCR %d length %d: %d syndromes counted nonzero, there are %d", N, K, FCR, len, got, nonzero);
		}
		int ret;
		bool whole = len == K && g.flip();
		bool values = g.flip();
		V *vd = reinterpret_cast<V *>(data.get()), *vp = reinterpret_cast<V *>(parity.get());
		I *ve = reinterpret_cast<I *>(erasures.get());
		if (whole && !E && g.flip())
			ret = values ? dec()(vd, vp) : dec()(data.get(), parity.get());
		else if (whole)
			ret = values ? dec()(vd, vp, ve, E) : dec()(data.get(), parity.get(), erasures.get(), E);
		else if (values)
			ret = dec()(vd, vp, E ? ve : nullptr, E, len);
		else
			ret = dec()(data.get(), parity.get(), E || g.flip() ? erasures.get() : nullptr, E, len);
		data.check("data");
		parity.check("parity");
		erasures.check("erasures");
		int differ = 0;
		for (int i = 0; i < len; ++i)
			differ += data[i] != word[i];
		for (int i = 0; i < NR; ++i)
			differ += parity[i] != word[len + i];
		if (correctable) {
			CHECK(ret == changed, "RS(%d,%d) FCR %d length %d: returned %d for %d damaged symbols (%d erasures, %d errors)", N, K, FCR, len, ret, changed, E, e);
			CHECK(!memcmp(data.get(), sent.get(), len * sizeof(TYPE)), "RS(%d,%d) FCR %d length %d: data not restored (%d erasures, %d errors)", N, K, FCR, len, E, e);
			CHECK(!memcmp(parity.get(), sent.get() + len, NR * sizeof(TYPE)), "RS(%d,%d) FCR %d length %d: parity not restored (%d erasures, %d errors)", N, K, FCR, len, E, e);
			if (changed)
				g.nontrivial();
			g.label(changed ? E && e ? "errors and erasures corrected" : E ? "erasures corrected" : e == 1 ? "one error corrected" : e == 2 ? "two errors corrected" : "more errors corrected" : "nothing damaged");
		} else {
			g.nontrivial();
			CHECK(ret >= -1, "RS(%d,%d) FCR %d: returned %d", N, K, FCR, ret);
			if (ret < 0) {
				g.label("reported uncorrectable");
				CHECK(!differ, "RS(%d,%d) FCR %d length %d: failure reported but %d symbols changed", N, K, FCR, len, differ);
			} else {
				g.label("another codeword");
				CHECK(codeword(data, parity, len), "RS(%d,%d) FCR %d length %d: success (%d) reported for no codeword (%d erasures, %d errors)", N, K, FCR, len, ret, E, e);
				CHECK(ret == differ, "RS(%d,%d) FCR %d length %d: returned %d but changed %d symbols", N, K, FCR, len, ret, differ);
				CHECK(differ <= NR, "RS(%d,%d) FCR %d length %d: %d symbols changed", N, K, FCR, len, differ);
			}
		}
	}
};

typedef void (*Fn)(G &);

#define CODES(f) \
	Code<2, 0x7, uint8_t, 1, 0>::f, Code<2, 0x7, uint8_t, 2, 1>::f, \
	Code<3, 0xb, uint8_t, 1, 1>::f, Code<3, 0xb, uint8_t, 2, 0>::f, Code<3, 0xb, uint8_t, 3, 2>::f, Code<3, 0xd, uint8_t, 4, 1>::f, Code<3, 0xb, uint8_t, 6, 0>::f, \
	Code<4, 0x13, uint8_t, 2, 1>::f, Code<4, 0x13, uint8_t, 3, 0>::f, Code<4, 0x13, uint8_t, 4, 0>::f, Code<4, 0x13, uint8_t, 4, 1>::f, Code<4, 0x19, uint8_t, 5, 3>::f, \
	Code<4, 0x13, uint8_t, 6, 14>::f, Code<4, 0x13, uint16_t, 7, 1>::f, Code<4, 0x13, uint8_t, 14, 1>::f, \
	Code<5, 0x25, uint8_t, 2, 1>::f, Code<5, 0x25, uint8_t, 4, 1>::f, Code<5, 0x37, uint8_t, 4, 0>::f, Code<5, 0x29, uint8_t, 9, 5>::f, Code<5, 0x25, uint8_t, 10, 0>::f, Code<5, 0x3d, uint8_t, 20, 2>::f, \
	Code<6, 0x43, uint8_t, 4, 1>::f, Code<6, 0x5b, uint8_t, 8, 0>::f, Code<6, 0x43, uint8_t, 11, 60>::f, Code<7, 0x83, uint8_t, 4, 1>::f, Code<7, 0x89, uint8_t, 12, 0>::f

#define LARGE(f) \
	Code<8, 0x11d, uint8_t, 1, 0>::f, Code<8, 0x11d, uint8_t, 2, 1>::f, Code<8, 0x11d, uint8_t, 4, 0>::f, Code<8, 0x11d, uint8_t, 16, 0>::f, Code<8, 0x11d, uint8_t, 32, 1>::f, \
	Code<8, 0x187, uint8_t, 32, 112>::f, Code<8, 0x11d, uint8_t, 33, 2>::f, Code<8, 0x11d, uint8_t, 64, 254>::f, Code<8, 0x11d, uint16_t, 5, 1>::f, \
	Code<10, 0x409, uint16_t, 14, 0>::f, Code<12, 0x1053, uint16_t, 8, 1>::f, Code<16, 0x1100b, uint16_t, 4, 1>::f, Code<16, 0x1100b, uint16_t, 64, 1>::f, Code<16, 0x1002d, uint16_t, 24, 0>::f

#define MANY(f) \
	Code<8, 0x11d, uint8_t, 127, 0>::f, Code<8, 0x11d, uint8_t, 128, 1>::f, Code<8, 0x187, uint8_t, 200, 100>::f, Code<8, 0x11d, uint8_t, 253, 0>::f, Code<8, 0x11d, uint8_t, 254, 1>::f, \
	Code<9, 0x211, uint16_t, 300, 1>::f, Code<10, 0x409, uint16_t, 258, 700>::f, Code<11, 0x805, uint16_t, 140, 0>::f, Code<13, 0x201b, uint16_t, 20, 2000>::f, Code<14, 0x402b, uint16_t, 6, 0>::f, Code<15, 0x8003, uint16_t, 12, 32766>::f, Code<16, 0x1100b, uint16_t, 130, 65534>::f

template <size_t L>
void any(G &g, const Fn (&fns)[L])
{
	fns[g.draw(L - 1)](g);
}

}

PROP(encode_small, 300000, 6000000)
{
	static const Fn fns[] = { CODES(encode) };
	any(g, fns);
}

PROP(decode_small, 1600000, 40000000)
{
	static const Fn fns[] = { CODES(decode) };
	any(g, fns);
}

PROP(encode_large, 30000, 600000)
{
	static const Fn fns[] = { LARGE(encode) };
	any(g, fns);
}

PROP(decode_large, 60000, 1600000)
{
	static const Fn fns[] = { LARGE(decode) };
	any(g, fns);
}

PROP(encode_many, 10000, 200000)
{
	static const Fn fns[] = { MANY(encode) };
	any(g, fns);
}

PROP(decode_many, 12000, 300000)
{
	static const Fn fns[] = { MANY(decode) };
	any(g, fns);
}
