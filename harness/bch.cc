// BCH codes: every correctable pattern of bit errors is corrected, nothing else is called a success
#include "pbt.hh"
#include "galois_field.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#include "gfmodel.hh"
#include "bch_codes.hh"

namespace {

using pbt::G;
using pbt::Buf;

bool bit(const uint8_t *p, int i) { return (p[i / 8] >> (7 - i % 8)) & 1; }
void put(uint8_t *p, int i, bool b) { p[i / 8] = (p[i / 8] & ~(0x80 >> i % 8)) | (b ? 0x80 >> i % 8 : 0); }

// one live object per field
template <typename GF>
void tables_of()
{
	static GF *gf = new GF;
	(void)gf;
}

template <int M, int POLY, typename TYPE, int NR, int FCR, int K, int... MIN>
struct Code
{
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef GFModel<M, POLY> Mod;
	typedef typename GF::ValueType V;
	typedef typename GF::IndexType I;
	static const int N = (1 << M) - 1, NP = N - K;
	typedef CODE::BoseChaudhuriHocquenghemEncoder<N, K> Enc;
	typedef CODE::BoseChaudhuriHocquenghemDecoder<NR, FCR, K, GF> Dec;
	typedef CODE::BoseChaudhuriHocquenghemEncoderReference<NR, FCR, K, GF> EncRef;
	typedef CODE::BoseChaudhuriHocquenghemDecoderReference<NR, FCR, K, GF> DecRef;
	static void need_tables() { tables_of<GF>(); }
	static void *garbage(size_t n, int pat)
	{
		void *p = nullptr;
		if (posix_memalign(&p, 64, n))
			abort();
		memset(p, pat, n);
		return p;
	}
	static Enc &enc() { need_tables(); static Enc *e = new (garbage(sizeof(Enc), 0xff)) Enc({ MIN... }); return *e; }
	static Dec &dec() { need_tables(); static Dec *d = new (garbage(sizeof(Dec), 0xa5)) Dec; return *d; }
	static EncRef &enc_ref() { need_tables(); static EncRef *e = new (garbage(sizeof(EncRef), 0)) EncRef({ MIN... }); return *e; }
	static DecRef &dec_ref() { need_tables(); static DecRef *d = new (garbage(sizeof(DecRef), 0xa5)) DecRef; return *d; }

	static int length(G &g)
	{
		if (K <= 300)
			return (int)g.edgy(1, K);
		switch (g.draw(15)) {
		case 0: return (int)g.range(1, K);
		case 1: return K - (int)g.draw(9);
		default: return (int)g.edgy(1, 300);
		}
	}
	// coefficients in the order of transmission
	static std::vector<uint8_t> unpack(const uint8_t *data, int len, const uint8_t *parity)
	{
		std::vector<uint8_t> v(len + NP);
		for (int i = 0; i < len; ++i)
			v[i] = bit(data, i);
		for (int i = 0; i < NP; ++i)
			v[len + i] = bit(parity, i);
		return v;
	}
	static void syndromes(const std::vector<uint8_t> &v, int *s)
	{
		const Mod &m = Mod::get();
		for (int i = 0; i < NR; ++i)
			s[i] = m.eval(v.data(), (int)v.size(), m.pow(FCR + i));
	}
	static bool codeword(const std::vector<uint8_t> &v)
	{
		int s[NR];
		syndromes(v, s);
		for (int i = 0; i < NR; ++i)
			if (s[i])
				return false;
		return true;
	}
	static void title(G &g, const char *what, int len) { g.note("%s BCH(%d,%d) %d roots from %d, %d bits", what, N, K, NR, FCR, len); }

	static void encode(G &g)
	{
		int len = length(g), bytes = (len + 7) / 8, pbytes = (NP + 7) / 8;
		Buf<uint8_t> data(bytes), orig(bytes), parity(pbytes, (uint8_t)g.pick({ 0xa5, 0xff, 0x00 }));
		g.fill(data.get(), bytes);
		memcpy(orig.get(), data.get(), bytes);
		title(g, "encode", len);
		if (len == K && g.flip())
			enc()(data.get(), parity.get());
		else
			enc()(data.get(), parity.get(), len);
		data.check("data");
		parity.check("parity");
		CHECK(!memcmp(orig.get(), data.get(), bytes), "BCH(%d,%d): encoder changed the data", N, K);
		std::vector<uint8_t> v(unpack(data, len, parity));
		CHECK(codeword(v), "BCH(%d,%d) roots %d from %d, length %d: encoder gave no codeword", N, K, NR, FCR, len);
		Buf<V> rdata(len), rparity(NP, 0xff);
		for (int i = 0; i < len; ++i)
			rdata[i].v = v[i];
		if (len == K && g.flip())
			enc_ref()(rdata.get(), rparity.get());
		else
			enc_ref()(rdata.get(), rparity.get(), len);
		rdata.check("data");
		rparity.check("parity");
		for (int i = 0; i < len; ++i)
			CHECK(rdata[i].v == v[i], "BCH(%d,%d): reference encoder changed the data", N, K);
		for (int i = 0; i < NP; ++i)
			CHECK(rparity[i].v == v[len + i], "BCH(%d,%d) length %d: parity bit %d differs from the reference encoder's", N, K, len, i);
		if (len > 1)
			g.nontrivial();
	}

	static void decode(G &g)
	{
		int len = length(g), total = len + NP, bytes = (len + 7) / 8, pbytes = (NP + 7) / 8;
		Buf<uint8_t> data(bytes), parity(pbytes);
		g.fill(data.get(), bytes);
		enc()(data.get(), parity.get(), len);
		// padding does not matter and stays
		uint8_t pad = (uint8_t)g.draw(255);
		for (int i = len; i < 8 * bytes; ++i)
			put(data, i, (pad >> (i % 8)) & 1);
		for (int i = NP; i < 8 * pbytes; ++i)
			put(parity, i, (pad >> (i % 8)) & 1);
		std::vector<uint8_t> sent(unpack(data, len, parity)), word(sent);
		int kind = (int)g.draw(9);
		int E = g.flip() ? 0 : (int)g.edgy(0, std::min(NR, total));
		int most = std::min((NR - E) / 2, total - E), e;
		if (kind <= 6)
			e = (int)g.edgy(0, most);
		else if (kind == 7)
			e = (int)std::min<int64_t>(most + 1 + g.draw(2), total - E);
		else
			e = (int)g.edgy(0, std::min(total - E, NR + 3));
		std::vector<int> pos;
		if (g.chance(1, 5)) {
			int at = (int)g.draw(total - 1);
			for (int i = 0; i < E + e; ++i)
				pos.push_back((at + i) % total);
		} else {
			pos = g.subset(total, E + e);
		}
		for (int i = 0; i < E + e; ++i)
			if (i >= E || g.flip())
				word[pos[i]] ^= 1;
		int changed = 0;
		for (int i = 0; i < total; ++i)
			changed += word[i] != sent[i];
		for (int i = 0; i < len; ++i)
			put(data, i, word[i]);
		for (int i = 0; i < NP; ++i)
			put(parity, i, word[len + i]);
		bool correctable = 2 * e + E <= NR;
		title(g, "decode", len);
		g.note("%d erasures, %d errors, first at %d", E, e, E + e ? pos[0] : -1);
		Buf<TYPE> erasures(NR), synd(NR);
		Buf<I> rerasures(NR);
		Buf<V> rdata(len), rparity(NP);
		for (int i = 0; i < E; ++i) {
			erasures[i] = (TYPE)pos[i];
			rerasures[i].i = (TYPE)pos[i];
		}
		for (int i = 0; i < len; ++i)
			rdata[i].v = word[i];
		for (int i = 0; i < NP; ++i)
			rparity[i].v = word[len + i];
		int want[NR], nonzero = 0;
		syndromes(word, want);
		int got = dec().compute_syndromes(data.get(), parity.get(), synd.get(), len);
		synd.check("syndromes");
		for (int i = 0; i < NR; ++i) {
			nonzero += !!want[i];
			CHECK(synd[i] == want[i], "BCH(%d,%d) length %d: syndrome %d is %d, not %d", N, K, len, i, (int)synd[i], want[i]);
		}
		CHECK(got == nonzero, "BCH(%d,%d) length %d: %d syndromes counted nonzero, there are %d", N, K, len, got, nonzero);
		int ret, ref;
		if (len == K && !E && g.flip())
			ret = dec()(data.get(), parity.get());
		else if (len == K && g.flip())
			ret = dec()(data.get(), parity.get(), erasures.get(), E);
		else
			ret = dec()(data.get(), parity.get(), E || g.flip() ? erasures.get() : nullptr, E, len);
		if (len == K && !E && g.flip())
			ref = dec_ref()(rdata.get(), rparity.get());
		else if (len == K && g.flip())
			ref = dec_ref()(rdata.get(), rparity.get(), rerasures.get(), E);
		else
			ref = dec_ref()(rdata.get(), rparity.get(), rerasures.get(), E, len);
		data.check("data");
		parity.check("parity");
		erasures.check("erasures");
		rdata.check("data");
		rparity.check("parity");
		for (int i = len; i < 8 * bytes; ++i)
			CHECK(bit(data, i) == ((pad >> (i % 8)) & 1), "BCH(%d,%d) length %d: data padding touched", N, K, len);
		for (int i = NP; i < 8 * pbytes; ++i)
			CHECK(bit(parity, i) == ((pad >> (i % 8)) & 1), "BCH(%d,%d) length %d: parity padding touched", N, K, len);
		std::vector<uint8_t> out(unpack(data, len, parity)), rout(total);
		for (int i = 0; i < len; ++i)
			rout[i] = rdata[i].v;
		for (int i = 0; i < NP; ++i)
			rout[len + i] = rparity[i].v;
		CHECK(ret == ref && out == rout, "BCH(%d,%d) length %d: packed decoder (%d) and reference decoder (%d) disagree, %d erasures, %d errors", N, K, len, ret, ref, E, e);
		int differ = 0;
		for (int i = 0; i < total; ++i)
			differ += out[i] != word[i];
		if (correctable) {
			CHECK(ret == changed, "BCH(%d,%d) roots %d from %d length %d: returned %d for %d wrong bits (%d erasures, %d errors)", N, K, NR, FCR, len, ret, changed, E, e);
			CHECK(out == sent, "BCH(%d,%d) roots %d from %d length %d: not restored (%d erasures, %d errors)", N, K, NR, FCR, len, E, e);
			if (changed)
				g.nontrivial();
			g.label(changed ? E && e ? "errors and erasures corrected" : E ? "erasures corrected" : e == 1 ? "one error corrected" : e == 2 ? "two errors corrected" : "more errors corrected" : "nothing damaged");
		} else {
			g.nontrivial();
			CHECK(ret >= -1, "BCH(%d,%d): returned %d", N, K, ret);
			if (ret < 0) {
				g.label("reported uncorrectable");
				CHECK(!differ, "BCH(%d,%d) length %d: failure reported but %d bits changed", N, K, len, differ);
			} else {
				g.label("another codeword");
				CHECK(codeword(out), "BCH(%d,%d) roots %d from %d length %d: success (%d) reported for no codeword (%d erasures, %d errors)", N, K, NR, FCR, len, ret, E, e);
				CHECK(ret == differ, "BCH(%d,%d) length %d: returned %d but changed %d bits", N, K, len, ret, differ);
				CHECK(differ <= NR, "BCH(%d,%d) length %d: %d bits changed", N, K, len, differ);
			}
		}
	}
};

typedef void (*Fn)(G &);

template <size_t L>
void any(G &g, const Fn (&fns)[L])
{
	fns[g.draw(L - 1)](g);
}

}

#define ENCODE(...) Code<__VA_ARGS__>::encode,
#define DECODE(...) Code<__VA_ARGS__>::decode,

PROP(encode_small, 400000, 8000000)
{
	static const Fn fns[] = { BCH_SMALL(ENCODE) };
	any(g, fns);
}

PROP(decode_small, 1600000, 30000000)
{
	static const Fn fns[] = { BCH_SMALL(DECODE) };
	any(g, fns);
}

PROP(encode_large, 24000, 400000)
{
	static const Fn fns[] = { BCH_LARGE(ENCODE) };
	any(g, fns);
}

PROP(decode_large, 24000, 600000)
{
	static const Fn fns[] = { BCH_LARGE(DECODE) };
	any(g, fns);
}

PROP(encode_many, 6000, 100000)
{
	static const Fn fns[] = { BCH_MANY(ENCODE) };
	any(g, fns);
}

PROP(decode_many, 8000, 150000)
{
	static const Fn fns[] = { BCH_MANY(DECODE) };
	any(g, fns);
}
