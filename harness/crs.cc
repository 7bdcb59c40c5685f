// Cauchy Reed-Solomon erasure coding: any sufficient set of blocks gives the data back
#include "pbt.hh"
#include "galois_field.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "gfmodel.hh"

namespace {

using pbt::G;
using pbt::Buf;

template <typename GF>
void need_tables()
{
	static GF *gf = new GF;
	(void)gf;
}

template <int M, int POLY, typename TYPE>
void blocks(G &g)
{
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef typename GF::ValueType V;
	typedef CODE::CauchyReedSolomonErasureCoding<GF> CRS;
	const int Q = 1 << M;
	need_tables<GF>();
	const GFModel<M, POLY> &m = GFModel<M, POLY>::get();
	int cnt;
	if (Q / 2 <= 8)
		cnt = (int)g.range(1, Q / 2);
	else
		switch (g.draw(15)) {
		case 0: cnt = M > 8 ? (int)g.range(60, 200) : Q / 2 - (int)g.draw(3); break;
		case 1: cnt = (int)g.range(1, std::min(Q / 2, 64)); break;
		default: cnt = (int)g.range(1, std::min(Q / 2, 12));
		}
	int len;
	switch (g.draw(5)) {
	case 0: len = 32 * (int)g.range(1, 4); break;
	case 1: len = 16 * (int)g.range(1, 8); break;
	case 2: len = (int)g.range(1, 3); break;
	default: len = (int)g.range(1, cnt > 20 ? 20 : 80);
	}
	// identifiers: anywhere, first ones, last ones
	int total = Q - cnt;
	std::vector<int> ids;
	int how = (int)g.draw(5);
	if (how == 0)
		for (int i = 0; i < cnt; ++i)
			ids.push_back(cnt + i);
	else if (how == 1)
		for (int i = 0; i < cnt; ++i)
			ids.push_back(Q - 1 - i);
	else
		for (int i : g.subset(total, cnt))
			ids.push_back(cnt + i);
	int off[3] = { 0, 0, 0 };
	if (g.flip())
		for (int &o : off)
			o = (int)(g.draw(64 / sizeof(TYPE) - 1) * sizeof(TYPE));
	Buf<TYPE> data(cnt * len, 0xa5, off[0]), orig(cnt * len), coded(cnt * len, 0x5a, off[1]), back(cnt * len, 0xff, off[2]), identifiers(cnt);
	g.fill(data.get(), cnt * len, M);
	memcpy(orig.get(), data.get(), cnt * len * sizeof(TYPE));
	// new objects, or ones used before with other blocks
	pbt::Fresh<CRS> enc(g), fresh(g);
	static CRS *used = new CRS;
	CRS *dec = g.flip() ? used : &*fresh;
	int api = (int)g.draw(2);
	g.note("GF(2^%d) %d blocks of %d, offsets %d %d %d, first identifier %d", M, cnt, len, off[0], off[1], off[2], ids[0]);
	g.labelf("GF(2^%d)", M);
	if (len % 32 == 0 && !off[0] && !off[1] && !off[2])
		g.label("aligned blocks");
	if (cnt > 1)
		g.nontrivial();
	for (int i = 0; i < cnt; ++i)
		identifiers[i] = (TYPE)ids[i];
	std::vector<int> order(g.permutation(cnt));
	for (int i : order) {
		TYPE *block = coded.get() + len * i;
		if (api == 0)
			enc->encode((const TYPE *)data.get(), block, ids[i], len, cnt);
		else if (api == 1)
			enc->encode((const void *)data.get(), (void *)block, ids[i], len * (int)sizeof(TYPE), cnt);
		else
			enc->encode(reinterpret_cast<const V *>(data.get()), reinterpret_cast<V *>(block), ids[i], len, cnt);
		coded.check("blocks");
		// $block = \sum_k data_k / (id + k)$
		for (int t = 0; t < 4 || t < len / 16; ++t) {
			int j = (int)(t < 2 ? t * (len - 1) : (pbt::mix(t * 1000003ull + i) % len));
			int want = 0;
			for (int k = 0; k < cnt; ++k)
				want ^= m.mul(orig[len * k + j], m.pow(-m.log_[ids[i] ^ k]));
			CHECK(block[j] == want, "GF(2^%d), %d blocks of %d: element %d of block %d encoded as %d, not %d", M, cnt, len, j, ids[i], (int)block[j], want);
		}
	}
	CHECK(!memcmp(data.get(), orig.get(), cnt * len * sizeof(TYPE)), "encoder changed the data");
	std::vector<TYPE> copy(coded.get(), coded.get() + cnt * len);
	// in any order, some of them only
	order = g.permutation(cnt);
	int want = g.chance(1, 4) ? (int)g.range(1, cnt) : cnt;
	for (int n = 0; n < want; ++n) {
		int i = order[n];
		TYPE *block = back.get() + len * i;
		if (api == 0)
			dec->decode(block, (const TYPE *)coded.get(), (const TYPE *)identifiers.get(), i, len, cnt);
		else if (api == 1)
			dec->decode((void *)block, (const void *)coded.get(), (const TYPE *)identifiers.get(), i, len * (int)sizeof(TYPE), cnt);
		else
			dec->decode(reinterpret_cast<V *>(block), reinterpret_cast<const V *>(coded.get()), reinterpret_cast<const V *>(identifiers.get()), i, len, cnt);
		back.check("data");
		CHECK(!memcmp(block, orig.get() + len * i, len * sizeof(TYPE)), "GF(2^%d), %d blocks of %d: block %d not restored (first identifier %d)", M, cnt, len, i, ids[0]);
	}
	// what was not asked for is as it was
	for (int n = want; n < cnt; ++n)
		for (int j = 0; j < len; ++j)
			CHECK(back[len * order[n] + j] == (TYPE)-1, "GF(2^%d), %d blocks of %d: decoding wrote outside its block", M, cnt, len);
	for (int n = 0; n < want; ++n)
		CHECK(!memcmp(back.get() + len * order[n], orig.get() + len * order[n], len * sizeof(TYPE)), "GF(2^%d), %d blocks of %d: block %d overwritten later", M, cnt, len, order[n]);
	CHECK(!memcmp(coded.get(), copy.data(), cnt * len * sizeof(TYPE)), "decoder changed the blocks");
	for (int i = 0; i < cnt; ++i)
		CHECK(identifiers[i] == (TYPE)ids[i], "decoder changed the identifiers");
}

typedef void (*Fn)(G &);

}

// more blocks than bytes can count
namespace {

template <int POLY>
void many(G &g)
{
	typedef CODE::GaloisField<16, POLY, uint16_t> GF;
	typedef CODE::CauchyReedSolomonErasureCoding<GF> CRS;
	need_tables<GF>();
	const GFModel<16, POLY> &m = GFModel<16, POLY>::get();
	int cnt = (int)g.range(201, g.chance(1, 4) ? 2500 : 700), len = (int)g.range(1, 3);
	int total = 65536 - cnt;
	std::vector<int> ids;
	int how = (int)g.draw(2), from = (int)g.draw(total - cnt);
	pbt::Rng r(g.bulk());
	for (int i = 0; i < cnt; ++i)
		ids.push_back(cnt + (how == 0 ? i : how == 1 ? total - 1 - i : (from + i) % total));
	for (int i = cnt - 1; i > 0; --i)
		std::swap(ids[i], ids[r.below(i + 1)]);
	Buf<uint16_t> data(cnt * len), coded(cnt * len), back(len), identifiers(cnt);
	g.fill(data.get(), cnt * len, 16);
	pbt::Fresh<CRS> crs(g);
	g.note("GF(65536) %d blocks of %d, first identifier %d", cnt, len, ids[0]);
	g.nontrivial();
	for (int i = 0; i < cnt; ++i) {
		identifiers[i] = (uint16_t)ids[i];
		crs->encode((const uint16_t *)data.get(), coded.get() + len * i, ids[i], len, cnt);
		int j = i % len, want = 0;
		for (int k = 0; k < cnt; ++k)
			want ^= m.mul(data[len * k + j], m.pow(-m.log_[ids[i] ^ k]));
		CHECK(coded[len * i + j] == want, "GF(65536), %d blocks: element %d of block %d encoded as %d, not %d", cnt, j, ids[i], coded[len * i + j], want);
	}
	coded.check("blocks");
	for (int n = 0; n < 3; ++n) {
		int i = n == 0 ? cnt - 1 : (int)r.below(cnt);
		crs->decode(back.get(), (const uint16_t *)coded.get(), (const uint16_t *)identifiers.get(), i, len, cnt);
		back.check("data");
		CHECK(!memcmp(back.get(), data.get() + len * i, len * 2), "GF(65536), %d blocks: block %d not restored", cnt, i);
	}
}

// longer blocks than 16 bits can count
template <int M, int POLY, typename TYPE>
void extended(G &g)
{
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef CODE::CauchyReedSolomonErasureCoding<GF> CRS;
	need_tables<GF>();
	const GFModel<M, POLY> &m = GFModel<M, POLY>::get();
	const int Q = 1 << M;
	int cnt = (int)g.range(1, 3), len = 65536 + (g.flip() ? 32 * (int)g.range(0, 20) : (int)g.range(1, 5000));
	int off = g.flip() ? 0 : (int)(g.draw(64 / sizeof(TYPE) - 1) * sizeof(TYPE));
	std::vector<int> ids;
	for (int i : g.subset(Q - cnt, cnt))
		ids.push_back(cnt + i);
	Buf<TYPE> data(cnt * len, 0xa5, off), coded(cnt * len, 0xa5, off), back(cnt * len, 0xa5, off), identifiers(cnt);
	pbt::Rng r(g.bulk());
	for (int i = 0; i < cnt * len; ++i)
		data[i] = (TYPE)r.below(Q);
	pbt::Fresh<CRS> crs(g);
	bool bytes = g.flip();
	const int size = (int)sizeof(TYPE);
	g.note("GF(2^%d) %d blocks of %d, offset %d", M, cnt, len, off);
	g.nontrivial();
	for (int i = 0; i < cnt; ++i) {
		identifiers[i] = (TYPE)ids[i];
		if (bytes)
			crs->encode((const void *)data.get(), (void *)(coded.get() + len * i), ids[i], len * size, cnt);
		else
			crs->encode((const TYPE *)data.get(), coded.get() + len * i, ids[i], len, cnt);
		coded.check("blocks");
		std::vector<int> by(cnt);
		for (int k = 0; k < cnt; ++k)
			by[k] = m.pow(-m.log_[ids[i] ^ k]);
		for (int j = 0; j < len; ++j) {
			int want = 0;
			for (int k = 0; k < cnt; ++k)
				want ^= m.mul(data[len * k + j], by[k]);
			CHECK(coded[len * i + j] == want, "GF(2^%d), %d blocks of %d: element %d of block %d encoded as %d, not %d", M, cnt, len, j, ids[i], (int)coded[len * i + j], want);
		}
	}
	for (int i = 0; i < cnt; ++i) {
		if (bytes)
			crs->decode((void *)(back.get() + len * i), (const void *)coded.get(), (const TYPE *)identifiers.get(), i, len * size, cnt);
		else
			crs->decode(back.get() + len * i, (const TYPE *)coded.get(), (const TYPE *)identifiers.get(), i, len, cnt);
		back.check("data");
	}
	CHECK(!memcmp(back.get(), data.get(), cnt * len * sizeof(TYPE)), "GF(2^%d), %d blocks of %d: not restored", M, cnt, len);
}

}

// nearly as many blocks as the field has elements for
PROP(crowded, 16, 400)
{
	typedef CODE::GaloisField<16, 0x1100b, uint16_t> GF;
	typedef CODE::CauchyReedSolomonErasureCoding<GF> CRS;
	need_tables<GF>();
	const GFModel<16, 0x1100b> &m = GFModel<16, 0x1100b>::get();
	pbt::Rng r(g.bulk());
	pbt::Fresh<CRS> crs(g);
	auto inv = [&](int a) { return m.pow(-m.log_[a]); };
	{
		int cnt = (int)g.range(2500, 65535), len = (int)g.range(1, 2);
		Buf<uint16_t> data(cnt * len), block(len);
		for (int i = 0; i < cnt * len; ++i)
			data[i] = (uint16_t)r.next();
		for (int n = 0; n < 20; ++n) {
			int id = n == 0 ? 65535 : n == 1 ? cnt : cnt + (int)r.below(65536 - cnt);
			crs->encode((const uint16_t *)data.get(), block.get(), id, len, cnt);
			block.check("block");
			for (int j = 0; j < len; ++j) {
				int want = 0;
				for (int k = 0; k < cnt; ++k)
					want ^= m.mul(data[len * k + j], inv(id ^ k));
				CHECK(block[j] == want, "GF(65536), %d blocks: element %d of block %d encoded as %d, not %d", cnt, j, id, block[j], want);
			}
		}
		g.note("GF(65536) %d blocks of %d;", cnt, len);
	}
	// what few blocks of data give, as encoding all is too much work
#ifdef PBT_ASAN
	int cnt = (int)g.range(2500, 5000);
#else
	int cnt = (int)g.range(2500, 32768);
#endif
	Buf<uint16_t> coded(cnt), identifiers(cnt), back(1);
	int total = 65536 - cnt, from = (int)g.draw(total - 1);
	int at[3], what[3];
	for (int n = 0; n < 3; ++n) {
		at[n] = n == 0 ? cnt - 1 : n == 1 ? (int)r.below(std::min(cnt - 1, 300)) : 300 + (int)r.below(cnt - 301);
		what[n] = 1 + (int)r.below(65535);
	}
	for (int i = 0; i < cnt; ++i) {
		int id = cnt + (from + i) % total, v = 0;
		identifiers[i] = (uint16_t)id;
		for (int n = 0; n < 3; ++n)
			v ^= m.mul(what[n], inv(id ^ at[n]));
		coded[i] = (uint16_t)v;
	}
	int n = (int)g.draw(3), idx = n < 3 ? at[n] : cnt / 2, want = 0;
	for (int k = 0; k < 3; ++k)
		if (at[k] == idx)
			want = what[k];
	crs->decode(back.get(), (const uint16_t *)coded.get(), (const uint16_t *)identifiers.get(), idx, 1, cnt);
	back.check("data");
	CHECK(back[0] == want, "GF(65536), %d blocks: block %d restored as %d, not %d", cnt, idx, back[0], want);
	g.nontrivial();
	g.note("block %d of %d decoded", idx, cnt);
}

PROP(extended_blocks, 48, 2000)
{
	switch (g.draw(3)) {
	case 0: extended<8, 0x11d, uint8_t>(g); break;
	case 1: extended<16, 0x1100b, uint16_t>(g); break;
	case 2: extended<4, 0x13, uint8_t>(g); break;
	default: extended<8, 0x11d, uint16_t>(g);
	}
}

PROP(many, 120, 3000)
{
	if (g.flip())
		many<0x1100b>(g);
	else
		many<0x1002d>(g);
}

PROP(blocks, 160000, 4000000)
{
	static const Fn fns[] = {
		blocks<8, 0x11d, uint8_t>, blocks<16, 0x1100b, uint16_t>, blocks<8, 0x187, uint8_t>, blocks<2, 0x7, uint8_t>, blocks<3, 0xb, uint8_t>, blocks<4, 0x13, uint8_t>,
		blocks<5, 0x25, uint8_t>, blocks<7, 0x83, uint8_t>, blocks<8, 0x11d, uint16_t>, blocks<12, 0x1053, uint16_t>, blocks<16, 0x1002d, uint16_t>,
	};
	fns[g.draw(sizeof(fns) / sizeof(*fns) - 1)](g);
}
