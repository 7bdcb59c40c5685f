// Cauchy prime field erasure coding: any sufficient set of blocks gives the data back
#include "pbt.hh"
#include "prime_field.hh"
#include "cauchy_prime_field_erasure_coding.hh"

namespace {

using pbt::G;
using pbt::Buf;

uint64_t mod_inv(uint64_t a, uint64_t p)
{
	uint64_t r = 1, n = p - 2;
	for (a %= p; n; n >>= 1, a = a * a % p)
		if (n & 1)
			r = r * a % p;
	return r;
}

template <typename TYPE, TYPE P, typename IO, int MAX_LEN>
void blocks(G &g)
{
	typedef CODE::PrimeField<TYPE, P> PF;
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, IO, MAX_LEN> CPF;
	int half = (int)P / 2;
	int cnt = g.chance(1, 12) ? std::min(half / 2, P > 1000 ? 200 : 1 << 20) - (int)g.draw(2) : (int)g.range(1, 10);
	int len;
	switch (g.draw(7)) {
	case 0: len = MAX_LEN - (int)g.draw(2); break;
	case 1: len = (int)g.range(1, MAX_LEN); break;
	default: len = (int)g.range(1, 24);
	}
	if (cnt > 20 && len > 40)
		len = 40;
	std::vector<int> ids;
	int how = (int)g.draw(5);
	if (how == 0)
		for (int i = 0; i < cnt; ++i)
			ids.push_back(cnt + i);
	else if (how == 1)
		for (int i = 0; i < cnt; ++i)
			ids.push_back(half - 1 - i);
	else
		for (int i : g.subset(half - cnt, cnt))
			ids.push_back(cnt + i);
	Buf<IO> data(cnt * len), orig(cnt * len), coded(cnt * len, 0x5a), back(cnt * len, 0xff), identifiers(cnt), subs(cnt);
	g.fill(data.get(), cnt * len);
	// the matrix: $1 / (id + k)$
	std::vector<uint64_t> inv(cnt * cnt);
	for (int i = 0; i < cnt; ++i)
		for (int k = 0; k < cnt; ++k)
			inv[cnt * i + k] = mod_inv(ids[i] + k, P);
	// make the encoded block of one identifier hold chosen elements, the last one of the field among them
	int crafted = 0;
	if (g.chance(3, 4)) {
		int b = (int)g.draw(cnt - 1), mode = (int)g.draw(2);
		pbt::Rng r(g.bulk());
		uint64_t base = r.below(P);
		for (int j = 0; j < len; ++j) {
			uint64_t target;
			if (mode == 0)
				target = r.chance(1, 4) ? P - 1 : r.below(P);
			else if (mode == 1)
				target = (base + j) % P;
			else
				target = j < len / 2 ? (uint64_t)j : P - 1 - (j - len / 2);
			uint64_t sum = 0;
			for (int k = 0; k + 1 < cnt; ++k)
				sum = (sum + inv[cnt * b + k] * data[len * k + j]) % P;
			uint64_t last = (target + P - sum) % P * (ids[b] + cnt - 1) % P;
			if (last <= std::numeric_limits<IO>::max()) {
				data[len * (cnt - 1) + j] = (IO)last;
				++crafted;
			}
		}
	}
	memcpy(orig.get(), data.get(), cnt * len * sizeof(IO));
	// objects of this type are large: one each per process, history included
	static CPF *enc = [] { void *p = malloc(sizeof(CPF)); memset(p, 0xa5, sizeof(CPF)); return new (p) CPF; }();
	static CPF *other = [] { void *p = malloc(sizeof(CPF)); memset(p, 0xff, sizeof(CPF)); return new (p) CPF; }();
	CPF *dec = g.flip() ? enc : other;
	g.note("GF(%llu) %d blocks of %d, first identifier %d, %d crafted", (unsigned long long)P, cnt, len, ids[0], crafted);
	g.labelf("GF(%llu)", (unsigned long long)P);
	if (cnt > 1)
		g.nontrivial();
	for (int i = 0; i < cnt; ++i)
		identifiers[i] = (IO)ids[i];
	std::vector<int> order(g.permutation(cnt));
	bool substituted = false;
	for (int i : order) {
		IO *block = coded.get() + len * i;
		int sub = enc->encode((const IO *)data.get(), block, ids[i], len, cnt);
		coded.check("blocks");
		CHECK(sub >= 0 && (uint64_t)sub < P - 1 && sub <= (int)std::numeric_limits<IO>::max(), "GF(%llu): substitute %d out of range", (unsigned long long)P, sub);
		subs[i] = (IO)sub;
		for (int j = 0; j < len; ++j) {
			uint64_t want = 0;
			for (int k = 0; k < cnt; ++k)
				want = (want + inv[cnt * i + k] * orig[len * k + j]) % P;
			CHECK(want != (uint64_t)sub, "GF(%llu), %d blocks of %d: substitute %d is in use", (unsigned long long)P, cnt, len, sub);
			CHECK(block[j] == (want == P - 1 ? (uint64_t)sub : want), "GF(%llu), %d blocks of %d: element %d of block %d encoded as %llu, not %llu (substitute %d)", (unsigned long long)P, cnt, len, j, ids[i],
				(unsigned long long)block[j], (unsigned long long)want, sub);
			substituted |= want == P - 1;
		}
	}
	if (substituted)
		g.label("substituted");
	CHECK(!memcmp(data.get(), orig.get(), cnt * len * sizeof(IO)), "encoder changed the data");
	std::vector<IO> copy(coded.get(), coded.get() + cnt * len);
	order = g.permutation(cnt);
	int want = g.chance(1, 4) ? (int)g.range(1, cnt) : cnt;
	for (int n = 0; n < want; ++n) {
		int i = order[n];
		dec->decode(back.get() + len * i, (const IO *)coded.get(), (const IO *)subs.get(), (const IO *)identifiers.get(), i, len, cnt);
		back.check("data");
		CHECK(!memcmp(back.get() + len * i, orig.get() + len * i, len * sizeof(IO)), "GF(%llu), %d blocks of %d: block %d not restored (first identifier %d)", (unsigned long long)P, cnt, len, i, ids[0]);
	}
	for (int n = want; n < cnt; ++n)
		for (int j = 0; j < len; ++j)
			CHECK(back[len * order[n] + j] == (IO)-1, "GF(%llu), %d blocks of %d: decoding wrote outside its block", (unsigned long long)P, cnt, len);
	for (int n = 0; n < want; ++n)
		CHECK(!memcmp(back.get() + len * order[n], orig.get() + len * order[n], len * sizeof(IO)), "GF(%llu), %d blocks of %d: block %d overwritten later", (unsigned long long)P, cnt, len, order[n]);
	CHECK(!memcmp(coded.get(), copy.data(), cnt * len * sizeof(IO)), "decoder changed the blocks");
}

}

PROP(blocks_257, 160000, 4000000)
{
	if (g.flip())
		blocks<uint32_t, 257, uint8_t, 255>(g);
	else
		blocks<uint32_t, 257, uint8_t, 64>(g);
}

PROP(blocks_65537, 30000, 800000)
{
	if (g.flip())
		blocks<uint64_t, 65537, uint16_t, 1024>(g);
	else
		blocks<uint64_t, 65537, uint16_t, 100>(g);
}

// more blocks than bytes can count
PROP(many, 120, 3000)
{
	typedef CODE::PrimeField<uint64_t, 65537> PF;
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, uint16_t, 100> CPF;
	const uint64_t P = 65537;
	static CPF *coder = new CPF;
	static std::vector<uint32_t> inv;
	if (inv.empty())
		for (uint64_t i = 0; i < P; ++i)
			inv.push_back((uint32_t)mod_inv(i, P));
	int cnt = (int)g.range(199, g.chance(1, 4) ? 2500 : 700), len = (int)g.range(1, 3);
	int total = 32768 - cnt, how = (int)g.draw(2), from = (int)g.draw(total - cnt);
	pbt::Rng r(g.bulk());
	std::vector<int> ids;
	for (int i = 0; i < cnt; ++i)
		ids.push_back(cnt + (how == 0 ? i : how == 1 ? total - 1 - i : (from + i) % total));
	for (int i = cnt - 1; i > 0; --i)
		std::swap(ids[i], ids[r.below(i + 1)]);
	Buf<uint16_t> data(cnt * len), coded(cnt * len), back(len), identifiers(cnt), subs(cnt);
	g.fill(data.get(), cnt * len);
	g.note("GF(65537) %d blocks of %d, first identifier %d", cnt, len, ids[0]);
	g.nontrivial();
	for (int i = 0; i < cnt; ++i) {
		identifiers[i] = (uint16_t)ids[i];
		int sub = coder->encode((const uint16_t *)data.get(), coded.get() + len * i, ids[i], len, cnt);
		subs[i] = (uint16_t)sub;
		int j = i % len;
		uint64_t want = 0;
		for (int k = 0; k < cnt; ++k)
			want += (uint64_t)inv[ids[i] + k] * data[len * k + j] % P;
		want %= P;
		CHECK(want != (uint64_t)sub && coded[len * i + j] == (want == P - 1 ? (uint64_t)sub : want), "GF(65537), %d blocks: element %d of block %d encoded as %d, not %d (substitute %d)", cnt, j, ids[i],
			coded[len * i + j], (int)want, sub);
	}
	coded.check("blocks");
	for (int n = 0; n < 3; ++n) {
		int i = n == 0 ? cnt - 1 : (int)r.below(cnt);
		coder->decode(back.get(), (const uint16_t *)coded.get(), (const uint16_t *)subs.get(), (const uint16_t *)identifiers.get(), i, len, cnt);
		back.check("data");
		CHECK(!memcmp(back.get(), data.get() + len * i, len * 2), "GF(65537), %d blocks: block %d not restored", cnt, i);
	}
}

// as many blocks as the field has elements for
PROP(crowded, 16, 400)
{
	typedef CODE::PrimeField<uint64_t, 65537> PF;
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, uint16_t, 100> CPF;
	const uint64_t P = 65537;
	static CPF *coder = new CPF;
	static std::vector<uint32_t> inv;
	if (inv.empty())
		for (uint64_t i = 0; i < P; ++i)
			inv.push_back((uint32_t)mod_inv(i, P));
	pbt::Rng r(g.bulk());
	{
		int cnt = (int)g.range(2500, 32767), len = (int)g.range(1, 2);
		if (cnt > 32767 - 20)
			len = 1;
		Buf<uint16_t> data(cnt * len), block(len);
		for (int i = 0; i < cnt * len; ++i)
			data[i] = (uint16_t)r.next();
		for (int n = 0; n < 20; ++n) {
			int id = n == 0 ? 32767 : n == 1 ? cnt : cnt + (int)r.below(32768 - cnt);
			int sub = coder->encode((const uint16_t *)data.get(), block.get(), id, len, cnt);
			block.check("block");
			for (int j = 0; j < len; ++j) {
				uint64_t want = 0;
				for (int k = 0; k < cnt; ++k)
					want += (uint64_t)inv[id + k] * data[len * k + j] % P;
				want %= P;
				CHECK(want != (uint64_t)sub && block[j] == (want == P - 1 ? (uint64_t)sub : want), "GF(65537), %d blocks: element %d of block %d encoded as %d, not %d (substitute %d)", cnt, j, id, block[j], (int)want, sub);
			}
		}
		g.note("GF(65537) %d blocks of %d;", cnt, len);
	}
	// what few blocks of data give, as encoding all is too much work
#ifdef PBT_ASAN
	int cnt = (int)g.range(2500, 5000);
#else
	int cnt = (int)g.range(2500, 16384);
#endif
	Buf<uint16_t> coded(cnt), identifiers(cnt), subs(cnt), back(1);
	int total = 32768 - cnt, from = (int)g.draw(total - 1);
	int at[3], what[3];
	for (int n = 0; n < 3; ++n) {
		at[n] = n == 0 ? cnt - 1 : n == 1 ? (int)r.below(std::min(cnt - 1, 300)) : 300 + (int)r.below(cnt - 301);
		what[n] = 1 + (int)r.below(65535);
	}
	for (int i = 0; i < cnt; ++i) {
		int id = cnt + (from + i) % total;
		uint64_t v = 0;
		identifiers[i] = (uint16_t)id;
		for (int n = 0; n < 3; ++n)
			v += (uint64_t)what[n] * inv[id + at[n]] % P;
		v %= P;
		subs[i] = v == 0;
		coded[i] = (uint16_t)(v == P - 1 ? subs[i] : v);
	}
	int n = (int)g.draw(3), idx = n < 3 ? at[n] : cnt / 2, want = 0;
	for (int k = 0; k < 3; ++k)
		if (at[k] == idx)
			want = (want + what[k]) % (int)P;
	if (n == 3 && want > 65535)
		return;
	coder->decode(back.get(), (const uint16_t *)coded.get(), (const uint16_t *)subs.get(), (const uint16_t *)identifiers.get(), idx, 1, cnt);
	back.check("data");
	CHECK(back[0] == want, "GF(65537), %d blocks: block %d restored as %d, not %d", cnt, idx, back[0], want);
	g.nontrivial();
	g.note("block %d of %d decoded", idx, cnt);
}

// almost every value in use
PROP(blocks_full, 200, 5000)
{
	typedef CODE::PrimeField<uint64_t, 65537> PF;
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, uint16_t, 65535> CPF;
	static CPF *coder = [] { void *p = malloc(sizeof(CPF)); memset(p, 0xa5, sizeof(CPF)); return new (p) CPF; }();
	const int P = 65537, len = 65535 - (int)g.draw(2);
	int id = (int)g.range(1, 32767);
	pbt::Rng r(g.bulk());
	int hole = (int)r.below(P);
	Buf<uint16_t> data(len), block(len), back(len), ids(1), subs(1);
	// encoded elements: all but one (or a few), in some order
	uint64_t step = 1 + r.below(P - 1), at = hole;
	for (int i = 0; i < len; ++i) {
		at = (at + step) % P;
		uint64_t v = at * id % P;
		data[i] = (uint16_t)(v == 65536 ? 1 : v);
	}
	std::vector<uint16_t> orig(data.get(), data.get() + len);
	ids[0] = (uint16_t)id;
	int sub = coder->encode((const uint16_t *)data.get(), block.get(), id, len, 1);
	block.check("block");
	CHECK(sub >= 0 && sub <= 65535, "substitute %d out of range", sub);
	subs[0] = (uint16_t)sub;
	coder->decode(back.get(), (const uint16_t *)block.get(), (const uint16_t *)subs.get(), (const uint16_t *)ids.get(), 0, len, 1);
	back.check("data");
	g.nontrivial();
	g.note("full block of %d, identifier %d, hole %d, step %d", len, id, hole, (int)step);
	for (int i = 0; i < len; ++i)
		CHECK(back[i] == orig[i], "element %d is %d, not %d (identifier %d)", i, back[i], orig[i], id);
}

// several blocks longer than 15 bits can count
PROP(extended_blocks, 200, 5000)
{
	typedef CODE::PrimeField<uint64_t, 65537> PF;
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, uint16_t, 65535> CPF;
	static CPF *coder = [] { void *p = malloc(sizeof(CPF)); memset(p, 0xa5, sizeof(CPF)); return new (p) CPF; }();
	const uint64_t P = 65537;
	int cnt = (int)g.range(2, 4), len = (int)g.edgy(30000, 65535);
	std::vector<int> ids;
	for (int i : g.subset(32768 - cnt, cnt))
		ids.push_back(cnt + i);
	Buf<uint16_t> data(cnt * len), coded(cnt * len), back(cnt * len), identifiers(cnt), subs(cnt);
	pbt::Rng r(g.bulk());
	// all values, so that few are left as a substitute
	bool dense = g.flip();
	uint64_t step = 1 + r.below(P - 1);
	for (int k = 0; k < cnt; ++k)
		for (int j = 0; j < len; ++j)
			data[len * k + j] = (uint16_t)(dense ? (k ? 7 * k : j * step % P) : r.next());
	g.note("GF(65537) %d blocks of %d, first identifier %d", cnt, len, ids[0]);
	g.nontrivial();
	for (int i = 0; i < cnt; ++i) {
		identifiers[i] = (uint16_t)ids[i];
		int sub = coder->encode((const uint16_t *)data.get(), coded.get() + len * i, ids[i], len, cnt);
		subs[i] = (uint16_t)sub;
		coded.check("blocks");
		uint64_t by[4];
		for (int k = 0; k < cnt; ++k)
			by[k] = mod_inv(ids[i] + k, P);
		for (int j = 0; j < len; ++j) {
			uint64_t want = 0;
			for (int k = 0; k < cnt; ++k)
				want += by[k] * data[len * k + j];
			want %= P;
			CHECK(want != (uint64_t)sub && coded[len * i + j] == (want == P - 1 ? (uint64_t)sub : want), "GF(65537), %d blocks of %d: element %d of block %d encoded as %d, not %d (substitute %d)", cnt, len, j, ids[i],
				coded[len * i + j], (int)want, sub);
		}
	}
	for (int i = 0; i < cnt; ++i) {
		coder->decode(back.get() + len * i, (const uint16_t *)coded.get(), (const uint16_t *)subs.get(), (const uint16_t *)identifiers.get(), i, len, cnt);
		back.check("data");
	}
	for (int i = 0; i < cnt * len; ++i)
		CHECK(back[i] == data[i], "GF(65537), %d blocks of %d: element %d is %d, not %d", cnt, len, i, back[i], data[i]);
}
