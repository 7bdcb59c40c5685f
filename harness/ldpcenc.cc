// LDPC encoder: the parity bits fulfil every check
#include "ldpctab.hh"
#include "ldpc_encoder.hh"

namespace {

template <typename T>
void encode(G &g)
{
	std::vector<Entry> e(make_table<T>(g, g.chance(1, 3) ? OFTEN : NEVER));
	std::vector<std::vector<int>> checks(checks_of<T>(e));
	Fresh<CODE::LDPCEncoder<T>> enc(g);
	g.note("%d of %d bits, blocks of %d, %d links, first %d", T::K, T::N, T::M, T::E, T::POS[0]);
	g.labelf("%d of %d bits", T::K, T::N);
	Buf<int8_t> sum(T::K), sump(T::R);
	for (int i = 0; i < T::K; ++i)
		sum[i] = 1;
	for (int i = 0; i < T::R; ++i)
		sump[i] = 1;
	int words = (int)g.range(1, 4);
	for (int w = 0; w <= words; ++w) {
		Buf<int8_t> data(T::K, 0xa5, g.draw(3)), parity(T::R, (uint8_t)g.bits(8), g.draw(3));
		if (w == words) {
			if (words < 2)
				break;
			// the sum of all messages so far
			memcpy(data.get(), sum.get(), T::K);
		} else {
			int kind = (int)g.draw(4);
			Rng r(g.bulk());
			int one = (int)r.below(T::K);
			for (int i = 0; i < T::K; ++i)
				data[i] = kind == 0 ? 1 : kind == 1 ? (i == one ? -1 : 1) : kind == 2 ? -1 : r.below(2) ? -1 : 1;
		}
		std::vector<int8_t> copy(data.begin(), data.end());
		(*enc)((const int8_t *)data.get(), parity.get());
		data.check("data");
		parity.check("parity");
		CHECK(!memcmp(copy.data(), data.get(), T::K), "encoder changed the message");
		for (int c = 0; c < T::R; ++c) {
			CHECK(parity[c] == 1 || parity[c] == -1, "%d of %d bits, word %d: parity bit %d is %d", T::K, T::N, w, c, parity[c]);
			int p = parity[c] * (c ? parity[c - 1] : 1);
			for (int b : checks[c])
				p *= copy[b];
			CHECK(p == 1, "%d of %d bits, word %d: check %d does not hold", T::K, T::N, w, c);
		}
		if (w < words) {
			for (int i = 0; i < T::K; ++i)
				sum[i] *= copy[i];
			for (int i = 0; i < T::R; ++i)
				sump[i] *= parity[i];
		} else {
			CHECK(!memcmp(sump.get(), parity.get(), T::R), "%d of %d bits: parity of the sum is not the sum of the parity", T::K, T::N);
		}
		for (int i = 0; i < T::K; ++i)
			if (copy[i] < 0) {
				g.nontrivial();
				break;
			}
	}
}

typedef void (*Fn)(G &);

}

PROP(checks_hold, 60000, 600000)
{
	static const Fn f[] = {
		encode<Table<1, 1, 1, 1, 1>>, encode<Table<1, 2, 2, 4, 2>>, encode<Table<1, 3, 2, 6, 4>>, encode<Table<1, 4, 5, 12, 4>>, encode<Table<2, 3, 3, 8, 3>>,
		encode<Table<2, 5, 4, 16, 6>>, encode<Table<3, 4, 2, 8, 5>>, encode<Table<4, 6, 6, 20, 8>>, encode<Table<12, 2, 3, 8, 4>>, encode<Table<12, 9, 5, 30, 10>>, encode<Table<7, 10, 1, 20, 20>>, encode<Table<1, 12, 2, 36, 28>>,
		encode<Table<1, 2, 6, 9, 3>>,
	};
	f[g.draw(sizeof(f) / sizeof(f[0]) - 1)](g);
}

PROP(long_codes, 1200, 10000)
{
	static const Fn f[] = { encode<Table<12, 45, 45, 150, 8>>, encode<Table<12, 40, 5, 130, 30>>, encode<Table<12, 90, 90, 270, 5>>, encode<Table<12, 45, 135, 270, 2>>, encode<Table<1, 30, 300, 640, 3>> };
	f[g.draw(4)](g);
}

// as long as message positions can get, most of them in the upper half
PROP(longest_codes, 160, 1600)
{
	static const Fn f[] = { encode<Table<12, 150, 30, 450, 20>>, encode<Table<12, 120, 60, 400, 8>>, encode<Table<12, 182, 2, 300, 182>>, encode<Table<2, 1092, 6, 1200, 240>> };
	f[g.draw(3)](g);
}
