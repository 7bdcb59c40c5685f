// Simplex codes: exact encoder, maximum likelihood decoder
#include "orthogonal.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"

namespace {

template <int K>
int reference(const int8_t *soft, bool *tie)
{
	const int W = 1 << K, N = W - 1;
	int64_t best = 0;
	int word = -1;
	*tie = false;
	std::vector<int64_t> fast;
	if (K > 11) {
		fast.assign(1, 0);
		fast.insert(fast.end(), soft, soft + N);
		correlate(fast, 0, W);
	}
	for (int m = 0; m < W; ++m) {
		int64_t sum = 0;
		if (K > 11)
			sum = fast[m];
		else
			for (int i = 0; i < N; ++i)
				sum += par(m & (i + 1)) ? -soft[i] : soft[i];
		if (word < 0 || sum > best) {
			best = sum;
			word = m;
			*tie = false;
		} else if (sum == best) {
			*tie = true;
		}
	}
	return word;
}

template <int K>
void decode(G &g)
{
	const int W = 1 << K, N = W - 1;
	int msg = (int)g.draw(W - 1);
	pbt::Fresh<CODE::SimplexEncoder<K>> enc(g);
	pbt::Fresh<CODE::SimplexDecoder<K>> dec(g);
	Buf<int8_t> code(N, 0x55), soft(N), copy(N);
	(*enc)(code.get(), msg);
	code.check("code");
	for (int i = 0; i < N; ++i)
		CHECK(code[i] == (par(msg & (i + 1)) ? -1 : 1), "simplex order %d: bit %d of message %d is %d", K, i, msg, code[i]);
	soft_input(g, soft.get(), N, [&](int i) { return code[i] < 0; });
	memcpy(copy.get(), soft.get(), N);
	int got = (*dec)(soft.get());
	CHECK(!memcmp(copy.get(), soft.get(), N), "simplex order %d: decoder changed its input", K);
	bool tie;
	int want = reference<K>(soft.get(), &tie);
	bool some = false;
	for (int i = 0; i < N; ++i)
		some = some || soft[i];
	if (some)
		g.nontrivial();
	g.labelf("order %d %s", K, tie ? "tie" : "decided");
	g.note("order %d message %d soft %d %d %d .. decoded %d", K, msg, soft[0], N > 1 ? soft[1] : 0, N > 2 ? soft[2] : 0, got);
	if (tie)
		CHECK(got == -1, "simplex order %d: %d returned for a tie", K, got);
	else
		CHECK(got == want, "simplex order %d: %d returned, message %d is the best", K, got, want);
}

template <int K>
void words(G &g)
{
	const int W = 1 << K, N = W - 1;
	pbt::Fresh<CODE::SimplexEncoder<K>> enc(g);
	pbt::Fresh<CODE::SimplexDecoder<K>> dec(g);
	int amp = (int)g.edgy(1, 127);
	std::vector<int8_t> soft(N);
	for (int m = 0; m < W; ++m) {
		(*enc)(soft.data(), m);
		int weight = 0;
		for (int i = 0; i < N; ++i)
			weight += soft[i] < 0;
		CHECK(weight == (m ? W / 2 : 0), "simplex order %d: codeword of message %d has weight %d", K, m, weight);
		for (int i = 0; i < N; ++i)
			soft[i] *= amp;
		int got = (*dec)(soft.data());
		CHECK(got == m, "simplex order %d: noiseless message %d decoded to %d", K, m, got);
	}
	g.nontrivial();
	g.note("all words of order %d, amplitude %d", K, amp);
}

typedef void (*Fn)(G &);

}

PROP(decode_small, 2700000, 21600000)
{
	static const Fn fns[] = { decode<2>, decode<3>, decode<4>, decode<4>, decode<5>, decode<6> };
	fns[g.draw(5)](g);
}

PROP(decode_large, 18000, 144000)
{
	static const Fn fns[] = { decode<7>, decode<8>, decode<9>, decode<10>, decode<11> };
	fns[g.draw(4)](g);
}

PROP(decode_huge, 1200, 9600)
{
	static const Fn fns[] = { decode<12>, decode<13>, decode<14>, decode<15>, decode<16>, decode<17> };
	fns[g.draw(5)](g);
}

PROP(words, 1200, 9600)
{
	static const Fn fns[] = { words<2>, words<3>, words<4>, words<5>, words<6>, words<7>, words<8>, words<9>, words<10> };
	fns[g.draw(8)](g);
}
