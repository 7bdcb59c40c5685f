// Augmented Hadamard codes: exact encoder, maximum likelihood decoder
#include "orthogonal.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"

namespace {

template <int K>
int reference(const int8_t *soft, bool *tie)
{
	const int N = 1 << (K - 1);
	int64_t best = 0;
	int word = -1;
	*tie = false;
	std::vector<int64_t> fast;
	if (K > 12) {
		fast.assign(soft, soft + N);
		correlate(fast, 0, N);
	}
	for (int m = 0; m < N; ++m) {
		int64_t sum = 0;
		if (K > 12)
			sum = fast[m];
		else
			for (int i = 0; i < N; ++i)
				sum += par(m & i) ? -soft[i] : soft[i];
		for (int s = 0; s < 2; ++s, sum = -sum) {
			if (word < 0 || sum > best) {
				best = sum;
				word = m + N * s;
				*tie = false;
			} else if (sum == best) {
				*tie = true;
			}
		}
	}
	return word;
}

template <int K>
void decode(G &g)
{
	const int N = 1 << (K - 1), W = 1 << K;
	int msg = (int)g.draw(W - 1);
	pbt::Fresh<CODE::HadamardEncoder<K>> enc(g);
	pbt::Fresh<CODE::HadamardDecoder<K>> dec(g);
	Buf<int8_t> code(N, 0x55), soft(N), copy(N);
	(*enc)(code.get(), msg);
	code.check("code");
	for (int i = 0; i < N; ++i)
		CHECK(code[i] == (par(msg & (i | N)) ? -1 : 1), "Hadamard order %d: bit %d of message %d is %d", K, i, msg, code[i]);
	soft_input(g, soft.get(), N, [&](int i) { return code[i] < 0; });
	memcpy(copy.get(), soft.get(), N);
	int got = (*dec)(soft.get());
	CHECK(!memcmp(copy.get(), soft.get(), N), "Hadamard order %d: decoder changed its input", K);
	bool tie;
	int want = reference<K>(soft.get(), &tie);
	bool some = false;
	for (int i = 0; i < N; ++i) {
		some = some || soft[i];
	}
	if (some)
		g.nontrivial();
	g.labelf("order %d %s", K, tie ? "tie" : "decided");
	g.note("order %d message %d soft %d %d %d .. decoded %d", K, msg, soft[0], soft[1], N > 2 ? soft[2] : 0, got);
	if (tie)
		CHECK(got == -1, "Hadamard order %d: %d returned for a tie", K, got);
	else
		CHECK(got == want, "Hadamard order %d: %d returned, message %d is the best", K, got, want);
}

// the code itself: all codewords, all distances
template <int K>
void words(G &g)
{
	const int N = 1 << (K - 1), W = 1 << K;
	pbt::Fresh<CODE::HadamardEncoder<K>> enc(g);
	pbt::Fresh<CODE::HadamardDecoder<K>> dec(g);
	std::vector<int8_t> all(W * N, 0);
	for (int m = 0; m < W; ++m)
		(*enc)(&all[m * N], m);
	int amp = (int)g.edgy(1, 127);
	std::vector<int8_t> soft(N);
	for (int a = 0; a < W; ++a) {
		for (int b = 0; b < a; ++b) {
			int d = 0;
			for (int i = 0; i < N; ++i)
				d += all[a * N + i] != all[b * N + i];
			CHECK(d == N / 2 || d == N, "Hadamard order %d: messages %d and %d at distance %d", K, a, b, d);
		}
		for (int i = 0; i < N; ++i)
			soft[i] = all[a * N + i] * amp;
		int got = (*dec)(soft.data());
		CHECK(got == a, "Hadamard order %d: noiseless message %d decoded to %d", K, a, got);
	}
	g.nontrivial();
	g.note("all words of order %d, amplitude %d", K, amp);
}

typedef void (*Fn)(G &);

}

PROP(decode_small, 2700000, 21600000)
{
	static const Fn fns[] = { decode<2>, decode<3>, decode<4>, decode<4>, decode<5>, decode<6>, decode<7> };
	fns[g.draw(6)](g);
}

PROP(decode_large, 18000, 144000)
{
	static const Fn fns[] = { decode<8>, decode<9>, decode<10>, decode<11>, decode<12> };
	fns[g.draw(4)](g);
}

PROP(decode_huge, 1200, 9600)
{
	static const Fn fns[] = { decode<13>, decode<14>, decode<15>, decode<16>, decode<17>, decode<18> };
	fns[g.draw(5)](g);
}

PROP(words, 1200, 9600)
{
	static const Fn fns[] = { words<2>, words<3>, words<4>, words<5>, words<6>, words<7>, words<8>, words<9>, words<10> };
	fns[g.draw(8)](g);
}
