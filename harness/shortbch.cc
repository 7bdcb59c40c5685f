// Short BCH codes: encoder, bounded distance decoder, soft decoder
#include "orthogonal.hh"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"

namespace {

template <typename T>
T &keep()
{
	static T *t = [] { void *p = malloc(sizeof(T)); memset(p, 0xa5, sizeof(T)); return new (p) T; }();
	return *t;
}

template <int N, int K, int GEN, int T>
struct Code
{
	static const int P = N - K;
	typedef CODE::ShortBCHCodeEncoder<N, K, GEN> Enc;
	typedef CODE::ShortBCHCodeDecoder<N, K, GEN, T> Dec;
	// remainder by the generator polynomial
	static int rem(int word)
	{
		for (int i = N - 1; i >= P; --i)
			if ((word >> i) & 1)
				word ^= GEN << (i - P);
		return word;
	}
	static int encode(int msg) { return (msg << P) | rem(msg << P); }
	// remainder to error pattern of weight T or less, -1 for none
	struct Table
	{
		std::vector<int> err;
		Table() : err(1 << P, -1)
		{
			add(0, 0, 0);
		}
		void add(int e, int from, int weight)
		{
			err[rem(e)] = e;
			if (weight < T)
				for (int i = from; i < N; ++i)
					add(e | 1 << i, i + 1, weight + 1);
		}
	};
	static int hard(int word)
	{
		static const Table *t = new Table;
		int e = t->err[rem(word)];
		return e < 0 ? -1 : word ^ e;
	}
	static int metric(const int8_t *soft, int word)
	{
		int sum = 0;
		for (int i = 0; i < N; ++i)
			sum += (word >> i) & 1 ? -soft[i] : soft[i];
		return sum;
	}

	static void encoder(G &g)
	{
		int a = (int)g.edgy(0, (1 << K) - 1), b = (int)g.edgy(0, (1 << K) - 1);
		Enc &enc = keep<Enc>();
		int ca = enc(a), cb = enc(b);
		CHECK(ca == encode(a), "BCH(%d,%d): message %x encoded as %x, not %x", N, K, a, ca, encode(a));
		CHECK(enc(a ^ b) == (ca ^ cb), "BCH(%d,%d): not linear at %x and %x", N, K, a, b);
		if (a != b)
			CHECK(__builtin_popcount(ca ^ cb) > 2 * T, "BCH(%d,%d): codewords of %x and %x at distance %d", N, K, a, b, __builtin_popcount(ca ^ cb));
		Buf<int8_t> soft(N, 0x55);
		int ret = enc(soft.get(), a);
		soft.check("code");
		CHECK(ret == ca, "BCH(%d,%d): encoding to signs returned %x, not %x", N, K, ret, ca);
		for (int i = 0; i < N; ++i)
			CHECK(soft[i] == ((ca >> i) & 1 ? -1 : 1), "BCH(%d,%d): sign %d of message %x is %d", N, K, i, a, soft[i]);
		if (a && b)
			g.nontrivial();
		g.note("BCH(%d,%d) messages %x %x", N, K, a, b);
	}

	static void hard_decoder(G &g)
	{
		int word;
		Dec &dec = keep<Dec>();
		if (g.chance(1, 3)) {
			word = (int)g.draw((uint64_t(1) << N) - 1);
		} else {
			word = encode((int)g.draw((1 << K) - 1));
			for (int i : g.subset(N, (int)g.range(0, std::min(N, T + 2))))
				word ^= 1 << i;
		}
		int got = dec(word), want = hard(word);
		g.label(want < 0 ? "beyond the radius" : want == word ? "codeword" : "within the radius");
		if (want != word)
			g.nontrivial();
		g.note("BCH(%d,%d) word %x decoded to %x", N, K, word, got);
		CHECK(got == want, "BCH(%d,%d): word %x decoded to %x, not %x", N, K, word, got, want);
	}

	static void soft_decoder(G &g)
	{
		Dec &dec = keep<Dec>();
		int msg = (int)g.draw((1 << K) - 1), sent = encode(msg);
		Buf<int8_t> soft(N), copy(N);
		if (g.chance(1, 3)) {
			// reliable ones and a few unreliable ones, wrong or not
			int scale = (int)g.edgy(3, 127);
			pbt::Rng r(g.bulk());
			for (int i = 0; i < N; ++i)
				soft[i] = ((sent >> i) & 1 ? -1 : 1) * (int)r.range(scale / 2 + 1, scale);
			std::vector<int> weak(g.subset(N, (int)g.range(0, std::min(N, 2 * T + 3))));
			for (int i : weak)
				soft[i] = (soft[i] < 0 ? -1 : 1) * (int)g.range(0, scale / 2) * (g.flip() ? -1 : 1);
			if (g.chance(1, 4))
				soft[g.draw(N - 1)] *= -1;
		} else {
			soft_input(g, soft.get(), N, [&](int i) { return (sent >> i) & 1; });
		}
		if (g.chance(1, 4))
			for (int i = 0; i < N; ++i)
				soft[i] = -std::max<int>(-127, soft[i]);
		memcpy(copy.get(), soft.get(), N);
		int got = dec((const int8_t *)soft.get());
		CHECK(!memcmp(copy.get(), soft.get(), N), "BCH(%d,%d): decoder changed its input", N, K);
		int word = 0;
		for (int i = 0; i < N; ++i)
			word |= (soft[i] < 0) << i;
		g.note("BCH(%d,%d) hard decisions %x, weakest %d.. decoded to %x", N, K, word, soft[0], got);
		CHECK(got == -1 || (got >= 0 && !((int64_t)got >> N) && !rem(got)), "BCH(%d,%d): %x is no codeword", N, K, got);
		if (K <= 4) {
			int best = INT_MIN, arg = -1;
			bool tie = false;
			for (int m = 0; m < 1 << K; ++m) {
				int c = encode(m), met = metric(soft, c);
				if (met > best) {
					best = met;
					arg = c;
					tie = false;
				} else if (met == best) {
					tie = true;
				}
			}
			g.label(tie ? "exhaustive: tie" : "exhaustive: decided");
			g.nontrivial();
			CHECK(got == (tie ? -1 : arg), "BCH(%d,%d): decoded to %x, the best codeword is %x%s", N, K, got, arg, tie ? " (tied)" : "");
			return;
		}
		// sets of the T least reliable positions
		std::vector<int> pos(N);
		for (int i = 0; i < N; ++i)
			pos[i] = i;
		std::stable_sort(pos.begin(), pos.end(), [&](int a, int b) { return std::abs(soft[a]) < std::abs(soft[b]); });
		int edge = std::abs(soft[pos[T - 1]]), below = 0, equal = 0;
		for (int i = 0; i < N; ++i) {
			below += std::abs(soft[i]) < edge;
			equal += std::abs(soft[i]) == edge;
		}
		auto search = [&](const std::vector<int> &flips) {
			int best = INT_MIN, arg = -1;
			bool tie = false;
			std::vector<int> seen;
			for (int j = 0; j < 1 << T; ++j) {
				int w = word;
				for (int i = 0; i < T; ++i)
					if ((j >> i) & 1)
						w ^= 1 << flips[i];
				int c = hard(w);
				if (c < 0 || std::find(seen.begin(), seen.end(), c) != seen.end())
					continue;
				seen.push_back(c);
				int met = metric(soft, c);
				if (met > best) {
					best = met;
					arg = c;
					tie = false;
				} else if (met == best) {
					tie = true;
				}
			}
			return tie ? -1 : arg;
		};
		g.nontrivial();
		if (below + equal == T) {
			int want = search(pos);
			g.label(want < 0 ? "least reliable: failure" : want == hard(word) ? "least reliable: as hard" : "least reliable: improved");
			CHECK(got == want, "BCH(%d,%d): decoded to %x, the best candidate is %x (hard decision %x)", N, K, got, want, hard(word));
			return;
		}
		// any choice among equally reliable positions will do
		int pick = T - below;
		std::vector<int> choice(pos.begin(), pos.begin() + T);
		bool any = false;
		std::vector<int> idx(pick);
		for (int i = 0; i < pick; ++i)
			idx[i] = i;
		int tries = 0;
		for (;;) {
			for (int i = 0; i < pick; ++i)
				choice[below + i] = pos[below + idx[i]];
			if (search(choice) == got) {
				any = true;
				break;
			}
			if (++tries > 5000) {
				any = true;
				break;
			}
			int i = pick - 1;
			while (i >= 0 && idx[i] == equal - pick + i)
				--i;
			if (i < 0)
				break;
			++idx[i];
			for (int k = i + 1; k < pick; ++k)
				idx[k] = idx[k - 1] + 1;
		}
		g.label("least reliable: not unique");
		CHECK(any, "BCH(%d,%d): decoded to %x, no choice of least reliable positions leads there (hard decision %x)", N, K, got, hard(word));
	}
};

typedef void (*Fn)(G &);

#define CODES(f) \
	Code<23, 12, 0xae3, 3>::f, Code<23, 12, 0xc75, 3>::f, Code<15, 5, 0x537, 3>::f, Code<31, 16, 0x8faf, 3>::f, \
	Code<15, 7, 0x1d1, 2>::f, Code<31, 21, 0x769, 2>::f, Code<17, 9, 0x139, 2>::f, Code<15, 11, 0x13, 1>::f, Code<7, 4, 0xb, 1>::f, \
	Code<15, 4, 0x9af, 3>::f, Code<7, 3, 0x17, 1>::f, Code<7, 1, 0x7f, 3>::f, Code<3, 1, 0x7, 1>::f, Code<14, 4, 0x537, 3>::f, Code<12, 4, 0x1d1, 2>::f, Code<20, 9, 0xae3, 3>::f, Code<11, 7, 0x13, 1>::f

template <size_t L>
void any(G &g, const Fn (&fns)[L])
{
	fns[g.draw(L - 1)](g);
}

}

PROP(encoder, 1600000, 20000000)
{
	static const Fn fns[] = { CODES(encoder) };
	any(g, fns);
}

PROP(hard_decoder, 2400000, 30000000)
{
	static const Fn fns[] = { CODES(hard_decoder) };
	any(g, fns);
}

PROP(soft_decoder, 3200000, 30000000)
{
	static const Fn fns[] = { CODES(soft_decoder) };
	any(g, fns);
}

// every word there is
PROP(all_words, 128, 1024)
{
	typedef Code<15, 5, 0x537, 3> A;
	typedef Code<15, 7, 0x1d1, 2> B;
	typedef Code<7, 4, 0xb, 1> C;
	typedef Code<17, 9, 0x139, 2> D;
	int which = (int)g.draw(3);
	g.note("all words of code %d", which);
	g.nontrivial();
#define ALL(X, n) for (int w = 0; w < 1 << n; ++w) { int got = keep<X::Dec>()(w), want = X::hard(w); CHECK(got == want, "code %d: word %x decoded to %x, not %x", which, w, got, want); }
	switch (which) {
	case 0: ALL(A, 15) break;
	case 1: ALL(B, 15) break;
	case 2: ALL(C, 7) break;
	default: ALL(D, 17)
	}
}
