// Ordered statistics decoding: the best codeword of the search set, and the list of them
#include "orthogonal.hh"
#include "osd.hh"

namespace {

bool bit(const uint8_t *p, int i) { return (p[i / 8] >> (7 - i % 8)) & 1; }

template <typename T>
T &keep()
{
	static T *t = [] { void *p = nullptr; if (posix_memalign(&p, 64, sizeof(T))) abort(); memset(p, 0xa5, sizeof(T)); return new (p) T; }();
	return *t;
}

int rank_of(std::vector<std::vector<uint8_t>> m)
{
	int r = 0;
	for (size_t c = 0; m.size() && c < m[0].size() && r < (int)m.size(); ++c) {
		size_t p = r;
		while (p < m.size() && !m[p][c])
			++p;
		if (p == m.size())
			continue;
		std::swap(m[p], m[r]);
		for (size_t i = 0; i < m.size(); ++i)
			if ((int)i != r && m[i][c])
				for (size_t j = 0; j < m[0].size(); ++j)
					m[i][j] ^= m[r][j];
		++r;
	}
	return r;
}

// a generator matrix of full rank
void generator(G &g, int8_t *mat, int n, int k)
{
	pbt::Rng r(g.bulk());
	int kind = (int)g.draw(5), shown = (int)g.draw(3);
	// systematic up to a column permutation, then rows mixed
	std::vector<int> cols(n);
	for (int i = 0; i < n; ++i)
		cols[i] = i;
	if (kind)
		for (int i = n - 1; i > 0; --i)
			std::swap(cols[i], cols[r.below(i + 1)]);
	for (int j = 0; j < k; ++j)
		for (int i = 0; i < n; ++i) {
			int v;
			if (i < k)
				v = i == j;
			else if (kind == 2)
				v = r.below(6) == 0;
			else if (kind == 3)
				v = i % k == j;
			else
				v = (int)r.below(2);
			mat[n * j + cols[i]] = (int8_t)v;
		}
	if (kind == 4 || kind == 3) {
		// useless and repeated columns
		for (int t = 0; t < n / 4; ++t) {
			int a = k + (int)r.below(std::max(1, n - k)), b = (int)r.below(n);
			if (a < n)
				for (int j = 0; j < k; ++j)
					mat[n * j + cols[a]] = r.below(2) && b ? mat[n * j + cols[b]] : 0;
		}
	}
	if (shown)
		for (int t = 0; t < 3 * k; ++t) {
			int a = (int)r.below(k), b = (int)r.below(k);
			if (a != b)
				for (int i = 0; i < n; ++i)
					mat[n * a + i] ^= mat[n * b + i];
		}
}

int strength(int8_t v) { return std::abs(std::max<int>(v, -127)); }

void reliabilities(G &g, int8_t *soft, int n, const std::vector<uint8_t> &sent)
{
	pbt::Rng r(g.bulk());
	int kind = (int)g.draw(7);
	if (n > 127 && kind < 7) {
		// distinct ones for some positions, small ones for the rest
		int low = (int)g.pick({ 0, 1, 3, 10, 27, 60 }), frac = (int)g.draw(20);
		std::vector<int> pos(n);
		for (int i = 0; i < n; ++i)
			pos[i] = i;
		for (int i = 0; i < n; ++i)
			std::swap(pos[i], pos[i + r.below(n - i)]);
		for (int t = 0; t < n; ++t) {
			int i = pos[t], m = 127 - t > low ? 127 - t : (int)r.below(low + 1);
			bool flip = r.below(40) < (uint64_t)frac;
			soft[i] = (int8_t)((sent[i] != (uint8_t)flip) ? -m : m);
		}
	} else if (kind == 7) {
		soft_input(g, soft, n, [&](int i) { return sent[i]; });
	} else {
		// a permutation of distinct magnitudes
		std::vector<int> mags;
		int top = kind == 0 ? n - 1 : kind == 1 ? 127 : n - 1 + (int)r.below(127 - n + 2);
		if (top > 127)
			top = 127;
		std::vector<int> all(top + 1);
		for (int i = 0; i <= top; ++i)
			all[i] = i;
		for (int i = 0; i < n; ++i)
			std::swap(all[i], all[i + r.below(top + 1 - i)]);
		mags.assign(all.begin(), all.begin() + n);
		// wrong ones: none, the weak ones likely, any, all
		int wrong = (int)g.draw(5), frac = (int)g.range(1, 20);
		for (int i = 0; i < n; ++i) {
			bool flip;
			switch (wrong) {
			case 0: flip = false; break;
			case 1: flip = (int)r.below(top + 1) > mags[i] && r.chance(1, 2); break;
			case 2: flip = r.below(40) < (uint64_t)frac; break;
			case 3: flip = true; break;
			default: flip = mags[i] < top / 2 && r.below(20) < (uint64_t)frac;
			}
			soft[i] = (int8_t)((sent[i] != (uint8_t)flip) ? -mags[i] : mags[i]);
		}
	}
	if (g.chance(1, 6))
		for (int i = 0; i < n; ++i)
			if (soft[i] == -127)
				soft[i] = -128;
}

int metric(const int8_t *soft, const std::vector<uint8_t> &word)
{
	int sum = 0;
	for (size_t i = 0; i < word.size(); ++i) {
		int s = std::max<int>(soft[i], -127);
		sum += word[i] ? -s : s;
	}
	return sum;
}

struct Search
{
	int n, k, order;
	std::vector<std::vector<uint8_t>> rows; // reduced to the most reliable basis
	std::vector<int> basis;
	std::vector<uint8_t> start;
	bool unique;
	// the most reliable basis is unique if both ways to order equal magnitudes lead to it
	Search(const int8_t *mat, int n, int k, int order, const int8_t *soft) : n(n), k(k), order(order), rows(k, std::vector<uint8_t>(n))
	{
		for (int j = 0; j < k; ++j)
			for (int i = 0; i < n; ++i)
				rows[j][i] = mat[n * j + i];
		reduce(soft, true);
		std::vector<int> other(basis);
		reduce(soft, false);
		std::vector<int> here(basis);
		std::sort(other.begin(), other.end());
		std::sort(here.begin(), here.end());
		unique = here == other;
		start.assign(n, 0);
		for (size_t b = 0; b < basis.size(); ++b)
			if (soft[basis[b]] < 0)
				add(start, b);
	}
	void reduce(const int8_t *soft, bool backward)
	{
		basis.clear();
		std::vector<int> pos(n);
		for (int i = 0; i < n; ++i)
			pos[i] = backward ? n - 1 - i : i;
		std::stable_sort(pos.begin(), pos.end(), [&](int a, int b) { return strength(soft[a]) > strength(soft[b]); });
		for (int c = 0; c < n && (int)basis.size() < k; ++c) {
			int r = (int)basis.size(), p = r;
			while (p < k && !rows[p][pos[c]])
				++p;
			if (p == k)
				continue;
			std::swap(rows[p], rows[r]);
			for (int i = 0; i < k; ++i)
				if (i != r && rows[i][pos[c]])
					for (int j = 0; j < n; ++j)
						rows[i][j] ^= rows[r][j];
			basis.push_back(pos[c]);
		}
	}
	void add(std::vector<uint8_t> &w, int row) const
	{
		for (int i = 0; i < n; ++i)
			w[i] ^= rows[row][i];
	}
	template <typename F>
	void visit(std::vector<uint8_t> &w, int from, int left, F f) const
	{
		f(w);
		if (left)
			for (int b = from; b < k; ++b) {
				add(w, b);
				visit(w, b + 1, left - 1, f);
				add(w, b);
			}
	}
	bool codeword(const std::vector<uint8_t> &w) const
	{
		std::vector<uint8_t> t(w);
		for (int b = 0; b < k; ++b)
			if (t[basis[b]])
				for (int i = 0; i < n; ++i)
					t[i] ^= rows[b][i];
		for (int i = 0; i < n; ++i)
			if (t[i])
				return false;
		return true;
	}
	int flips(const std::vector<uint8_t> &w) const
	{
		int d = 0;
		for (int b : basis)
			d += w[b] != start[b];
		return d;
	}
};

template <int N, int K>
std::vector<uint8_t> codeword_of(G &g, const int8_t *mat)
{
	const int MB = (K + 7) / 8, CB = (N + 7) / 8;
	Buf<uint8_t> msg(MB), code(CB, 0x5a);
	g.fill(msg.get(), MB);
	CODE::LinearEncoder<N, K> enc;
	enc(code.get(), msg.get(), mat);
	code.check("codeword");
	std::vector<uint8_t> w(N);
	for (int i = 0; i < N; ++i) {
		int v = 0;
		for (int j = 0; j < K; ++j)
			v ^= mat[N * j + i] & bit(msg, j);
		w[i] = v;
		CHECK(bit(code, i) == v, "(%d,%d): encoder gives bit %d of the codeword as %d", N, K, i, !v);
	}
	return w;
}

template <int N, int K, int O>
void decode(G &g)
{
	typedef CODE::OrderedStatisticsDecoder<N, K, O> OSD;
	Buf<int8_t> mat(N * K), soft(N), copy(N);
	generator(g, mat.get(), N, K);
	std::vector<uint8_t> sent(codeword_of<N, K>(g, mat.get()));
	reliabilities(g, soft.get(), N, sent);
	memcpy(copy.get(), soft.get(), N);
	std::vector<int8_t> mat0(mat.get(), mat.get() + N * K);
	Buf<uint8_t> hard((N + 7) / 8, 0x5a);
	bool ok = keep<OSD>()(hard.get(), (const int8_t *)soft.get(), (const int8_t *)mat.get());
	hard.check("codeword");
	CHECK(!memcmp(copy.get(), soft.get(), N) && !memcmp(mat.get(), mat0.data(), N * K), "(%d,%d) order %d: decoder changed its input", N, K, O);
	std::vector<uint8_t> got(N);
	for (int i = 0; i < N; ++i)
		got[i] = bit(hard, i);
	Search s(mat.get(), N, K, O, soft.get());
	g.note("(%d,%d) order %d, soft %d %d %d.., %s", N, K, O, soft[0], N > 1 ? soft[1] : 0, N > 2 ? soft[2] : 0, ok ? "unique" : "not unique");
	CHECK(s.codeword(got), "(%d,%d) order %d: the result is no codeword", N, K, O);
	int met = metric(soft.get(), got);
	if (!s.unique && O < K) {
		g.label("several bases");
		return;
	}
	int best = INT_MIN, count = 0;
	std::vector<uint8_t> w(s.start), arg;
	s.visit(w, 0, std::min(O, K), [&](const std::vector<uint8_t> &c) {
		int m = metric(soft.get(), c);
		if (m > best) {
			best = m;
			count = 1;
			arg = c;
		} else if (m == best) {
			++count;
		}
	});
	g.nontrivial();
	g.label(O >= K ? "exhaustive" : arg == s.start ? "order zero was best" : "improved");
	CHECK(O >= K || s.flips(got) <= O, "(%d,%d) order %d: the result is outside the search set", N, K, O);
	CHECK(met == best, "(%d,%d) order %d: correlation %d returned, the best is %d", N, K, O, met, best);
	CHECK(ok == (count == 1), "(%d,%d) order %d: %s reported, there are %d best codewords", N, K, O, ok ? "unique" : "not unique", count);
	if (count == 1)
		CHECK(got == arg, "(%d,%d) order %d: another codeword than the best", N, K, O);
}

template <int N, int K, int O, int L>
void list(G &g)
{
	typedef CODE::OrderedStatisticsListDecoder<N, K, O, L> OSLD;
	const int CB = (N + 7) / 8;
	Buf<int8_t> mat(N * K), soft(N), copy(N);
	generator(g, mat.get(), N, K);
	std::vector<uint8_t> sent(codeword_of<N, K>(g, mat.get()));
	reliabilities(g, soft.get(), N, sent);
	memcpy(copy.get(), soft.get(), N);
	Buf<uint8_t> hard(CB * L, 0x5a);
	Buf<int> rank(L);
	keep<OSLD>()(rank.get(), hard.get(), (const int8_t *)soft.get(), (const int8_t *)mat.get());
	hard.check("list");
	rank.check("ranks");
	CHECK(!memcmp(copy.get(), soft.get(), N), "(%d,%d) order %d list %d: decoder changed its input", N, K, O, L);
	Search s(mat.get(), N, K, O, soft.get());
	std::vector<int> all;
	std::vector<uint8_t> w(s.start);
	s.visit(w, 0, std::min(O, K), [&](const std::vector<uint8_t> &c) { all.push_back(metric(soft.get(), c)); });
	std::sort(all.begin(), all.end(), std::greater<int>());
	int len = std::min<int>(L, (int)all.size());
	g.note("(%d,%d) order %d list %d, best %d", N, K, O, L, all[0]);
	std::vector<std::vector<uint8_t>> got(len, std::vector<uint8_t>(N));
	int last = 0;
	for (int j = 0; j < len; ++j) {
		for (int i = 0; i < N; ++i)
			got[j][i] = bit(hard.get() + CB * j, i);
		CHECK(s.codeword(got[j]), "(%d,%d) order %d list %d: entry %d is no codeword", N, K, O, L, j);
		int m = metric(soft.get(), got[j]);
		CHECK(!j || m <= last, "(%d,%d) order %d list %d: entry %d is better than the one before", N, K, O, L, j);
		CHECK(rank[j] == (j ? rank[j - 1] + (m != last) : 0), "(%d,%d) order %d list %d: entry %d has rank %d, correlation %d after %d", N, K, O, L, j, rank[j], m, last);
		for (int h = 0; h < j; ++h)
			CHECK(got[h] != got[j], "(%d,%d) order %d list %d: entries %d and %d are alike", N, K, O, L, h, j);
		if (s.unique || O >= K) {
			CHECK(m == all[j], "(%d,%d) order %d list %d: entry %d has correlation %d, not %d", N, K, O, L, j, m, all[j]);
			CHECK(O >= K || s.flips(got[j]) <= O, "(%d,%d) order %d list %d: entry %d is outside the search set", N, K, O, L, j);
		}
		last = m;
	}
	if (s.unique || O >= K)
		g.nontrivial();
	else
		g.label("list: several bases");
	g.label(L <= (int)all.size() ? "list: full" : "list: fewer candidates");
}

typedef void (*Fn)(G &);

template <size_t L>
void any(G &g, const Fn (&fns)[L])
{
	fns[g.draw(L - 1)](g);
}

}

PROP(decode_small, 300000, 8000000)
{
	static const Fn fns[] = {
		decode<7, 4, 1>, decode<7, 4, 4>, decode<8, 4, 2>, decode<8, 1, 1>, decode<5, 5, 2>, decode<9, 8, 3>, decode<15, 5, 2>, decode<15, 5, 5>, decode<15, 7, 0>, decode<15, 7, 3>,
		decode<15, 11, 2>, decode<16, 5, 1>, decode<16, 6, 4>, decode<17, 6, 6>, decode<13, 6, 5>, decode<11, 3, 3>, decode<20, 9, 3>,
	};
	any(g, fns);
}

PROP(decode_large, 12000, 300000)
{
	static const Fn fns[] = { decode<24, 12, 3>, decode<23, 12, 2>, decode<31, 16, 2>, decode<32, 11, 4>, decode<21, 10, 6>, decode<64, 30, 2>, decode<63, 45, 1>, decode<127, 64, 1>, decode<127, 64, 2>, decode<100, 13, 2>, decode<24, 14, 5> };
	any(g, fns);
}

PROP(decode_long, 2500, 60000)
{
	static const Fn fns[] = { decode<128, 20, 2>, decode<129, 60, 1>, decode<255, 16, 2>, decode<255, 45, 1>, decode<256, 9, 3>, decode<257, 30, 1>, decode<300, 20, 2>, decode<520, 12, 2>, decode<1030, 8, 2>, decode<40, 30, 1>, decode<255, 87, 1> };
	any(g, fns);
}

PROP(list_long, 1500, 36000)
{
	static const Fn fns[] = { list<128, 20, 2, 16>, list<255, 16, 2, 16>, list<255, 45, 1, 32>, list<257, 30, 1, 4>, list<300, 20, 2, 64>, list<520, 12, 2, 16> };
	any(g, fns);
}

PROP(list_small, 200000, 5000000)
{
	static const Fn fns[] = {
		list<7, 4, 1, 4>, list<7, 4, 4, 16>, list<8, 4, 2, 8>, list<8, 2, 2, 4>, list<15, 5, 2, 4>, list<15, 5, 5, 32>, list<15, 7, 0, 1>, list<15, 7, 3, 16>, list<15, 11, 2, 7>,
		list<16, 6, 4, 32>, list<17, 6, 6, 8>, list<13, 6, 5, 3>, list<11, 3, 3, 8>, list<20, 9, 3, 16>, list<7, 4, 2, 16>, list<16, 5, 1, 2>,
	};
	any(g, fns);
}

PROP(list_large, 8000, 200000)
{
	static const Fn fns[] = { list<24, 12, 3, 16>, list<23, 12, 2, 8>, list<31, 16, 2, 32>, list<32, 11, 4, 64>, list<21, 10, 6, 4>, list<64, 30, 2, 16>, list<127, 64, 1, 8>, list<127, 64, 2, 32>, list<24, 14, 5, 8> };
	any(g, fns);
}
