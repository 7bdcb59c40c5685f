// What the polar harnesses share: frozen sets and the plain transform
#pragma once

#include "pbt.hh"

using namespace pbt;

struct Frozen
{
	int level, n, k;
	std::vector<char> f;
	std::vector<uint32_t> bits;
	Frozen(int level, const std::vector<char> &f, bool garbage) : level(level), n(1 << level), k(0), f(f), bits((n + 31) / 32, 0)
	{
		for (int i = 0; i < n; ++i) {
			bits[i / 32] |= (uint32_t)(f[i] != 0) << (i % 32);
			k += !f[i];
		}
		if (n < 32 && garbage)
			bits[0] |= ~0u << n;
	}
};

inline std::vector<double> bec(double p, int level)
{
	std::vector<double> res(1, p);
	for (int l = 0; l < level; ++l) {
		std::vector<double> next(2 * res.size());
		for (size_t i = 0; i < res.size(); ++i) {
			next[2 * i] = res[i] * (2 - res[i]);
			next[2 * i + 1] = res[i] * res[i];
		}
		res = next;
	}
	return res;
}

// whole subtrees frozen or not
inline void subtree(Rng &r, std::vector<char> &f, int at, int len, int frac)
{
	int kind = len == 1 ? (int)r.below(2) : (int)r.below(6);
	if (kind < 2) {
		for (int i = 0; i < len; ++i)
			f[at + i] = (char)kind;
	} else if (kind == 2 && len > 1) {
		for (int i = 0; i < len; ++i)
			f[at + i] = i != len - 1; // repetition
	} else if (kind == 3 && len > 1) {
		for (int i = 0; i < len; ++i)
			f[at + i] = i == 0; // single parity check
	} else {
		subtree(r, f, at, len / 2, frac);
		subtree(r, f, at + len / 2, len / 2, frac);
	}
}

enum { ANY_K = -1 };

// least and most: bounds for the number of positions left
inline Frozen frozen_set(G &g, int level, int least = 0, int most = 1 << 30, bool last = false)
{
	int n = 1 << level;
	most = std::min(most, n);
	std::vector<char> f(n, 1);
	int kind = (int)g.draw(6);
	static const char *names[] = { "frozen: constructed", "frozen: random", "frozen: subtrees", "frozen: constructed, noisy", "frozen: few left", "frozen: few frozen", "frozen: subtrees" };
	g.label(names[kind]);
	if (kind == 0 || kind == 3) {
		int k = (int)g.edgy(least, most);
		std::vector<double> pe(bec(g.pick({ 0.5, 0.1, 0.9, 0.3 }), level));
		if (kind == 3) {
			Rng r(g.bulk());
			for (double &v : pe)
				v *= 0.5 + r.uni();
		}
		std::vector<int> idx(n);
		for (int i = 0; i < n; ++i)
			idx[i] = i;
		std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return pe[a] < pe[b]; });
		for (int i = 0; i < k; ++i)
			f[idx[i]] = 0;
	} else if (kind == 1) {
		Rng r(g.bulk());
		int num = (int)g.range(0, 16);
		for (int i = 0; i < n; ++i)
			f[i] = r.below(16) < (uint64_t)num;
	} else if (kind == 4) {
		for (int i : g.subset(n, (int)g.range(std::max(1, least), std::min(most, 8))))
			f[i] = 0;
	} else if (kind == 5) {
		std::fill(f.begin(), f.end(), 0);
		for (int i : g.subset(n, (int)g.range(0, 8)))
			f[i] = 1;
	} else {
		Rng r(g.bulk());
		subtree(r, f, 0, n, 0);
		if (n > 64 && g.flip()) {
			// words and groups of words
			for (int i = 0; i < n; i += 32)
				if (r.below(3) == 0)
					std::fill(f.begin() + i, f.begin() + i + 32, (char)r.below(2));
		}
	}
	if (last)
		f[n - 1] = 0;
	int k = 0;
	for (char c : f)
		k += !c;
	Rng r(g.bulk());
	while (k > most) {
		int i = (int)r.below(last ? n - 1 : n);
		k -= !f[i];
		f[i] = 1;
	}
	while (k < least) {
		int i = (int)r.below(n);
		k += f[i];
		f[i] = 0;
	}
	return Frozen(level, f, g.flip());
}

// x[i] is the sum of all u[j] whose index has all the ones of i
inline std::vector<char> transform(std::vector<char> u)
{
	for (size_t h = 1; h < u.size(); h *= 2)
		for (size_t i = 0; i < u.size(); ++i)
			if (!(i & h))
				u[i] ^= u[i | h];
	return u;
}

// bits spread over the positions left
inline std::vector<char> spread(const Frozen &z, const std::vector<char> &msg)
{
	std::vector<char> u(z.n, 0);
	int m = 0;
	for (int i = 0; i < z.n; ++i)
		if (!z.f[i])
			u[i] = msg[m++];
	return u;
}

inline std::vector<char> message_bits(G &g, int k)
{
	std::vector<char> m(k);
	int kind = (int)g.draw(3);
	Rng r(g.bulk());
	for (char &c : m)
		c = kind == 0 ? 0 : kind == 1 ? 1 : (char)r.below(2);
	return m;
}
