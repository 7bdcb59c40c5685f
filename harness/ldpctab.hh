// Random quasi-cyclic repeat-accumulate code tables of given dimensions
#pragma once

#include "pbt.hh"

using namespace pbt;

// M = 30*W bits per block, B blocks of message, Q*M parity bits, E table
// entries, at most C of them in each of the Q groups of checks
template <int W_, int B_, int Q_, int E_, int C_>
struct Table
{
	static const int W = W_, B = B_, Q = Q_, E = E_, C = C_;
	static const int M = 30 * W;
	static const int K = B * M;
	static const int R = Q * M;
	static const int N = K + R;
	static const int LINKS_MIN_CN = 3;
	static const int LINKS_MAX_CN = C + 2;
	static const int LINKS_TOTAL = M * E + 2 * R - 1;
	static const int DEG_MAX = E;
	static int DEG[B + 1];
	static int LEN[B + 1];
	static int POS[E];
};
template <int W, int B, int Q, int E, int C> int Table<W, B, Q, E, C>::DEG[B + 1];
template <int W, int B, int Q, int E, int C> int Table<W, B, Q, E, C>::LEN[B + 1];
template <int W, int B, int Q, int E, int C> int Table<W, B, Q, E, C>::POS[E];

struct Entry { int block, group, shift; };

enum Repeats { NEVER, ONCE, OFTEN };

// repeats: how many entries link a block to the same group of checks again
template <typename T>
std::vector<Entry> make_table(G &g, Repeats repeats)
{
	Rng r(g.bulk());
	std::vector<Entry> e;
	std::vector<std::vector<int>> used(T::B, std::vector<int>(T::Q, 0));
	std::vector<int> load(T::Q, 0), deg(T::B, 0);
	auto add = [&](int b, int q) {
		e.push_back({ b, q, (int)r.below(T::M) });
		++used[b][q];
		++load[q];
		++deg[b];
	};
	// every group of checks and every block takes part
	for (int q = 0, b = (int)r.below(T::B); q < T::Q; ++q)
		add((b + q) % T::B, q);
	for (int b = 0; b < T::B; ++b) {
		if (deg[b])
			continue;
		int q = (int)r.below(T::Q);
		while (load[q] >= T::C)
			q = (q + 1) % T::Q;
		add(b, q);
	}
	while ((int)e.size() < T::E) {
		std::vector<std::pair<int, int>> open;
		for (int b = 0; b < T::B; ++b)
			for (int q = 0; q < T::Q; ++q)
				if (load[q] < T::C && !used[b][q])
					open.push_back({ b, q });
		if (open.size() && !(repeats == OFTEN && r.chance(1, 3)) && !(repeats == ONCE && (int)e.size() == T::E - 1)) {
			auto o = open[r.below(open.size())];
			add(o.first, o.second);
			continue;
		}
		int b = (int)r.below(T::B), q = (int)r.below(T::Q);
		while (load[q] >= T::C || (repeats == ONCE && !used[b][q])) {
			if (r.below(4) == 0)
				b = (int)r.below(T::B);
			q = (q + 1) % T::Q;
		}
		add(b, q);
	}
	// never the same bit twice in a check
	for (size_t i = 0; i < e.size(); ++i)
		for (size_t j = 0; j < i; ++j)
			if (e[i].block == e[j].block && e[i].group == e[j].group && e[i].shift == e[j].shift) {
				e[i].shift = (e[i].shift + 1) % T::M;
				j = -1;
			}
	for (size_t i = e.size() - 1; i; --i)
		std::swap(e[i], e[r.below(i + 1)]);
	std::stable_sort(e.begin(), e.end(), [](const Entry &a, const Entry &b) { return a.block < b.block; });
	int pos = 0, run = -1;
	for (int b = 0; b < T::B; ++b) {
		for (const Entry &x : e)
			if (x.block == b)
				T::POS[pos++] = x.group + T::Q * x.shift;
		if (run >= 0 && T::DEG[run] == deg[b]) {
			++T::LEN[run];
		} else {
			++run;
			T::DEG[run] = deg[b];
			T::LEN[run] = 1;
		}
	}
	T::DEG[run + 1] = T::LEN[run + 1] = 0;
	CHECK(pos == T::E, "oracle");
	return e;
}

// the message bits of every check
template <typename T>
std::vector<std::vector<int>> checks_of(const std::vector<Entry> &e)
{
	std::vector<std::vector<int>> c(T::R);
	for (const Entry &x : e)
		for (int t = 0; t < T::M; ++t)
			c[x.group + T::Q * ((x.shift + t) % T::M)].push_back(T::M * x.block + t);
	return c;
}
