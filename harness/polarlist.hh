// List decoding by the book: whole paths, exact metrics
#pragma once

#include <map>
#include <set>
#include "polar.hh"

// the role of every position: frozen, message, or parity of the message bits since the last one
struct Roles
{
	std::vector<char> role; // 'f', 'm', 'p'
	int messages = 0;
	Roles(const Frozen &z, int stride = -1, int first = -1)
	{
		int count = first;
		for (int i = 0; i < z.n; ++i) {
			if (z.f[i]) {
				role.push_back('f');
			} else if (stride >= 0 && count == 0) {
				role.push_back('p');
				count = stride;
			} else {
				role.push_back('m');
				++messages;
				--count;
			}
		}
	}
	std::vector<char> place(const std::vector<char> &msg) const
	{
		std::vector<char> u(role.size(), 0);
		char par = 0;
		int m = 0;
		for (size_t i = 0; i < role.size(); ++i) {
			if (role[i] == 'm') {
				u[i] = msg[m++];
				par ^= u[i];
			} else if (role[i] == 'p') {
				u[i] = par;
				par = 0;
			}
		}
		return u;
	}
};

// Where equal metrics leave the decoder a choice, all paths it may keep are
// followed, and the ones it cannot but keep are marked: those with fewer than
// a list of others that may be there and are no worse. A path is out when a
// list of marked ones is better.
struct ListModel
{
	struct Path { int64_t metric; int last; char parity; bool must; };
	struct Step { int before; char bit; };
	const Roles &roles;
	int size;
	std::vector<Path> paths;
	std::vector<Step> steps;
	bool ambiguous = false; // too many choices to follow
	int64_t peak = 0; // largest value anywhere
	ListModel(const Roles &roles, int size) : roles(roles), size(size), paths(1, Path{ 0, -1, 0, true }) {}
	typedef std::vector<std::vector<int>> Values; // per path
	typedef std::vector<std::vector<char>> Words;
	void decode(const std::vector<int> &soft)
	{
		Values v(1, soft);
		Words w;
		node(v, 0, w);
	}
	// where the paths at the end of the node come from; their words
	std::vector<int> node(const Values &v, int at, Words &words)
	{
		int n = (int)v[0].size();
		for (auto &s : v)
			for (int x : s)
				peak = std::max<int64_t>(peak, std::abs(x));
		if (n == 1)
			return leaf(v, at, words);
		Values half(v.size(), std::vector<int>(n / 2));
		for (size_t p = 0; p < v.size(); ++p)
			for (int i = 0; i < n / 2; ++i) {
				int a = v[p][i], b = v[p][i + n / 2], m = std::min(std::abs(a), std::abs(b));
				half[p][i] = (a < 0) != (b < 0) ? -m : m;
			}
		Words left, right;
		std::vector<int> from(node(half, at, left));
		if (ambiguous)
			return from;
		half.assign(from.size(), std::vector<int>(n / 2));
		for (size_t p = 0; p < from.size(); ++p)
			for (int i = 0; i < n / 2; ++i) {
				int a = v[from[p]][i], b = v[from[p]][i + n / 2];
				half[p][i] = b + (left[p][i] ? -a : a);
			}
		std::vector<int> to(node(half, at + n / 2, right));
		if (ambiguous)
			return to;
		words.assign(to.size(), std::vector<char>(n));
		for (size_t p = 0; p < to.size(); ++p) {
			for (int i = 0; i < n / 2; ++i) {
				words[p][i] = left[to[p]][i] ^ right[p][i];
				words[p][i + n / 2] = right[p][i];
			}
			to[p] = from[to[p]];
		}
		return to;
	}
	std::vector<int> leaf(const Values &v, int at, Words &words)
	{
		std::vector<int> from;
		if (roles.role[at] != 'm') {
			for (size_t p = 0; p < paths.size(); ++p) {
				char b = 0;
				if (roles.role[at] == 'p') {
					b = paths[p].parity;
					paths[p].parity = 0;
				}
				paths[p].metric += penalty(v[p][0], b);
				words.push_back(std::vector<char>(1, b));
				from.push_back((int)p);
			}
			return from;
		}
		struct Fork { int64_t metric; int p; char b; bool must; };
		std::vector<Fork> forks;
		for (size_t p = 0; p < paths.size(); ++p)
			for (char b = 0; b < 2; ++b)
				forks.push_back({ paths[p].metric + penalty(v[p][0], b), (int)p, b, paths[p].must });
		std::stable_sort(forks.begin(), forks.end(), [](const Fork &a, const Fork &b) { return a.metric < b.metric; });
		size_t keep = 0;
		int better = 0; // marked ones
		for (size_t i = 0; i < forks.size() && better < size;) {
			size_t j = i;
			int marked = 0;
			for (; j < forks.size() && forks[j].metric == forks[i].metric; ++j)
				marked += forks[j].must;
			for (size_t h = i; h < j; ++h)
				forks[h].must = forks[h].must && (int)j <= size;
			better += marked;
			keep = i = j;
		}
		forks.resize(keep);
		if ((int)forks.size() > 4 * size + 64) {
			ambiguous = true;
			return from;
		}
		std::vector<Path> next;
		for (const Fork &f : forks) {
			Path q(paths[f.p]);
			q.metric = f.metric;
			q.must = f.must;
			q.last = (int)steps.size();
			steps.push_back({ paths[f.p].last, f.b });
			q.parity ^= f.b;
			next.push_back(q);
			from.push_back(f.p);
			words.push_back(std::vector<char>(1, f.b));
		}
		paths = next;
		return from;
	}
	std::vector<char> message(const Path &p) const
	{
		std::vector<char> m;
		for (int i = p.last; i >= 0; i = steps[i].before)
			m.push_back(steps[i].bit);
		std::reverse(m.begin(), m.end());
		return m;
	}
	static int64_t penalty(int llr, char b) { return (llr < 0) != (b != 0) ? std::abs(llr) : 0; }
};

// soft values; the true bits are x
inline std::vector<int> soft_code(G &g, const std::vector<char> &x, bool bytes, bool &noiseless)
{
	int n = (int)x.size();
	std::vector<int> soft(n);
	int kind = (int)g.draw(9);
	if (kind == 9)
		kind = 1;
	// bytes: mostly too small to saturate, floats: sums stay exact
	int most = bytes ? 127 : 127 << 15, cap = 127;
	if (bytes && g.chance(4, 5))
		cap = std::max(1, 600 / n);
	if (!bytes && g.chance(3, 4))
		cap = (1 << 23) / n;
	Rng r(g.bulk());
	int top = (int)r.range(1, std::min(cap, most));
	most = bytes ? 127 : std::max(127, (1 << 23) / n);
	double sigma = 0.2 + r.uni() * 1.3;
	noiseless = kind == 0 || kind == 8;
	static const char *names[] = { "clean", "noise", "random", "erased", "few flipped", "noise", "noise", "random, no sign", "clean, any size" };
	g.label(names[kind]);
	for (int i = 0; i < n; ++i) {
		int s = x[i] ? -1 : 1;
		double v;
		switch (kind) {
		case 0: v = s * top; break;
		case 2: v = (double)r.range(-top, top); break;
		case 3: v = r.below(3) ? s * top : 0; break;
		case 4: v = (r.below(16) ? s : -s) * (double)r.range(1, top); break;
		case 7: v = r.below(2) ? top : -top; break;
		case 8: v = s * (double)r.range(1, top); break;
		default: v = std::nearbyint((s + r.gauss() * sigma) * top * 0.4);
		}
		soft[i] = (int)std::min((double)most, std::max(-(double)most, v));
		// what no quantizer gives but the type can hold
		if (bytes && noiseless && soft[i] == -127)
			soft[i] -= r.below(2);
	}
	return soft;
}

inline int64_t contradicted(const std::vector<int> &soft, const std::vector<char> &x)
{
	int64_t m = 0;
	for (size_t i = 0; i < x.size(); ++i)
		m += ListModel::penalty(soft[i], x[i]);
	return m;
}

template <typename T>
T &keep()
{
	static T *t = [] { void *p = nullptr; if (posix_memalign(&p, 64, sizeof(T))) abort(); memset(p, 0xa5, sizeof(T)); return new (p) T; }();
	return *t;
}

// judges the list a decoder gave
template <typename TYPE>
void judge(G &g, const Frozen &z, const Roles &roles, const std::vector<int> &soft, bool noiseless, const std::vector<char> &sent, Buf<TYPE> &message, const int *rank)
{
	const int L = TYPE::SIZE;
	const bool bytes = sizeof(typename TYPE::value_type) == 1;
	const char *what = bytes ? "int8" : "float";
	int k = roles.messages;
	int real = k < 20 ? std::min(L, 1 << k) : L;
	bool sorted = roles.role.back() != 'f';
	std::vector<std::vector<char>> got(real, std::vector<char>(k));
	for (int p = 0; p < real; ++p)
		for (int i = 0; i < k; ++i) {
			auto v = message[i].v[p];
			CHECK(v == 1 || v == -1, "%s x %d, level %d, %d message bits: bit %d of candidate %d is %g", what, L, z.level, k, i, p, (double)v);
			got[p][i] = v < 0;
		}
	if (rank) {
		CHECK(rank[0] == 0, "first rank is %d", rank[0]);
		for (int p = 1; p < L; ++p)
			CHECK(rank[p] == rank[p - 1] || rank[p] == rank[p - 1] + 1, "rank %d follows rank %d", rank[p], rank[p - 1]);
	}
	if (noiseless && sorted)
		CHECK(got[0] == sent, "%s x %d, level %d, %d message bits: noiseless codeword is not the first candidate", what, L, z.level, k);
	std::unordered_set<std::string> seen;
	for (auto &m : got)
		CHECK(seen.insert(std::string(m.begin(), m.end())).second, "%s x %d, level %d, %d message bits: a candidate appears twice", what, L, z.level, k);
	ListModel model(roles, L);
	model.decode(soft);
	if (bytes && model.peak > 127) {
		g.label("saturated");
		return;
	}
	std::vector<int64_t> metric(real);
	for (int p = 0; p < real; ++p)
		metric[p] = contradicted(soft, transform(roles.place(got[p])));
	// bytes may also saturate on paths only the decoder kept when the choice was free
	if (sorted && !(bytes && model.ambiguous))
		for (int p = 1; p < real; ++p) {
			CHECK(metric[p - 1] <= metric[p], "%s x %d, level %d, %d message bits: candidate %d contradicts %lld, the one before %lld", what, L, z.level, k, p, (long long)metric[p], (long long)metric[p - 1]);
			if (rank)
				CHECK((rank[p] != rank[p - 1]) == (metric[p] != metric[p - 1]), "%s x %d, level %d: candidates %d and %d contradict %lld and %lld and have ranks %d and %d", what, L, z.level, p - 1, p, (long long)metric[p - 1], (long long)metric[p], rank[p - 1], rank[p]);
		}
	if (model.ambiguous) {
		g.label(bytes ? "free choice, bytes" : "free choice, floats");
		return;
	}
	CHECK((int)model.paths.size() >= real, "oracle");
	std::map<std::vector<char>, int64_t> may;
	std::set<std::vector<char>> have(got.begin(), got.end());
	int sure = 0;
	for (auto &path : model.paths) {
		std::vector<char> m(model.message(path));
		CHECK(path.metric == contradicted(soft, transform(roles.place(m))), "oracle");
		may[m] = path.metric;
		sure += path.must;
		CHECK(!path.must || have.count(m), "%s x %d, level %d, %d message bits: a candidate of metric %lld is missing", what, L, z.level, k, (long long)path.metric);
	}
	for (int p = 0; p < real; ++p)
		CHECK(may.count(got[p]), "%s x %d, level %d, %d message bits: candidate %d of metric %lld cannot have been kept", what, L, z.level, k, p, (long long)metric[p]);
	g.label(real < L ? "all messages" : k < 7 ? "short message" : sure == real ? bytes ? "known, bytes" : "known, floats" : bytes ? "choices followed, bytes" : "choices followed, floats");
	g.nontrivial();
}
