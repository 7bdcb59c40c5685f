// Sorting: sorted, a permutation, stable; for every length and block size
#include "pbt.hh"
#include "simd.hh"
#include "sort.hh"
#include "simd_sort.hh"

namespace {

using pbt::G;
using pbt::Buf;

struct Item
{
	int key, pos;
	bool operator<(const Item &o) const { return key < o.key; }
};

// keys with many or few duplicates, presorted, reversed, runs
std::vector<int> keys(G &g, int n)
{
	std::vector<int> k(n);
	int mode = (int)g.draw(6);
	int range = (int)g.pick({ 2, 3, 10, 1000, 1 << 30 });
	if (n <= 24) {
		for (int &v : k)
			v = (int)g.draw(range - 1);
	} else {
		pbt::Rng r(g.bulk());
		for (int &v : k)
			v = (int)r.below(range);
	}
	if (mode == 1)
		std::sort(k.begin(), k.end());
	if (mode == 2)
		std::sort(k.rbegin(), k.rend());
	if (mode == 3 && n > 2) {
		int c = (int)g.draw(n - 1);
		std::sort(k.begin(), k.begin() + c);
		std::sort(k.begin() + c, k.end());
	}
	if (mode == 4)
		for (int &v : k)
			v -= range / 2;
	return k;
}

template <typename F>
void check_items(const char *what, const std::vector<int> &k, Buf<Item> &a, F less)
{
	int n = (int)k.size();
	std::vector<uint8_t> seen(n);
	for (int i = 0; i < n; ++i) {
		CHECK(a[i].pos >= 0 && a[i].pos < n && !seen[a[i].pos] && a[i].key == k[a[i].pos], "%s of %d: element %d is no element of the input or comes twice", what, n, i);
		seen[a[i].pos] = 1;
		if (!i)
			continue;
		CHECK(!less(a[i], a[i - 1]), "%s of %d: elements %d and %d are out of order", what, n, i - 1, i);
		CHECK(less(a[i - 1], a[i]) || a[i - 1].pos < a[i].pos, "%s of %d: equal elements %d and %d have changed places", what, n, i - 1, i);
	}
	a.check(what);
}

bool dups(const std::vector<int> &k)
{
	std::unordered_set<int> s(k.begin(), k.end());
	return s.size() < k.size();
}

int some_length(G &g, int max, int block)
{
	switch (g.draw(4)) {
	case 0: return (int)std::min<int64_t>(max, g.range(1, 8));
	case 1: { // about multiples and powers of the block size
		int64_t m = block * (g.flip() ? g.range(1, 9) : (int64_t(1) << g.draw(4))) + g.range(0, 4) - 2;
		return (int)std::min<int64_t>(max, std::max<int64_t>(m, 1));
	}
	case 2: return max - (int)g.draw(std::min(max - 1, 3));
	default: return (int)g.range(1, max);
	}
}

template <int MAX_N, int M>
void merge_sort(G &g)
{
	typedef CODE::MergeSort<Item, MAX_N, M> Sort;
	pbt::Fresh<Sort> sort(g);
	int rounds = (int)g.range(1, 3);
	for (int r = 0; r < rounds; ++r) {
		int n = some_length(g, MAX_N, M);
		std::vector<int> k = keys(g, n);
		Buf<Item> a(n);
		for (int i = 0; i < n; ++i)
			a[i] = { k[i], i };
		int mode = (int)g.draw(3);
		g.note("MergeSort<%d,%d> n=%d mode %d", MAX_N, M, n, mode);
		if (mode == 0) {
			(*sort)(a.get(), n);
			check_items("merge sort", k, a, [](const Item &x, const Item &y) { return x.key < y.key; });
		} else if (mode == 1) {
			auto gt = [](const Item &x, const Item &y) { return x.key > y.key; };
			(*sort)(a.get(), n, gt);
			check_items("descending merge sort", k, a, gt);
		} else if (mode == 2) {
			// coarser than the key: more ties
			auto lt = [](const Item &x, const Item &y) { return (x.key >> 1) < (y.key >> 1); };
			(*sort)(a.get(), n, lt);
			check_items("coarse merge sort", k, a, lt);
		} else {
			int *table = k.data(); // by reference to state outside
			auto lt = [table](Item x, Item y) { return table[x.pos] < table[y.pos]; };
			(*sort)(a.get(), n, lt);
			check_items("indirect merge sort", k, a, lt);
		}
		if (n > M && dups(k))
			g.nontrivial();
		g.label(n <= M ? "one block" : n <= 2 * M ? "one merge" : "several merges");
	}
}

PROP(merge, 120000, 2000000)
{
	switch (g.draw(11)) {
	case 0: return merge_sort<8, 1>(g);
	case 1: return merge_sort<50, 1>(g);
	case 2: return merge_sort<64, 2>(g);
	case 3: return merge_sort<100, 3>(g);
	case 4: return merge_sort<200, 7>(g);
	case 5: return merge_sort<128, 8>(g);
	case 6: return merge_sort<127, 32>(g);
	case 7: return merge_sort<128, 32>(g);
	case 8: return merge_sort<257, 32>(g);
	case 9: return merge_sort<1000, 32>(g);
	case 10: return merge_sort<40, 64>(g);
	default: return merge_sort<1030, 16>(g);
	}
}

PROP(large_merge, 60, 480)
{
	switch (g.draw(3)) {
	case 0: return merge_sort<40000, 32>(g);
	case 1: return merge_sort<70000, 32>(g);
	case 2: return merge_sort<70000, 300>(g);
	default: return merge_sort<140000, 7>(g);
	}
}

PROP(insertion, 300000, 4000000)
{
	// presorted, a length of thousands is no work
	bool longer = g.chance(1, 20000);
	int n = longer ? (int)g.edgy(30000, 70000) : some_length(g, g.chance(1, 10) ? 300 : 40, 16);
	std::vector<int> k = keys(g, n);
	if (longer) {
		std::sort(k.begin(), k.end());
		for (int i = (int)g.draw(20); i; --i)
			k[g.edgy(0, n - 1)] = (int)g.draw(1000);
	}
	int mode = (int)g.draw(3);
	g.note("insertion sort n=%d variant %d", n, mode);
	if (mode == 0) {
		Buf<Item> a(n);
		for (int i = 0; i < n; ++i)
			a[i] = { k[i], i };
		CODE::insertion_sort(a.get(), n);
		check_items("insertion sort", k, a, [](const Item &x, const Item &y) { return x.key < y.key; });
	} else if (mode == 1) {
		Buf<Item> a(n);
		for (int i = 0; i < n; ++i)
			a[i] = { k[i], i };
		auto gt = [](const Item &x, const Item &y) { return x.key > y.key; };
		CODE::insertion_sort(a.get(), n, gt);
		check_items("descending insertion sort", k, a, gt);
	} else {
		// values and the order they come in
		Buf<int> a(n), p(n);
		Buf<uint16_t> q(n);
		std::copy(k.begin(), k.end(), a.get());
		bool narrow = mode == 3 && n <= 65536;
		if (narrow)
			CODE::insertion_sort(q.get(), a.get(), n);
		else
			CODE::insertion_sort(p.get(), a.get(), n);
		Buf<Item> b(n);
		for (int i = 0; i < n; ++i) {
			b[i] = { a[i], narrow ? (int)q[i] : p[i] };
		}
		check_items("ordering insertion sort", k, b, [](const Item &x, const Item &y) { return x.key < y.key; });
		a.check("values"); p.check("order"); q.check("order");
	}
	if (n > 1 && dups(k))
		g.nontrivial();
	g.labelf("variant %d", mode);
}

// sorting zero elements touches nothing
PROP(empty, 64, 64)
{
	Buf<int> a(1);
	a[0] = 7;
	static CODE::MergeSort<int, 16> sort;
	sort(a.get(), 0);
	CODE::insertion_sort(a.get(), 0);
	CHECK(a[0] == 7, "sorting nothing changed something");
	a.check("values");
	g.draw(1);
}

// few different values, or extremes, any bits and values close to each other
template <typename T>
T value(G &g, pbt::Rng &r, int mode, int range)
{
	typedef std::numeric_limits<T> L;
	if (mode == 0 || (mode == 1 && r.below(2))) {
		int64_t v = r.below(range);
		if (std::is_signed<T>::value)
			v -= range / 2;
		return T(v);
	}
	if (std::is_floating_point<T>::value) {
		T base = r.below(2) ? T(1) : T(-1);
		switch (r.below(5)) {
		case 0: return base * T(r.below(9)) / T(8);
		case 1: return base * (T(16777216) + T(r.below(3)) * T(2));
		case 2: return base * T(r.below(1000)) * T(1e20f);
		case 3: return base * T(r.below(1000)) * T(1e-20f);
		default: return base * (T(1) + T(r.below(4)) * L::epsilon());
		}
	}
	switch (r.below(4)) {
	case 0: return T(L::max() - T(r.below(3)));
	case 1: return T(L::lowest() + T(r.below(3)));
	case 2: return T(uint64_t(1) << r.below(8 * sizeof(T)));
	default: return T(r.next());
	}
}

// a single type's order, whatever its width
template <typename T>
void plain(G &g)
{
	int n = some_length(g, 60, 16);
	int range = (int)g.pick({ 2, 3, 10, 100 }), mode = (int)g.draw(2), variant = (int)g.draw(5);
	pbt::Rng r(g.bulk());
	std::vector<T> k(n);
	for (T &v : k)
		v = value<T>(g, r, mode, range);
	std::vector<T> want = k;
	bool down = variant == 1 || variant == 4;
	auto gt = [](const T &x, const T &y) { return y < x; };
	if (down)
		std::stable_sort(want.begin(), want.end(), gt);
	else
		std::stable_sort(want.begin(), want.end());
	Buf<T> a(n);
	std::copy(k.begin(), k.end(), a.get());
	Buf<uint8_t> p(n);
	switch (variant) {
	case 0: CODE::insertion_sort(a.get(), n); break;
	case 1: CODE::insertion_sort(a.get(), n, gt); break;
	case 2: CODE::insertion_sort(p.get(), a.get(), n); break;
	case 3: { pbt::Fresh<CODE::MergeSort<T, 60, 4>> sort(g); (*sort)(a.get(), n); break; }
	case 4: { pbt::Fresh<CODE::MergeSort<T, 60, 5>> sort(g); (*sort)(a.get(), n, gt); break; }
	default: { pbt::Fresh<CODE::MergeSort<T, 64>> sort(g); (*sort)(a.get(), n); }
	}
	g.note("%d elements of %d bytes, variant %d", n, (int)sizeof(T), variant);
	for (int i = 0; i < n; ++i)
		CHECK(a[i] == want[i], "variant %d on %d elements of %d bytes: element %d is %g instead of %g", variant, n, (int)sizeof(T), i, (double)a[i], (double)want[i]);
	if (variant == 2) {
		std::vector<int> order(n);
		for (int i = 0; i < n; ++i)
			order[i] = i;
		std::stable_sort(order.begin(), order.end(), [&](int x, int y) { return k[x] < k[y]; });
		for (int i = 0; i < n; ++i)
			CHECK(p[i] == order[i], "order of %d elements of %d bytes: entry %d is %d instead of %d", n, (int)sizeof(T), i, p[i], order[i]);
	}
	a.check("values"); p.check("order");
	if (n > 2)
		g.nontrivial();
	g.labelf("%d bytes", (int)sizeof(T));
}

PROP(types, 120000, 2000000)
{
	switch (g.draw(9)) {
	case 0: return plain<int8_t>(g);
	case 1: return plain<uint8_t>(g);
	case 2: return plain<int16_t>(g);
	case 3: return plain<uint16_t>(g);
	case 4: return plain<int32_t>(g);
	case 5: return plain<uint32_t>(g);
	case 6: return plain<int64_t>(g);
	case 7: return plain<uint64_t>(g);
	case 8: return plain<float>(g);
	default: return plain<double>(g);
	}
}

template <typename T, int W>
void simd_sort(G &g)
{
	typedef SIMD<T, W> TYPE;
	typedef SIMD<typename TYPE::uint_type, W> ORDER;
	TYPE a;
	int range = (int)g.pick({ 2, 5, 100, 256 }), mode = (int)g.draw(2);
	if (mode == 0) {
		for (int i = 0; i < W; ++i) {
			int64_t v = g.draw(range - 1);
			if (std::is_signed<T>::value)
				v -= range / 2;
			a.v[i] = T(v);
		}
	} else {
		pbt::Rng r(g.bulk());
		for (int i = 0; i < W; ++i)
			a.v[i] = value<T>(g, r, mode, range);
	}
	TYPE s = vsort(a);
	ORDER o = vorder(a);
	std::vector<uint8_t> seen(W);
	bool tie = false;
	for (int i = 0; i < W; ++i) {
		int64_t p = (int64_t)o.v[i];
		CHECK(p >= 0 && p < W && !seen[p], "vorder of %d lanes: entry %d is %lld", W, i, (long long)p);
		seen[p] = 1;
		CHECK(s.v[i] == a.v[p], "vsort and vorder of %d lanes disagree in lane %d", W, i);
		if (i) {
			CHECK(!(s.v[i] < s.v[i - 1]), "vsort of %d lanes: lanes %d and %d are out of order", W, i - 1, i);
			if (s.v[i] == s.v[i - 1]) {
				tie = true;
				CHECK(o.v[i - 1] < o.v[i], "vorder of %d lanes: equal lanes changed places", W);
			}
		}
	}
	g.note("SIMD sort of %d lanes of %d bytes", W, (int)sizeof(T));
	if (tie)
		g.nontrivial();
}

PROP(lanes, 300000, 4000000)
{
	switch (g.draw(17)) {
	case 14: return simd_sort<uint8_t, 128>(g);
	case 15: return simd_sort<uint16_t, 8>(g);
	case 16: return simd_sort<uint64_t, 2>(g);
	case 17: return simd_sort<double, 2>(g);
	case 0: return simd_sort<int8_t, 16>(g);
	case 1: return simd_sort<int8_t, 32>(g);
	case 2: return simd_sort<uint8_t, 16>(g);
	case 3: return simd_sort<uint8_t, 32>(g);
	case 4: return simd_sort<int16_t, 8>(g);
	case 5: return simd_sort<int16_t, 16>(g);
	case 6: return simd_sort<uint16_t, 16>(g);
	case 7: return simd_sort<int32_t, 8>(g);
	case 8: return simd_sort<uint32_t, 4>(g);
	case 9: return simd_sort<int64_t, 4>(g);
	case 10: return simd_sort<float, 8>(g);
	case 11: return simd_sort<float, 4>(g);
	case 12: return simd_sort<double, 4>(g);
	default: return simd_sort<int8_t, 64>(g);
	}
}

}
