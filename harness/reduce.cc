// Reducing all but one: every output equals the reduction of the other inputs
#include "pbt.hh"
#include "exclusive_reduce.hh"
#include "simd.hh"

namespace {

using pbt::G;
using pbt::Buf;

struct Min { template <typename T> T operator()(T a, T b) const { return b < a ? b : a; } };
struct Max { template <typename T> T operator()(T a, T b) const { return a < b ? b : a; } };
struct Add { template <typename T> T operator()(T a, T b) const { return T(a + b); } };
struct Mul { template <typename T> T operator()(T a, T b) const { return T(a * b); } };
struct Xor { template <typename T> T operator()(T a, T b) const { return T(a ^ b); } };
struct Gcd { template <typename T> T operator()(T a, T b) const { while (b) { T t = a % b; a = b; b = t; } return a; } };

template <typename T, typename OP>
void reduce(G &g, OP op, const char *name)
{
	int n = (int)(g.chance(1, 6) ? g.range(2, 200) : g.range(2, 24));
	Buf<T> in(n), out(n);
	bool small = g.flip();
	if (n <= 24)
		for (int i = 0; i < n; ++i)
			in[i] = T(small ? g.draw(3) : g.word(8 * sizeof(T)));
	else
		g.fill(in.get(), n);
	std::vector<T> copy(in.begin(), in.end());
	int calls = 0;
	auto counted = [&calls, &op](T a, T b) { ++calls; return op(a, b); };
	CODE::exclusive_reduce((const T *)in.get(), out.get(), n, counted);
	g.note("%s over %d of %d bytes", name, n, (int)sizeof(T));
	for (int i = 0; i < n; ++i) {
		CHECK(in[i] == copy[i], "exclusive reduce changed its input at %d", i);
		bool first = true;
		T e = T();
		for (int j = 0; j < n; ++j) {
			if (j == i)
				continue;
			e = first ? copy[j] : op(e, copy[j]);
			first = false;
		}
		CHECK(out[i] == e, "%s over %d inputs: output %d is %lld, the others reduce to %lld", name, n, i, (long long)out[i], (long long)e);
	}
	out.check("output");
	CHECK(calls <= 8 * n, "%s over %d inputs took %d operations: not linear", name, n, calls);
	if (n > 2)
		g.nontrivial();
	g.label(name);
}

template <typename T>
void any_op(G &g)
{
	switch (g.draw(5)) {
	case 0: return reduce<T>(g, Min(), "min");
	case 1: return reduce<T>(g, Max(), "max");
	case 2: return reduce<T>(g, Add(), "sum");
	case 3: return reduce<T>(g, Mul(), "product");
	case 4: return reduce<T>(g, Xor(), "xor");
	default: return reduce<T>(g, Gcd(), "gcd");
	}
}

PROP(scalars, 2400000, 19200000)
{
	switch (g.draw(3)) {
	case 0: return any_op<uint8_t>(g);
	case 1: return any_op<uint16_t>(g);
	case 2: return any_op<uint32_t>(g);
	default: return any_op<uint64_t>(g);
	}
}

// many inputs: what is before and what is after, reduced
template <typename T, typename OP>
void long_reduce(G &g, OP op, const char *name)
{
	int n = (int)(g.flip() ? g.range(201, 70000) : (int64_t(256) << g.draw(8)) + g.range(0, 4) - 2);
	Buf<T> in(n), out(n);
	g.fill(in.get(), n);
	std::vector<T> before(in.begin(), in.end()), after(before);
	for (int i = 1; i < n; ++i)
		before[i] = op(before[i - 1], before[i]);
	for (int i = n - 2; i >= 0; --i)
		after[i] = op(after[i], after[i + 1]);
	CODE::exclusive_reduce((const T *)in.get(), out.get(), n, op);
	g.note("%s over %d of %d bytes", name, n, (int)sizeof(T));
	for (int i = 0; i < n; ++i) {
		T e = !i ? after[1] : i == n - 1 ? before[n - 2] : op(before[i - 1], after[i + 1]);
		CHECK(out[i] == e, "%s over %d inputs: output %d is %lld, the others reduce to %lld", name, n, i, (long long)out[i], (long long)e);
	}
	out.check("output");
	g.nontrivial();
}

PROP(long_inputs, 3000, 24000)
{
	switch (g.draw(4)) {
	case 0: return long_reduce<uint8_t>(g, Max(), "max");
	case 1: return long_reduce<uint32_t>(g, Min(), "min");
	case 2: return long_reduce<uint64_t>(g, Add(), "sum");
	case 3: return long_reduce<uint64_t>(g, Xor(), "xor");
	default: return long_reduce<uint16_t>(g, Add(), "sum");
	}
}

// the use the decoders make of it: the minimum of magnitudes and the product of signs, lane by lane
PROP(vectors, 600000, 4800000)
{
	typedef SIMD<int8_t, 32> TYPE;
	int n = (int)g.range(2, 30);
	Buf<TYPE> in(n), out(n);
	pbt::Rng r(g.bulk());
	bool signs = g.flip();
	for (int i = 0; i < n; ++i)
		for (int k = 0; k < 32; ++k)
			in[i].v[k] = int8_t(signs ? (r.below(2) ? 1 : -1) : (int)r.below(128));
	if (signs)
		CODE::exclusive_reduce((const TYPE *)in.get(), out.get(), n, [](TYPE a, TYPE b) { return vsign(a, b); });
	else
		CODE::exclusive_reduce((const TYPE *)in.get(), out.get(), n, [](TYPE a, TYPE b) { return vmin(a, b); });
	for (int i = 0; i < n; ++i)
		for (int k = 0; k < 32; ++k) {
			int e = signs ? 1 : 127;
			for (int j = 0; j < n; ++j)
				if (j != i)
					e = signs ? e * in[j].v[k] : std::min<int>(e, in[j].v[k]);
			CHECK(out[i].v[k] == e, "%s of %d vectors: output %d lane %d is %d, not %d", signs ? "signs" : "minima", n, i, k, out[i].v[k], e);
		}
	out.check("output");
	g.note("%s of %d vectors", signs ? "signs" : "minima", n);
	if (n > 2)
		g.nontrivial();
}

}
