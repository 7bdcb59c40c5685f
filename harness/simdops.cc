// Vector operations: every lane of every operation against its scalar meaning
#include "pbt.hh"
#include "simd.hh"

using namespace pbt;

namespace {

template <typename T> struct Name;
template <> struct Name<float> { static const char *get() { return "float"; } };
template <> struct Name<double> { static const char *get() { return "double"; } };
template <> struct Name<int8_t> { static const char *get() { return "int8"; } };
template <> struct Name<int16_t> { static const char *get() { return "int16"; } };
template <> struct Name<int32_t> { static const char *get() { return "int32"; } };
template <> struct Name<int64_t> { static const char *get() { return "int64"; } };
template <> struct Name<uint8_t> { static const char *get() { return "uint8"; } };
template <> struct Name<uint16_t> { static const char *get() { return "uint16"; } };
template <> struct Name<uint32_t> { static const char *get() { return "uint32"; } };
template <> struct Name<uint64_t> { static const char *get() { return "uint64"; } };

template <typename T> struct Uint { typedef typename std::make_unsigned<T>::type type; };
template <> struct Uint<float> { typedef uint32_t type; };
template <> struct Uint<double> { typedef uint64_t type; };

template <typename T>
typename std::enable_if<std::is_integral<T>::value, T>::type value(Rng &r, int kind)
{
	typedef std::numeric_limits<T> L;
	switch (kind < 6 ? kind : (int)r.below(6)) {
	case 0: return T(r.below(5)) - T(std::is_signed<T>::value ? 2 : 0);
	case 1: return T(L::min() + T(r.below(3)));
	case 2: return T(L::max() - T(r.below(3)));
	case 3: return T(T(1) << r.below(L::digits)) * T(std::is_signed<T>::value && r.below(2) ? -1 : 1);
	default: return T(r.next());
	}
}

template <typename T>
typename std::enable_if<std::is_floating_point<T>::value, T>::type value(Rng &r, int kind)
{
	T s = r.below(2) ? -1 : 1;
	switch (kind < 6 ? kind : (int)r.below(6)) {
	case 0: return T(r.range(-2, 2));
	case 1: return s * T(1e-15) * T(1 + r.below(9));
	case 2: return s * T(1e15) * T(1 + r.below(9));
	case 3: return T(r.range(-1000, 1000));
	default: return T(r.uni() * 2 - 1) * T(r.below(2) ? 1 : 1000);
	}
}

// exactness of a lane: numbers by value, so that zeros of either sign agree
template <typename T>
bool same(T a, T b) { return a == b; }

template <typename T, int W, typename V, typename F>
void expect(const char *op, const V &got, F f)
{
	for (int i = 0; i < W; ++i) {
		typename V::value_type want = f(i);
		CHECK(same(got.v[i], want), "%s of %s x %d: lane %d is %.17g, not %.17g", op, Name<T>::get(), W, i, (double)got.v[i], (double)want);
	}
}

template <typename T, int W>
struct Lanes
{
	typedef SIMD<T, W> V;
	V v;
	T k[W]; // a copy the operations never see
	Lanes(G &g)
	{
		int kind = (int)g.draw(9);
		Rng r(g.bulk());
		if (W <= 8 && kind == 9)
			for (int i = 0; i < W; ++i)
				k[i] = value<T>(r, 6);
		else
			for (int i = 0; i < W; ++i)
				k[i] = value<T>(r, kind);
		put();
	}
	void put()
	{
		for (int i = 0; i < W; ++i)
			v.v[i] = k[i];
	}
	// some lanes alike
	void mix(G &g, const Lanes &o)
	{
		int share = (int)g.draw(4);
		Rng r(g.bulk());
		for (int i = 0; i < W; ++i)
			if (r.below(4) < (uint64_t)share)
				k[i] = o.k[i];
		put();
	}
};

// -- what all types have
template <typename T, int W>
void common(G &g, Lanes<T, W> &a)
{
	typedef SIMD<T, W> V;
	typedef typename Uint<T>::type U;
	static_assert(V::SIZE == W, "size");
	T x = a.k[g.draw(W - 1)];
	expect<T, W>("duplicate", vdup<V>(x), [&](int) { return x; });
	expect<T, W>("zero", vzero<V>(), [&](int) { return T(0); });
	Rng r(g.bulk());
	SIMD<U, W> idx;
	int kind = (int)g.draw(4), k[W];
	for (int i = 0; i < W; ++i) {
		switch (kind) {
		case 0: k[i] = i; break;
		case 1: k[i] = W - 1 - i; break;
		case 2: k[i] = (int)r.below(W) & 1 ? W - 1 : 0; break;
		default: k[i] = (int)r.below(W);
		}
		idx.v[i] = (U)k[i];
	}
	expect<T, W>("shuffle", vshuf(a.v, idx), [&](int i) { return a.k[k[i]]; });
}

template <typename T, int W>
void same_bits(const char *op, const void *got, const void *want)
{
	CHECK(!memcmp(got, want, sizeof(T) * W), "%s of %s x %d changes bits", op, Name<T>::get(), W);
}

// -- what signed and floating point types have
template <typename T, int W>
void compare(Lanes<T, W> &a, Lanes<T, W> &b, T lo, T hi)
{
	typedef SIMD<T, W> V;
	typedef typename Uint<T>::type U;
	typedef SIMD<U, W> M;
	const U all = U(~U(0));
	expect<T, W>("greater than zero", vcgtz(a.v), [&](int i) { return a.k[i] > 0 ? all : U(0); });
	expect<T, W>("equal to zero", vceqz(a.v), [&](int i) { return a.k[i] == 0 ? all : U(0); });
	expect<T, W>("less than zero", vcltz(a.v), [&](int i) { return a.k[i] < 0 ? all : U(0); });
	expect<T, W>("less than or equal to zero", vclez(a.v), [&](int i) { return a.k[i] <= 0 ? all : U(0); });
	expect<T, W>("greater than", vcgt(a.v, b.v), [&](int i) { return a.k[i] > b.k[i] ? all : U(0); });
	expect<T, W>("equal", vceq(a.v, b.v), [&](int i) { return a.k[i] == b.k[i] ? all : U(0); });
	expect<T, W>("minimum", vmin(a.v, b.v), [&](int i) { return a.k[i] < b.k[i] ? a.k[i] : b.k[i]; });
	expect<T, W>("maximum", vmax(a.v, b.v), [&](int i) { return a.k[i] > b.k[i] ? a.k[i] : b.k[i]; });
	if (hi < lo)
		std::swap(lo, hi);
	expect<T, W>("clamp", vclamp(a.v, lo, hi), [&](int i) { return a.k[i] < lo ? lo : a.k[i] > hi ? hi : a.k[i]; });
	expect<T, W>("signum", vsignum(a.v), [&](int i) { return T(a.k[i] > 0 ? 1 : a.k[i] < 0 ? -1 : 0); });
	// selecting by a mask
	M m = vcgt(a.v, b.v), x = vmask(a.v), y = vmask(b.v);
	same_bits<T, W>("mask", &x, &a.v);
	V s = vreinterpret<V>(vbsl(m, x, y));
	expect<T, W>("select", s, [&](int i) { return a.k[i] > b.k[i] ? a.k[i] : b.k[i]; });
	V z = vreinterpret<V>(x);
	same_bits<T, W>("reinterpret", &z, &a.v);
}

template <typename T>
T wrap(__int128 v) { return T((typename Uint<T>::type)v); }

template <typename T>
bool fits(__int128 v) { return v >= std::numeric_limits<T>::min() && v <= std::numeric_limits<T>::max(); }

template <typename T>
T sat(__int128 v)
{
	typedef std::numeric_limits<T> L;
	return v < L::min() ? L::min() : v > L::max() ? L::max() : T(v);
}

template <typename T, int W>
struct Saturating
{
	static void run(Lanes<T, W> &, Lanes<T, W> &) {}
};

template <typename T, int W>
struct SaturatingSigned
{
	static void run(Lanes<T, W> &a, Lanes<T, W> &b)
	{
		expect<T, W>("saturating addition", vqadd(a.v, b.v), [&](int i) { return sat<T>((__int128)a.k[i] + b.k[i]); });
		expect<T, W>("saturating subtraction", vqsub(a.v, b.v), [&](int i) { return sat<T>((__int128)a.k[i] - b.k[i]); });
	}
};
template <int W> struct Saturating<int8_t, W> : SaturatingSigned<int8_t, W> {};
template <int W> struct Saturating<int16_t, W> : SaturatingSigned<int16_t, W> {};

template <typename T, int W>
struct SaturatingUnsigned
{
	static void run(Lanes<T, W> &a, Lanes<T, W> &b)
	{
		expect<T, W>("saturating subtraction", vqsub(a.v, b.v), [&](int i) { return sat<T>((__int128)a.k[i] - b.k[i]); });
	}
};
template <int W> struct Saturating<uint8_t, W> : SaturatingUnsigned<uint8_t, W> {};
template <int W> struct Saturating<uint16_t, W> : SaturatingUnsigned<uint16_t, W> {};

template <typename T, int W>
void signed_ops(G &g)
{
	typedef SIMD<T, W> V;
	typedef SIMD<typename Uint<T>::type, W> M;
	Lanes<T, W> a(g), b(g);
	b.mix(g, a);
	g.note("%s x %d: %lld %lld.. and %lld..", Name<T>::get(), W, (long long)a.k[0], (long long)a.k[W > 1], (long long)b.k[0]);
	g.labelf("%s x %d", Name<T>::get(), W);
	common(g, a);
	compare(a, b, a.k[g.draw(W - 1)], b.k[g.draw(W - 1)]);
	Saturating<T, W>::run(a, b);
	expect<T, W>("saturating absolute value", vqabs(a.v), [&](int i) { return sat<T>(a.k[i] < 0 ? -(__int128)a.k[i] : a.k[i]); });
	M u = vunsigned(a.v);
	same_bits<T, W>("unsigned", &u, &a.v);
	V s = vsigned(u);
	same_bits<T, W>("signed", &s, &a.v);
	// narrow types wrap around, wide ones are kept from overflowing
	const bool narrow = sizeof(T) < 4;
	Lanes<T, W> c(b), d(b), e(b), n(a);
	for (int i = 0; i < W && !narrow; ++i) {
		if (!fits<T>((__int128)a.k[i] + c.k[i]))
			c.k[i] = 0;
		if (!fits<T>((__int128)a.k[i] - d.k[i]))
			d.k[i] = 0;
		if (!fits<T>((__int128)a.k[i] * e.k[i]))
			e.k[i] = T(e.k[i] % 2);
		if (!fits<T>((__int128)a.k[i] * e.k[i]))
			e.k[i] = 1;
		if (n.k[i] == std::numeric_limits<T>::min())
			n.k[i] = 5;
	}
	c.put();
	d.put();
	e.put();
	n.put();
	expect<T, W>("addition", vadd(a.v, c.v), [&](int i) { return wrap<T>((__int128)a.k[i] + c.k[i]); });
	expect<T, W>("subtraction", vsub(a.v, d.v), [&](int i) { return wrap<T>((__int128)a.k[i] - d.k[i]); });
	expect<T, W>("multiplication", vmul(a.v, e.v), [&](int i) { return wrap<T>((__int128)a.k[i] * e.k[i]); });
	for (int i = 0; i < W; ++i)
		if (n.k[i] == std::numeric_limits<T>::min())
			n.k[i] = 7;
	n.put();
	expect<T, W>("negation", vneg(n.v), [&](int i) { return T(-n.k[i]); });
	expect<T, W>("absolute value", vabs(n.v), [&](int i) { return T(n.k[i] < 0 ? -n.k[i] : n.k[i]); });
	expect<T, W>("sign", vsign(n.v, b.v), [&](int i) { return T(b.k[i] > 0 ? n.k[i] : b.k[i] < 0 ? -n.k[i] : 0); });
	g.nontrivial();
}

template <typename T, int W>
void float_ops(G &g)
{
	typedef typename Uint<T>::type U;
	Lanes<T, W> a(g), b(g);
	b.mix(g, a);
	g.note("%s x %d: %g %g.. and %g..", Name<T>::get(), W, (double)a.k[0], (double)a.k[W > 1], (double)b.k[0]);
	g.labelf("%s x %d", Name<T>::get(), W);
	common(g, a);
	compare(a, b, a.k[g.draw(W - 1)], b.k[g.draw(W - 1)]);
	expect<T, W>("addition", vadd(a.v, b.v), [&](int i) { return a.k[i] + b.k[i]; });
	expect<T, W>("subtraction", vsub(a.v, b.v), [&](int i) { return a.k[i] - b.k[i]; });
	expect<T, W>("multiplication", vmul(a.v, b.v), [&](int i) { return a.k[i] * b.k[i]; });
	expect<T, W>("negation", vneg(a.v), [&](int i) { return -a.k[i]; });
	expect<T, W>("absolute value", vabs(a.v), [&](int i) { return a.k[i] < 0 ? -a.k[i] : a.k[i]; });
	expect<T, W>("sign", vsign(a.v, b.v), [&](int i) { return b.k[i] > 0 ? a.k[i] : b.k[i] < 0 ? -a.k[i] : T(0); });
	Lanes<T, W> c(b);
	for (int i = 0; i < W; ++i)
		if (c.k[i] == 0)
			c.k[i] = T(i & 1 ? 2 : -2);
	c.put();
	expect<T, W>("copy of the sign", vcopysign(a.v, c.v), [&](int i) { T m = a.k[i] < 0 ? -a.k[i] : a.k[i]; return c.k[i] < 0 ? -m : m; });
	g.nontrivial();
	(void)sizeof(U);
}

template <typename T, int W>
void unsigned_ops(G &g)
{
	typedef typename std::make_signed<T>::type S;
	Lanes<T, W> a(g), b(g), c(g);
	b.mix(g, a);
	g.note("%s x %d: %llx %llx.. and %llx..", Name<T>::get(), W, (long long)a.k[0], (long long)a.k[W > 1], (long long)b.k[0]);
	g.labelf("%s x %d", Name<T>::get(), W);
	common(g, a);
	Saturating<T, W>::run(a, b);
	expect<T, W>("not", vnot(a.v), [&](int i) { return T(~a.k[i]); });
	expect<T, W>("or", vorr(a.v, b.v), [&](int i) { return T(a.k[i] | b.k[i]); });
	expect<T, W>("and", vand(a.v, b.v), [&](int i) { return T(a.k[i] & b.k[i]); });
	expect<T, W>("exclusive or", veor(a.v, b.v), [&](int i) { return T(a.k[i] ^ b.k[i]); });
	expect<T, W>("clear", vbic(a.v, b.v), [&](int i) { return T(a.k[i] & ~b.k[i]); });
	expect<T, W>("select", vbsl(a.v, b.v, c.v), [&](int i) { return T((a.k[i] & b.k[i]) | (~a.k[i] & c.k[i])); });
	expect<T, W>("greater than", vcgt(a.v, b.v), [&](int i) { return a.k[i] > b.k[i] ? T(~T(0)) : T(0); });
	SIMD<S, W> s = vsigned(a.v);
	same_bits<T, W>("signed", &s, &a.v);
	SIMD<T, W> u = vunsigned(s);
	same_bits<T, W>("unsigned", &u, &a.v);
	g.nontrivial();
}

typedef void (*Fn)(G &);

template <size_t L>
void any(G &g, const Fn (&fns)[L]) { fns[g.draw(L - 1)](g); }

}

PROP(int8_lanes, 400000, 20000000)
{
	static const Fn f[] = { signed_ops<int8_t, 16>, signed_ops<int8_t, 32>, signed_ops<int8_t, 64>, signed_ops<int8_t, 48>, signed_ops<int8_t, 1>, signed_ops<int8_t, 7>, signed_ops<int8_t, 8>, signed_ops<int8_t, 128> };
	any(g, f);
}

PROP(int16_lanes, 300000, 20000000)
{
	static const Fn f[] = { signed_ops<int16_t, 8>, signed_ops<int16_t, 16>, signed_ops<int16_t, 32>, signed_ops<int16_t, 24>, signed_ops<int16_t, 1>, signed_ops<int16_t, 5>, signed_ops<int16_t, 64> };
	any(g, f);
}

PROP(int32_lanes, 300000, 20000000)
{
	static const Fn f[] = { signed_ops<int32_t, 4>, signed_ops<int32_t, 8>, signed_ops<int32_t, 16>, signed_ops<int32_t, 12>, signed_ops<int32_t, 1>, signed_ops<int32_t, 3>, signed_ops<int32_t, 32> };
	any(g, f);
}

PROP(int64_lanes, 300000, 20000000)
{
	static const Fn f[] = { signed_ops<int64_t, 2>, signed_ops<int64_t, 4>, signed_ops<int64_t, 8>, signed_ops<int64_t, 6>, signed_ops<int64_t, 1>, signed_ops<int64_t, 3>, signed_ops<int64_t, 16> };
	any(g, f);
}

PROP(unsigned_lanes, 600000, 30000000)
{
	static const Fn f[] = {
		unsigned_ops<uint8_t, 16>, unsigned_ops<uint8_t, 32>, unsigned_ops<uint8_t, 64>, unsigned_ops<uint8_t, 48>, unsigned_ops<uint8_t, 1>, unsigned_ops<uint8_t, 7>,
		unsigned_ops<uint16_t, 8>, unsigned_ops<uint16_t, 16>, unsigned_ops<uint16_t, 32>, unsigned_ops<uint16_t, 24>, unsigned_ops<uint16_t, 5>,
		unsigned_ops<uint32_t, 4>, unsigned_ops<uint32_t, 8>, unsigned_ops<uint32_t, 16>, unsigned_ops<uint32_t, 12>, unsigned_ops<uint32_t, 3>,
		unsigned_ops<uint64_t, 2>, unsigned_ops<uint64_t, 4>, unsigned_ops<uint64_t, 8>, unsigned_ops<uint64_t, 6>, unsigned_ops<uint64_t, 3>,
	};
	any(g, f);
}

PROP(float_lanes, 300000, 20000000)
{
	static const Fn f[] = {
		float_ops<float, 4>, float_ops<float, 8>, float_ops<float, 16>, float_ops<float, 12>, float_ops<float, 1>, float_ops<float, 5>, float_ops<float, 32>,
		float_ops<double, 2>, float_ops<double, 4>, float_ops<double, 8>, float_ops<double, 6>, float_ops<double, 1>, float_ops<double, 3>,
	};
	any(g, f);
}
