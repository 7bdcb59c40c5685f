// The soft value arithmetic under the polar decoders: exact or saturated, scalars and vectors alike
#include "pbt.hh"
#include "simd.hh"
#include "polar_helper.hh"

namespace {

using pbt::G;
using pbt::Buf;

template <typename V>
V soft(G &g, pbt::Rng &r, int kind)
{
	if (sizeof(V) == 1) {
		switch (kind) {
		case 0: return (V)r.range(-128, 127);
		case 1: return (V)(r.below(2) ? 127 - (int)r.below(3) : -128 + (int)r.below(3));
		case 2: return (V)r.range(-2, 2);
		default: return (V)(64 - (int)r.below(2) * 128 + (int)r.range(-2, 2));
		}
	}
	switch (kind) {
	case 0: return (V)r.range(-1000, 1000);
	case 1: return (V)std::ldexp((double)r.range(-8191, 8191), (int)r.range(-60, 60));
	case 2: return (V)r.range(-2, 2);
	default: return (V)(r.uni() * 2 - 1);
	}
}

template <typename V>
V hardened(pbt::Rng &r)
{
	return (V)r.range(-1, 1);
}


// what the operations are to give
template <typename V>
struct Want
{
	static double sgn(V v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
	static double mag(V v)
	{
		double m = v < 0 ? -(double)v : (double)v;
		return sizeof(V) == 1 && m > 127 ? 127 : m;
	}
	static double prod(V a, V b) { return sgn(a) * sgn(b) * std::min(mag(a), mag(b)); }
	// what of bytes is beyond the range ends at the range, -128 is as far as -127
	static bool limited(V got, int s, bool lowest)
	{
		int x = (int)got;
		if (s > 127)
			return x == 127;
		if (s < -127)
			return x == -127 || (x == -128 && lowest);
		return x == s;
	}
	static bool sum(V got, V a, V b, bool lowest)
	{
		return sizeof(V) > 1 ? got == (V)(a + b) : limited(got, (int)a + (int)b, lowest);
	}
	// decision times value plus value
	static bool madd(V got, V d, V b, V c)
	{
		if (sizeof(V) > 1)
			return got == (V)((V)(d * b) + c);
		return limited(got, (int)d * (int)b + (int)c, false) || limited(got, (int)d * std::max((int)b, -127) + (int)c, false);
	}
};

template <typename V>
void scalar(G &g)
{
	typedef CODE::PolarHelper<V> H;
	typedef Want<V> W;
	pbt::Rng r(g.bulk());
	int kind = (int)g.draw(3), other = (int)g.draw(3), n = (int)g.range(1, 64);
	CHECK(H::one() == 1 && H::zero() == 0, "scalar of %d bytes: one is %g, zero is %g", (int)sizeof(V), (double)H::one(), (double)H::zero());
	for (int t = 0; t < n; ++t) {
		V a = soft<V>(g, r, kind), b = soft<V>(g, r, other), h = hardened<V>(r), k = hardened<V>(r);
		g.note("scalar of %d bytes: %g and %g, decision %g", (int)sizeof(V), (double)a, (double)b, (double)h);
		CHECK(H::signum(a) == W::sgn(a), "signum(%g) is %g", (double)a, (double)H::signum(a));
		CHECK(H::qabs(a) == W::mag(a), "qabs(%g) is %g", (double)a, (double)H::qabs(a));
		CHECK(H::qmin(a, b) == std::min(a, b), "qmin(%g, %g) is %g", (double)a, (double)b, (double)H::qmin(a, b));
		CHECK(H::prod(a, b) == W::prod(a, b), "prod(%g, %g) is %g", (double)a, (double)b, (double)H::prod(a, b));
		CHECK(W::sum(H::qadd(a, b), a, b, false), "qadd(%g, %g) is %g", (double)a, (double)b, (double)H::qadd(a, b));
		CHECK(H::qmul(h, k) == h * k, "qmul(%g, %g) is %g", (double)h, (double)k, (double)H::qmul(h, k));
		V got = H::madd(h, b, a);
		CHECK(W::madd(got, h, b, a), "madd(%g, %g, %g) is %g", (double)h, (double)b, (double)a, (double)got);
	}
	g.nontrivial();
	g.labelf("scalar of %d bytes", (int)sizeof(V));
}

template <typename V, int WIDTH>
void vector(G &g)
{
	typedef SIMD<V, WIDTH> T;
	typedef CODE::PolarHelper<T> H;
	typedef Want<V> W;
	pbt::Rng r(g.bulk());
	int kind = (int)g.draw(3), other = (int)g.draw(3);
	bool mixed = g.flip();
	T a, b, h, k;
	for (int i = 0; i < WIDTH; ++i) {
		a.v[i] = soft<V>(g, r, mixed ? (int)r.below(4) : kind);
		b.v[i] = soft<V>(g, r, mixed ? (int)r.below(4) : other);
		h.v[i] = hardened<V>(r);
		k.v[i] = hardened<V>(r);
	}
	g.note("vector of %d x %d bytes: %g and %g.., decision %g", WIDTH, (int)sizeof(V), (double)a.v[0], (double)b.v[0], (double)h.v[0]);
	T one = H::one(), zero = H::zero(), sgn = H::signum(a), mag = H::qabs(a), add = H::qadd(a, b), mul = H::qmul(h, k), prod = H::prod(a, b), madd = H::madd(h, b, a);
	for (int i = 0; i < WIDTH; ++i) {
		V x = a.v[i], y = b.v[i], d = h.v[i], e = k.v[i];
		CHECK(one.v[i] == 1 && zero.v[i] == 0, "%d x %d bytes: one is %g, zero is %g in lane %d", WIDTH, (int)sizeof(V), (double)one.v[i], (double)zero.v[i], i);
		CHECK(sgn.v[i] == W::sgn(x), "%d x %d bytes: signum(%g) is %g in lane %d", WIDTH, (int)sizeof(V), (double)x, (double)sgn.v[i], i);
		CHECK(mag.v[i] == W::mag(x), "%d x %d bytes: qabs(%g) is %g in lane %d", WIDTH, (int)sizeof(V), (double)x, (double)mag.v[i], i);
		CHECK(prod.v[i] == W::prod(x, y), "%d x %d bytes: prod(%g, %g) is %g in lane %d", WIDTH, (int)sizeof(V), (double)x, (double)y, (double)prod.v[i], i);
		CHECK(W::sum(add.v[i], x, y, true), "%d x %d bytes: qadd(%g, %g) is %g in lane %d", WIDTH, (int)sizeof(V), (double)x, (double)y, (double)add.v[i], i);
		CHECK(mul.v[i] == d * e, "%d x %d bytes: qmul(%g, %g) is %g in lane %d", WIDTH, (int)sizeof(V), (double)d, (double)e, (double)mul.v[i], i);
		CHECK(W::madd(madd.v[i], d, y, x), "%d x %d bytes: madd(%g, %g, %g) is %g in lane %d", WIDTH, (int)sizeof(V), (double)d, (double)y, (double)x, (double)madd.v[i], i);
	}
	g.nontrivial();
	g.labelf("vector of %d x %d bytes", WIDTH, (int)sizeof(V));
}

template <typename IN>
void quantize(G &g)
{
	pbt::Rng r(g.bulk());
	int kind = (int)g.draw(4), n = (int)g.range(1, 64);
	for (int t = 0; t < n; ++t) {
		IN in;
		switch (kind) {
		case 0: in = (IN)(r.gauss() * 60); break;
		case 1: in = (IN)((double)r.range(-280, 280) / 2); break;
		case 2: in = (IN)std::ldexp(r.gauss(), std::is_integral<IN>::value ? (int)r.below(25) : (int)r.range(-40, 100)); break;
		case 3: in = (IN)((r.below(2) ? 127 : -127) + (double)r.range(-16, 16) / 8); break;
		default: in = (IN)(r.uni() * 4 - 2);
		}
		int q = CODE::PolarHelper<int8_t>::quant(in);
		g.note("quant(%.9g)", (double)in);
		// nearest, the range symmetric
		if (in >= 127)
			CHECK(q == 127, "quant(%.9g) is %d", (double)in, q);
		else if (in <= -127)
			CHECK(q == -127, "quant(%.9g) is %d", (double)in, q);
		else
			CHECK(std::fabs((double)in - q) <= 0.5, "quant(%.9g) is %d", (double)in, q);
		IN same = CODE::PolarHelper<IN>::quant(in);
		CHECK(same == in, "quant of %d bytes (%.9g) is %.9g", (int)sizeof(IN), (double)in, (double)same);
		if (q && std::abs(q) < 127)
			g.nontrivial();
	}
}

typedef void (*Fn)(G &);

}

PROP(scalars, 60000, 1000000)
{
	static const Fn f[] = { scalar<int8_t>, scalar<float>, scalar<double> };
	f[g.draw(2)](g);
}

PROP(vectors, 400000, 8000000)
{
	static const Fn f[] = {
		vector<int8_t, 16>, vector<int8_t, 32>, vector<int8_t, 8>, vector<int8_t, 64>, vector<int8_t, 128>, vector<int8_t, 1>, vector<int8_t, 4>,
		vector<float, 4>, vector<float, 8>, vector<float, 16>, vector<float, 32>, vector<float, 1>, vector<float, 2>,
		vector<double, 2>, vector<double, 4>, vector<double, 8>, vector<double, 16>,
	};
	f[g.draw(sizeof(f) / sizeof(f[0]) - 1)](g);
}

PROP(quantizer, 60000, 1000000)
{
	static const Fn f[] = { quantize<float>, quantize<double>, quantize<int> };
	f[g.draw(2)](g);
}
