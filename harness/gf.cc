// Galois field arithmetic with tables against polynomial arithmetic
#include "pbt.hh"
#include "galois_field.hh"

namespace {

using pbt::G;

// the model: polynomials over GF(2) modulo the field polynomial, no tables
template <int M, int POLY>
struct Model
{
	static uint32_t mul(uint32_t a, uint32_t b)
	{
		uint64_t p = 0;
		for (int i = 0; i < M; ++i)
			if ((b >> i) & 1)
				p ^= (uint64_t)a << i;
		for (int i = 2 * M; i >= M; --i)
			if ((p >> i) & 1)
				p ^= (uint64_t)POLY << (i - M);
		return (uint32_t)p;
	}
	static uint32_t pow(uint32_t a, uint64_t n)
	{
		uint32_t r = 1;
		for (; n; n >>= 1, a = mul(a, a))
			if (n & 1)
				r = mul(r, a);
		return r;
	}
	// the inverse is the only x with a x = 1
	static uint32_t inv(uint32_t a)
	{
		return pow(a, (uint64_t(1) << M) - 2);
	}
	static uint32_t alpha(uint32_t i)
	{
		return pow(M == 1 ? 1 : 2, i);
	}
};

template <typename GF>
GF &instance()
{
	static GF *gf = new GF;
	return *gf;
}

template <int M, int POLY, typename TYPE>
void pair(uint32_t a, uint32_t b, uint32_t c, uint32_t i, uint32_t j)
{
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	typedef typename GF::ValueType V;
	typedef typename GF::IndexType I;
	typedef Model<M, POLY> R;
	const uint32_t N = (1u << M) - 1;
	V va((TYPE)a), vb((TYPE)b), vc((TYPE)c);
	uint32_t ab = R::mul(a, b);
#define SAME(expr, want) do { uint32_t got_ = (uint32_t)(expr).v, want_ = (want); \
	CHECK(got_ == want_, "GF(2^%d)/%x: " #expr " is %u, not %u (a %u b %u c %u i %u j %u)", M, POLY, got_, want_, a, b, c, i, j); } while (0)
	SAME(va + vb, a ^ b);
	SAME(va - vb, a ^ b);
	SAME(-va, a);
	SAME(va * vb, ab);
	SAME(fma(va, vb, vc), ab ^ c);
	{
		V t = va;
		t += vb;
		SAME(t, a ^ b);
		t = va;
		t *= vb;
		SAME(t, ab);
		SAME(V::zero(), 0);
		CHECK((va == vb) == (a == b) && (va != vb) == (a != b), "GF(2^%d): comparing %u and %u", M, a, b);
		CHECK((bool)va == (a != 0) && (int)va == (int)a, "GF(2^%d): conversion of %u", M, a);
	}
	if (b) {
		uint32_t inv = R::inv(b);
		SAME(rcp(vb), inv);
		SAME(va / vb, R::mul(a, inv));
		uint32_t log = (uint32_t)(int)index(vb);
		CHECK(log < N && R::alpha(log) == b, "GF(2^%d)/%x: logarithm of %u is given as %u", M, POLY, b, log);
		SAME(value(index(vb)), b);
		SAME(va / index(vb), R::mul(a, inv));
		SAME(va * index(vb), ab);
		SAME(index(vb) * va, ab);
		SAME(fma(index(vb), va, vc), ab ^ c);
		SAME(fma(va, index(vb), vc), ab ^ c);
		V t = va;
		t *= index(vb);
		SAME(t, ab);
		if (a) {
			SAME(value(index(va) * index(vb)), ab);
			SAME(value(index(va) / index(vb)), R::mul(a, inv));
			SAME(index(va) / vb, R::mul(a, inv));
			SAME(fma(index(va), index(vb), vc), ab ^ c);
			I x = index(va);
			x *= index(vb);
			SAME(value(x), ab);
			x = index(va);
			x /= index(vb);
			SAME(value(x), R::mul(a, inv));
		}
	}
	// and starting from indices
	I ii((TYPE)i), jj((TYPE)j);
	uint32_t vi = R::alpha(i), vj = R::alpha(j);
	SAME(value(ii), vi);
	CHECK((int)I::modulus() == (int)N, "GF(2^%d): modulus", M);
	CHECK((uint32_t)(int)index(value(ii)) == i, "GF(2^%d)/%x: index of value of index %u is %d", M, POLY, i, (int)index(value(ii)));
	CHECK((uint32_t)(int)(ii * jj) == (i + j) % N, "GF(2^%d)/%x: index %u times %u is %d", M, POLY, i, j, (int)(ii * jj));
	CHECK((uint32_t)(int)(ii / jj) == (i + N - j) % N, "GF(2^%d)/%x: index %u by %u is %d", M, POLY, i, j, (int)(ii / jj));
	CHECK((uint32_t)(int)rcp(ii) == (N - i) % N, "GF(2^%d)/%x: reciprocal of index %u is %d", M, POLY, i, (int)rcp(ii));
	SAME(ii * va, R::mul(vi, a));
	SAME(fma(ii, jj, vc), R::mul(vi, vj) ^ c);
	if (a)
		SAME(ii / va, R::mul(vi, R::inv(a)));
#undef SAME
}

template <int M, int POLY, typename TYPE>
void random_triples(G &g)
{
	instance<CODE::GaloisField<M, POLY, TYPE>>();
	const uint32_t N = (1u << M) - 1;
	uint32_t a = g.edgy(0, N), b = g.edgy(0, N), c = g.edgy(0, N), i = g.edgy(0, N - 1), j = g.edgy(0, N - 1);
	if (g.chance(1, 8))
		j = (N - i) % N;
	if (a && b)
		g.nontrivial();
	g.labelf("GF(2^%d)", M);
	g.note("GF(2^%d)/%x a %u b %u c %u i %u j %u", M, POLY, a, b, c, i, j);
	pair<M, POLY, TYPE>(a, b, c, i, j);
}

// a new field object replaces the tables of the one before
template <int M, int POLY, typename TYPE>
void fresh_exhaustive(G &g)
{
	const uint32_t Q = 1u << M, N = Q - 1;
	uint32_t c = g.draw(N);
	pbt::Fresh<CODE::GaloisField<M, POLY, TYPE>> gf(g);
	if (M > 1)
		g.nontrivial();
	g.note("all pairs of GF(2^%d)/%x, c %u", M, POLY, c);
	g.labelf("all pairs of GF(2^%d)", M);
	for (uint32_t a = 0; a < Q; ++a)
		for (uint32_t b = 0; b < Q; ++b)
			pair<M, POLY, TYPE>(a, b, c, a % N, b % N);
}

typedef void (*Fn)(G &);

}

PROP(triples, 2400000, 40000000)
{
	static const Fn fns[] = {
		random_triples<1, 0x3, uint8_t>, random_triples<2, 0x7, uint8_t>, random_triples<3, 0xb, uint8_t>, random_triples<3, 0xd, uint16_t>,
		random_triples<4, 0x13, uint8_t>, random_triples<4, 0x19, uint8_t>, random_triples<5, 0x25, uint8_t>, random_triples<5, 0x37, uint8_t>,
		random_triples<6, 0x43, uint8_t>, random_triples<7, 0x83, uint8_t>, random_triples<7, 0x89, uint32_t>,
		random_triples<8, 0x11d, uint8_t>, random_triples<8, 0x12b, uint8_t>, random_triples<8, 0x187, uint8_t>, random_triples<8, 0x11d, uint16_t>,
		random_triples<9, 0x211, uint16_t>, random_triples<10, 0x409, uint16_t>, random_triples<11, 0x805, uint16_t>, random_triples<12, 0x1053, uint16_t>,
		random_triples<13, 0x201b, uint16_t>, random_triples<14, 0x4443, uint16_t>, random_triples<15, 0x8003, uint16_t>,
		random_triples<16, 0x1100b, uint16_t>, random_triples<16, 0x1002d, uint16_t>, random_triples<16, 0x1100b, uint32_t>,
	};
	fns[g.draw(sizeof(fns) / sizeof(*fns) - 1)](g);
}

PROP(all_pairs, 240, 3000)
{
	// polynomials the other property function does not hold an instance of
	static const Fn fns[] = {
		fresh_exhaustive<1, 0x3, uint16_t>, fresh_exhaustive<2, 0x7, uint16_t>, fresh_exhaustive<3, 0xd, uint8_t>, fresh_exhaustive<4, 0x19, uint16_t>,
		fresh_exhaustive<5, 0x29, uint8_t>, fresh_exhaustive<6, 0x5b, uint8_t>, fresh_exhaustive<7, 0x89, uint8_t>,
		fresh_exhaustive<8, 0x169, uint8_t>, fresh_exhaustive<8, 0x1cf, uint8_t>, fresh_exhaustive<8, 0x14d, uint32_t>,
	};
	fns[g.draw(sizeof(fns) / sizeof(*fns) - 1)](g);
}
