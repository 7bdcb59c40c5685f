// prime fields and binary fields without tables against exact integer and polynomial arithmetic
#include "pbt.hh"
#include "galois_field.hh"
#include "prime_field.hh"

namespace {

using pbt::G;
typedef unsigned __int128 u128;

uint64_t mod_pow(uint64_t a, uint64_t n, uint64_t p)
{
	u128 r = 1 % p, b = a % p;
	for (; n; n >>= 1, b = b * b % p)
		if (n & 1)
			r = r * b % p;
	return (uint64_t)r;
}

// by the extended Euclidean algorithm
uint64_t mod_inv(uint64_t a, uint64_t p)
{
	__int128 t = 0, nt = 1, r = p, nr = a;
	while (nr) {
		__int128 q = r / nr, x = t - q * nt;
		t = nt;
		nt = x;
		x = r - q * nr;
		r = nr;
		nr = x;
	}
	return (uint64_t)(t < 0 ? t + p : t);
}

template <typename TYPE, TYPE P>
void prime(G &g)
{
	typedef CODE::PrimeField<TYPE, P> PF;
	uint64_t a = g.edgy(0, P - 1), b = g.edgy(0, P - 1), c = g.edgy(0, P - 1);
	if (g.chance(1, 8))
		b = P - a == P ? 0 : P - a;
	TYPE m = (TYPE)g.word(8 * sizeof(TYPE));
	PF x((TYPE)a), y((TYPE)b), z((TYPE)c);
	g.note("GF(%llu) a %llu b %llu c %llu m %llu", (unsigned long long)P, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)m);
	g.labelf("GF(%llu)", (unsigned long long)P);
	if (a > 1 && b > 1)
		g.nontrivial();
#define SAME(expr, want) do { uint64_t got_ = (uint64_t)(expr)(), want_ = (uint64_t)(want); \
	CHECK(got_ == want_, "GF(%llu): " #expr " is %llu, not %llu (x %llu y %llu z %llu m %llu)", (unsigned long long)P, (unsigned long long)got_, (unsigned long long)want_, \
		(unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)m); } while (0)
	SAME(x, a);
	SAME(x + y, (u128(a) + b) % P);
	SAME(x - y, (u128(a) + P - b) % P);
	SAME(-x, (P - a) % P);
	SAME(x * y, u128(a) * b % P);
	SAME(pow(x, m), mod_pow(a, m, P));
	// unreduced operations stay congruent
	SAME(reduce(add(x, y)), (u128(a) + b) % P);
	SAME(reduce(sub(x, y)), (u128(a) + P - b) % P);
	SAME(reduce(neg(x)), (P - a) % P);
	SAME(reduce(mul(x, y)), u128(a) * b % P);
	if (u128(P - 1) * (P - 1) + (P - 1) <= std::numeric_limits<TYPE>::max())
		SAME(reduce(add(mul(x, y), z)), (u128(a) * b + c) % P);
	SAME((x + y) * z - x, ((u128(a) + b) % P * c + (P - a)) % P);
	if (b) {
		uint64_t inv = mod_inv(b, P);
		SAME(rcp(y), inv);
		SAME(x / y, u128(a) * inv % P);
		SAME(reduce(div(x, y)), u128(a) * inv % P);
		PF t = x;
		t /= y;
		SAME(t, u128(a) * inv % P);
		SAME(t * y, a);
	}
	{
		PF t = x;
		SAME(t += y, (u128(a) + b) % P);
		SAME(t, (u128(a) + b) % P);
		t = x;
		SAME(t -= y, (u128(a) + P - b) % P);
		SAME(t, (u128(a) + P - b) % P);
		t = x;
		SAME(t *= y, u128(a) * b % P);
		SAME(t, u128(a) * b % P);
		CHECK((x == y) == (a == b) && (x != y) == (a != b), "GF(%llu): comparing %llu and %llu", (unsigned long long)P, (unsigned long long)a, (unsigned long long)b);
	}
#undef SAME
}

template <int M>
uint64_t poly_mul(uint64_t a, uint64_t b, uint64_t poly)
{
	u128 p = 0;
	for (int i = 0; i < M; ++i)
		if ((b >> i) & 1)
			p ^= (u128)a << i;
	for (int i = 2 * M; i >= M; --i)
		if ((p >> i) & 1)
			p ^= (u128)poly << (i - M);
	return (uint64_t)p;
}

template <int M, int64_t POLY, typename TYPE>
void binary(G &g)
{
	typedef CODE::GaloisFieldReference<M, POLY, TYPE> GF;
	const uint64_t N = (uint64_t(1) << M) - 1;
	uint64_t a = g.flip() ? g.word(M) : g.edgy(0, N), b = g.flip() ? g.word(M) : g.edgy(0, N);
	GF x((TYPE)a), y((TYPE)b);
	uint64_t ab = poly_mul<M>(a, b, POLY);
	g.note("GF(2^%d)/%llx a %llx b %llx", M, (unsigned long long)POLY, (unsigned long long)a, (unsigned long long)b);
	g.labelf("GF(2^%d)", M);
	if (a > 1 && b > 1)
		g.nontrivial();
#define SAME(expr, want) do { uint64_t got_ = (uint64_t)(expr).v, want_ = (uint64_t)(want); \
	CHECK(got_ == want_, "GF(2^%d)/%llx: " #expr " is %llx, not %llx (x %llx y %llx)", M, (unsigned long long)POLY, (unsigned long long)got_, (unsigned long long)want_, \
		(unsigned long long)a, (unsigned long long)b); } while (0)
	SAME(x + y, a ^ b);
	SAME(x - y, a ^ b);
	SAME(-x, a);
	SAME(x * y, ab);
	if (b) {
		GF inv = rcp(y);
		CHECK((uint64_t)inv.v <= N, "GF(2^%d)/%llx: reciprocal %llx of %llx is no element", M, (unsigned long long)POLY, (unsigned long long)inv.v, (unsigned long long)b);
		CHECK(poly_mul<M>(inv.v, b, POLY) == 1, "GF(2^%d)/%llx: reciprocal of %llx given as %llx", M, (unsigned long long)POLY, (unsigned long long)b, (unsigned long long)inv.v);
		SAME(x / y, poly_mul<M>(a, inv.v, POLY));
	}
	GF t = x;
	SAME(t += y, a ^ b);
	SAME(t, a ^ b);
	t = x;
	SAME(t *= y, ab);
	SAME(t, ab);
	CHECK((x == y) == (a == b) && (x != y) == (a != b), "GF(2^%d): comparing %llx and %llx", M, (unsigned long long)a, (unsigned long long)b);
#undef SAME
}

typedef void (*Fn)(G &);

}

PROP(prime_fields, 3200000, 30000000)
{
	static const Fn fns[] = {
		prime<uint32_t, 2>, prime<uint32_t, 3>, prime<uint32_t, 5>, prime<uint32_t, 13>, prime<uint64_t, 7>, prime<uint32_t, 127>, prime<uint64_t, 2>,
		prime<uint32_t, 251>, prime<uint32_t, 257>, prime<uint32_t, 8191>, prime<uint32_t, 32749>, prime<uint32_t, 65521>,
		prime<uint64_t, 257>, prime<uint64_t, 65537>, prime<uint64_t, 998244353>, prime<uint64_t, 2147483647>, prime<uint64_t, 4294967291>,
	};
	fns[g.draw(sizeof(fns) / sizeof(*fns) - 1)](g);
}

PROP(binary_fields, 3200000, 30000000)
{
	// irreducible, not all of them primitive
	static const Fn fns[] = {
		binary<2, 0x7, uint8_t>, binary<3, 0xb, uint8_t>, binary<4, 0x13, uint8_t>, binary<4, 0x1f, uint8_t>, binary<5, 0x25, uint8_t>,
		binary<6, 0x43, uint8_t>, binary<7, 0x83, uint8_t>, binary<8, 0x11d, uint8_t>, binary<8, 0x11b, uint8_t>, binary<8, 0x11d, uint16_t>,
		binary<9, 0x211, uint16_t>, binary<10, 0x409, uint16_t>, binary<11, 0x805, uint16_t>, binary<12, 0x1053, uint16_t>, binary<12, 0x1053, uint32_t>,
		binary<13, 0x201b, uint16_t>, binary<14, 0x4443, uint16_t>, binary<15, 0x8003, uint16_t>, binary<16, 0x1100b, uint16_t>, binary<16, 0x1002d, uint16_t>,
		binary<16, 0x1100b, uint32_t>, binary<24, 0x100001b, uint32_t>, binary<31, 0x80000009ll, uint32_t>, binary<32, 0x100400007ll, uint32_t>,
	};
	fns[g.draw(sizeof(fns) / sizeof(*fns) - 1)](g);
}
