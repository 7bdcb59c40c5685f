// Maximum length sequences: the register recurrence, the test for badness and the correlation
#include "pbt.hh"
#include "mls.hh"

namespace {

using pbt::G;

uint64_t mulmod(uint64_t a, uint64_t b, uint64_t poly, int deg)
{
	uint64_t r = 0;
	for (int i = deg - 1; i >= 0; --i) {
		r <<= 1;
		if (r >> deg & 1)
			r ^= poly;
		if (b >> i & 1)
			r ^= a;
	}
	return r;
}

uint64_t powmod(uint64_t e, uint64_t poly, int deg)
{
	// x^e mod poly
	uint64_t base = deg == 1 ? (2 ^ poly) : 2, r = 1;
	while (e) {
		if (e & 1)
			r = mulmod(r, base, poly, deg);
		base = mulmod(base, base, poly, deg);
		e >>= 1;
	}
	return r;
}

// x has order 2^deg - 1: the polynomial is primitive
bool primitive(uint64_t poly, int deg)
{
	if (!(poly & 1))
		return false;
	uint64_t n = (uint64_t(1) << deg) - 1;
	if (powmod(n, poly, deg) != 1)
		return false;
	uint64_t m = n;
	for (uint64_t p = 2; p * p <= m; ++p) {
		if (m % p)
			continue;
		while (m % p == 0)
			m /= p;
		if (p != n && powmod(n / p, poly, deg) == 1)
			return false;
	}
	if (m > 1 && m != n && powmod(n / m, poly, deg) == 1)
		return false;
	return true;
}

static const int good[] = { 0, 0x3, 0x7, 0xb, 0x13, 0x25, 0x43, 0x89, 0x11d, 0x211, 0x409, 0x805, 0x1053, 0x201b, 0x4443, 0x8003, 0x1100b, 0x20009, 0x40081, 0x80027, 0x100009 };

int some_poly(G &g, int lo, int hi)
{
	int deg = (int)g.range(lo, hi);
	if (deg <= 20 && g.flip())
		return good[deg];
	return (int)((uint64_t(1) << deg) | g.bits(deg));
}

int degree(int poly)
{
	int d = 0;
	while (poly >> (d + 1))
		++d;
	return d;
}

// every output is the bit leaving the top of the register, from any state
// and through any resets
PROP(recurrence, 1200000, 9600000)
{
	int poly, reg;
	bool dflt = g.chance(1, 4);
	alignas(CODE::MLS) uint8_t mem[sizeof(CODE::MLS)];
	memset(mem, (int)g.draw(255), sizeof(mem));
	CODE::MLS *mls;
	if (dflt) {
		poly = 0x100009;
		reg = 1;
		mls = new (mem) CODE::MLS;
	} else {
		poly = some_poly(g, 1, 30);
		reg = 1;
		if (g.flip()) {
			mls = new (mem) CODE::MLS(poly);
		} else {
			reg = (int)g.word(degree(poly));
			mls = new (mem) CODE::MLS(poly, reg);
		}
	}
	int deg = degree(poly), n = (int)g.range(1, 8), ones = 0;
	g.note("poly %x state %x", poly, reg);
	uint64_t state = reg;
	for (int k = 0; k < n; ++k) {
		for (int i = (int)g.range(1, 80); i; --i) {
			bool e = (state >> (deg - 1)) & 1;
			state = mulmod(state, deg == 1 ? 2 ^ poly : 2, poly, deg);
			bool v = (*mls)();
			CHECK(v == e, "poly %x: got bit %d where the register gives %d", poly, v, e);
			ones += v;
		}
		if (g.chance(1, 3)) {
			mls->reset();
			state = 1;
		} else if (g.flip()) {
			reg = (int)g.word(deg);
			mls->reset(reg);
			state = reg;
		}
	}
	if (ones)
		g.nontrivial();
}

// bad() tells exactly whether the polynomial is not primitive, for every
// nonzero start, and leaves a good generator where it started
PROP(badness, 72000, 576000)
{
	int poly = some_poly(g, 1, g.chance(1, 40) ? 18 : 13), deg = degree(poly);
	int r = (int)g.range(1, (1 << deg) - 1);
	bool dflt = g.flip();
	if (dflt)
		r = 1;
	CODE::MLS mls(poly, (int)g.bits(deg));
	bool bad = dflt ? mls.bad() : mls.bad(r), expect = !primitive(poly, deg);
	CHECK(bad == expect, "poly %x of degree %d from %x: bad() says %d, primitive is %d", poly, deg, r, bad, !expect);
	g.note("poly %x degree %d start %x bad %d", poly, deg, r, bad);
	g.label(bad ? "not primitive" : "primitive");
	if (bad) {
		// usable again after a reset
		mls.reset(r);
	}
	uint64_t state = r;
	for (int i = 0; i < 2 * deg + 3; ++i) {
		bool e = (state >> (deg - 1)) & 1;
		state = mulmod(state, deg == 1 ? 2 ^ poly : 2, poly, deg);
		CHECK(mls() == e, "poly %x: sequence after bad(%x) is off at step %d", poly, r, i);
	}
	g.nontrivial();
}

// the same for registers of many bits
PROP(long_periods, 32, 400)
{
	int deg = (int)g.range(19, g.chance(1, 8) ? 28 : 25), poly = 0;
	bool want = g.chance(2, 3);
	for (int i = 0; i < 1000; ++i) {
		poly = (int)((1u << deg) | g.bits(deg) | 1);
		if (primitive(poly, deg) == want)
			break;
	}
	int r = g.flip() ? 1 : (int)g.range(1, (1 << deg) - 1);
	g.note("poly %x degree %d start %x", poly, deg, r);
	CODE::MLS mls(poly);
	bool bad = mls.bad(r), expect = !primitive(poly, deg);
	CHECK(bad == expect, "poly %x of degree %d from %x: bad() says %d, primitive is %d", poly, deg, r, bad, !expect);
	g.label(bad ? "not primitive" : "primitive");
	g.nontrivial();
}

// a full period is balanced, repeats, and its circular autocorrelation is -1
// everywhere but at zero
PROP(correlation, 24000, 192000)
{
	int deg = (int)g.range(2, 11), poly = good[deg];
	if (g.flip()) {
		for (int i = 0; i < 200; ++i) {
			int p = (int)((1u << deg) | g.bits(deg) | 1);
			if (primitive(p, deg)) {
				poly = p;
				break;
			}
		}
	}
	int r = (int)g.range(1, (1 << deg) - 1), len = (1 << deg) - 1;
	CODE::MLS mls(poly, r);
	std::vector<int> a(2 * len);
	for (int &v : a)
		v = 1 - 2 * mls();
	int sum = 0;
	for (int i = 0; i < len; ++i) {
		sum += a[i];
		CHECK(a[i] == a[i + len], "poly %x: bit %d does not repeat after a period of %d", poly, i, len);
	}
	CHECK(sum == -1, "poly %x: period has an imbalance of %d", poly, sum);
	for (int k = 0; k < 4; ++k) {
		int shift = (int)g.range(1, len - 1), corr = 0;
		for (int i = 0; i < len; ++i)
			corr += a[i] * a[i + shift];
		CHECK(len == 1 || corr == -1, "poly %x: autocorrelation at %d is %d", poly, shift, corr);
	}
	g.note("poly %x length %d start %x", poly, len, r);
	g.nontrivial();
}

}
