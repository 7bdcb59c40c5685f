// Marsaglia's generators: the published recurrences, from any state, through any resets
#include "pbt.hh"
#include "xorshift.hh"

namespace {

using pbt::G;

// a uniform random bit generator must be usable where the standard asks for one
template <typename T>
void limits()
{
	static_assert(std::is_unsigned<typename T::result_type>::value, "result_type");
	CHECK(T::min() == 0 && T::max() == std::numeric_limits<typename T::result_type>::max(), "range of results is not the full range of its type");
}

struct Ref32 { uint32_t y; uint32_t next() { uint64_t t = y; t ^= (t << 13) & 0xffffffffu; t ^= t >> 17; t ^= (t << 5) & 0xffffffffu; return y = (uint32_t)t; } };
struct Ref64 { uint64_t x; uint64_t next() { uint64_t t = x; t = t ^ (t * 8192u); t = t ^ (t / 128u); t = t ^ (t * 131072u); return x = t; } };

// the five word and four word generators keep the history of their outputs
struct RefWow
{
	std::vector<uint32_t> q; // x y z w v
	uint32_t d;
	uint32_t next()
	{
		uint32_t t = q[0] ^ (q[0] / 4u), v = q[4];
		uint32_t n = v ^ (v * 16u) ^ t ^ (t * 2u);
		q.erase(q.begin());
		q.push_back(n);
		d = (uint32_t)(d + 362437u);
		return d + n;
	}
};
struct Ref128
{
	std::vector<uint32_t> q; // x y z w
	uint32_t next()
	{
		uint32_t t = q[0] ^ (q[0] * 2048u), w = q[3];
		uint32_t n = w ^ (w / 524288u) ^ t ^ (t / 256u);
		q.erase(q.begin());
		q.push_back(n);
		return n;
	}
};

PROP(xorshift32, 900000, 7200000)
{
	limits<CODE::Xorshift32>();
	bool dflt = g.flip();
	uint32_t y = dflt ? 2463534242u : (uint32_t)g.word(32);
	CODE::Xorshift32 a = dflt ? CODE::Xorshift32() : CODE::Xorshift32(y);
	Ref32 r{ y };
	int n = (int)g.range(1, 30);
	g.note("xorshift32 seed %u, %d segments", y, n);
	for (int i = 0; i < n; ++i) {
		for (int j = (int)g.range(1, 20); j; --j) {
			uint32_t e = r.next(), v = a();
			CHECK(v == e, "xorshift32 seed %u: got %u, recurrence gives %u", y, v, e);
		}
		switch (g.draw(3)) {
		case 0: y = (uint32_t)g.word(32); a.reset(y); r.y = y; break;
		case 1: y = 2463534242u; a.reset(); r.y = y; break;
		case 2: { CODE::Xorshift32 b(a); a(); a = b; } break;
		}
	}
	g.nontrivial();
}

PROP(xorshift64, 900000, 7200000)
{
	limits<CODE::Xorshift64>();
	bool dflt = g.flip();
	uint64_t x = dflt ? 88172645463325252ull : g.word(64);
	CODE::Xorshift64 a = dflt ? CODE::Xorshift64() : CODE::Xorshift64(x);
	Ref64 r{ x };
	int n = (int)g.range(1, 30);
	g.note("xorshift64 seed %llu, %d segments", (unsigned long long)x, n);
	for (int i = 0; i < n; ++i) {
		for (int j = (int)g.range(1, 20); j; --j) {
			uint64_t e = r.next(), v = a();
			CHECK(v == e, "xorshift64 seed %llu: got %llu, recurrence gives %llu", (unsigned long long)x, (unsigned long long)v, (unsigned long long)e);
		}
		switch (g.draw(3)) {
		case 0: x = g.word(64); a.reset(x); r.x = x; break;
		case 1: x = 88172645463325252ull; a.reset(); r.x = x; break;
		case 2: { CODE::Xorshift64 b(a); a(); a = b; } break;
		}
	}
	g.nontrivial();
}

PROP(xorwow, 900000, 7200000)
{
	limits<CODE::Xorwow>();
	static const uint32_t D[6] = { 123456789u, 362436069u, 521288629u, 88675123u, 5783321u, 6615241u };
	uint32_t s[6];
	// trailing arguments may be left to their defaults
	auto draw = [&]() {
		int given = (int)g.draw(6);
		for (int i = 0; i < 6; ++i)
			s[i] = i < given ? (uint32_t)g.word(32) : D[i];
		// the counter about to wrap or to become zero
		if (given == 6 && g.chance(1, 4))
			s[5] = (g.flip() ? 0u : (uint32_t)g.draw(362436)) - 362437u * (uint32_t)g.range(1, 20);
		return given;
	};
	auto make = [&](int k) {
		switch (k) {
		case 0: return CODE::Xorwow();
		case 1: return CODE::Xorwow(s[0]);
		case 2: return CODE::Xorwow(s[0], s[1]);
		case 3: return CODE::Xorwow(s[0], s[1], s[2]);
		case 4: return CODE::Xorwow(s[0], s[1], s[2], s[3]);
		case 5: return CODE::Xorwow(s[0], s[1], s[2], s[3], s[4]);
		default: return CODE::Xorwow(s[0], s[1], s[2], s[3], s[4], s[5]);
		}
	};
	CODE::Xorwow a = make(draw());
	RefWow r{ { s[0], s[1], s[2], s[3], s[4] }, s[5] };
	int n = (int)g.range(1, 20);
	g.note("xorwow %d segments", n);
	for (int i = 0; i < n; ++i) {
		for (int j = (int)g.range(1, 20); j; --j) {
			uint32_t e = r.next(), v = a();
			CHECK(v == e, "xorwow: got %u, recurrence gives %u", v, e);
		}
		if (g.flip()) {
			switch (draw()) {
			case 0: a.reset(); break;
			case 1: a.reset(s[0]); break;
			case 2: a.reset(s[0], s[1]); break;
			case 3: a.reset(s[0], s[1], s[2]); break;
			case 4: a.reset(s[0], s[1], s[2], s[3]); break;
			case 5: a.reset(s[0], s[1], s[2], s[3], s[4]); break;
			default: a.reset(s[0], s[1], s[2], s[3], s[4], s[5]);
			}
			r = RefWow{ { s[0], s[1], s[2], s[3], s[4] }, s[5] };
		}
	}
	g.nontrivial();
}

PROP(xorshift128, 900000, 7200000)
{
	limits<CODE::Xorshift128>();
	static const uint32_t D[4] = { 123456789u, 362436069u, 521288629u, 88675123u };
	uint32_t s[4];
	auto draw = [&]() {
		int given = (int)g.draw(4);
		for (int i = 0; i < 4; ++i)
			s[i] = i < given ? (uint32_t)g.word(32) : D[i];
		return given;
	};
	int k = draw();
	CODE::Xorshift128 a = k == 0 ? CODE::Xorshift128() : k == 1 ? CODE::Xorshift128(s[0]) : k == 2 ? CODE::Xorshift128(s[0], s[1]) :
		k == 3 ? CODE::Xorshift128(s[0], s[1], s[2]) : CODE::Xorshift128(s[0], s[1], s[2], s[3]);
	Ref128 r{ { s[0], s[1], s[2], s[3] } };
	int n = (int)g.range(1, 20);
	g.note("xorshift128 %d segments", n);
	for (int i = 0; i < n; ++i) {
		for (int j = (int)g.range(1, 20); j; --j) {
			uint32_t e = r.next(), v = a();
			CHECK(v == e, "xorshift128: got %u, recurrence gives %u", v, e);
		}
		if (g.flip()) {
			switch (draw()) {
			case 0: a.reset(); break;
			case 1: a.reset(s[0]); break;
			case 2: a.reset(s[0], s[1]); break;
			case 3: a.reset(s[0], s[1], s[2]); break;
			default: a.reset(s[0], s[1], s[2], s[3]);
			}
			r = Ref128{ { s[0], s[1], s[2], s[3] } };
		}
	}
	g.nontrivial();
}

// equal seeds give equal sequences whatever else runs beside them, and a
// nonzero state never becomes zero
PROP(streams, 600000, 4800000)
{
	uint32_t s = (uint32_t)g.word(32) | 1;
	CODE::Xorshift32 a(s), b(s), c(s + 2);
	CODE::Xorshift64 d(s), e(s);
	CODE::Xorshift128 f(s), h(s);
	CODE::Xorwow i(s), j(s);
	std::vector<uint64_t> seen;
	int n = (int)g.range(1, 100);
	for (int k = 0; k < n; ++k) {
		uint32_t va = a();
		uint64_t vd = d();
		uint32_t vf = f(), vi = i();
		if (k & 1)
			c();
		seen.push_back(va); seen.push_back(vd); seen.push_back(vf); seen.push_back(vi);
		CHECK(va != 0 && vd != 0, "state became zero after %d steps from seed %u", k + 1, s);
	}
	for (int k = 0; k < n; ++k)
		CHECK(seen[4 * k] == b() && seen[4 * k + 1] == e() && seen[4 * k + 2] == h() && seen[4 * k + 3] == j(), "streams of equal seed %u differ at step %d", s, k);
	g.note("streams seed %u length %d", s, n);
	g.nontrivial();
}

// long runs: every draw, past where the Weyl sequence of xorwow turns over (11851 draws)
PROP(long_runs, 400, 3200)
{
	uint32_t q[6];
	for (uint32_t &w : q)
		w = (uint32_t)g.word(32);
	int n = (int)(g.flip() ? 30000 : g.range(1000, 140000));
	CODE::Xorshift32 a(q[0]);
	CODE::Xorshift64 b(q[0] | uint64_t(q[1]) << 32);
	CODE::Xorshift128 c(q[0], q[1], q[2], q[3]);
	CODE::Xorwow d(q[0], q[1], q[2], q[3], q[4], q[5]);
	Ref32 ra{ q[0] };
	Ref64 rb{ q[0] | uint64_t(q[1]) << 32 };
	Ref128 rc{ { q[0], q[1], q[2], q[3] } };
	RefWow rd{ { q[0], q[1], q[2], q[3], q[4] }, q[5] };
	g.note("%d draws", n);
	for (int i = 0; i < n; ++i) {
		CHECK(a() == ra.next(), "xorshift32 differs from its recurrence after %d draws", i);
		CHECK(b() == rb.next(), "xorshift64 differs from its recurrence after %d draws", i);
		CHECK(c() == rc.next(), "xorshift128 differs from its recurrence after %d draws", i);
		CHECK(d() == rd.next(), "xorwow differs from its recurrence after %d draws", i);
	}
	g.nontrivial();
}

}
