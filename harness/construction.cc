// Construction of polar codes
#include "pbt.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"

using namespace pbt;

namespace {

template <typename T>
T &keep()
{
	static T *t = new T;
	return *t;
}

// erasure probabilities of the channels, most significant bit of the index first:
// a zero takes the worse channel 1-(1-p)^2, a one the better one p^2
std::vector<double> channels(double p, int level)
{
	int n = 1 << level;
	std::vector<double> res(1, p);
	for (int l = 0; l < level; ++l) {
		std::vector<double> next(2 * res.size());
		for (size_t i = 0; i < res.size(); ++i) {
			next[2 * i] = res[i] * (2 - res[i]);
			next[2 * i + 1] = res[i] * res[i];
		}
		res = next;
	}
	CHECK((int)res.size() == n, "oracle");
	return res;
}

// clearly more reliable, rounding and underflow aside
bool better(double a, double b) { return a < b - 1e-9 * b && b > 1e-290; }

bool bit(const uint32_t *p, int i) { return (p[i / 32] >> (i % 32)) & 1; }

double probability(G &g)
{
	switch (g.draw(7)) {
	case 0: return 0.5;
	case 1: return std::exp(-1.);
	case 2: return g.range(1, 99) * 0.01;
	case 3: return g.flip() ? 0.999 : 0.001;
	case 4: return g.range(1, 15) / 16.;
	default: return (1 + g.draw(999998)) * 1e-6;
	}
}

template <int MAX>
void code(G &g, int level)
{
	int n = 1 << level;
	int k = (int)g.edgy(0, n);
	bool given = g.flip();
	double p = given ? probability(g) : std::exp(-1.);
	Buf<uint32_t> frozen((n + 31) / 32, (uint8_t)g.bits(8));
	uint32_t before = frozen[0];
	auto &c = keep<CODE::PolarCodeConst0<MAX>>();
	if (given)
		c(frozen.get(), level, k, p);
	else
		c(frozen.get(), level, k);
	frozen.check("frozen bits");
	g.note("level %d, %d of %d, p %g", level, k, n, p);
	if (n < 32)
		CHECK(!((before ^ frozen[0]) >> n), "level %d: bits beyond the code changed", level);
	std::vector<double> pe(channels(p, level));
	int cnt = 0;
	double worst = -1, best = 2;
	int wi = 0, bi = 0;
	for (int i = 0; i < n; ++i) {
		if (bit(frozen.get(), i)) {
			if (pe[i] < best) {
				best = pe[i];
				bi = i;
			}
		} else {
			++cnt;
			if (pe[i] > worst) {
				worst = pe[i];
				wi = i;
			}
		}
	}
	CHECK(cnt == k, "level %d, p %.17g: %d positions left, not %d", level, p, cnt, k);
	if (k > 0 && k < n) {
		CHECK(!better(best, worst), "level %d, %d of %d, p %.17g: position %d (%g) is frozen, worse %d (%g) is not", level, k, n, p, bi, best, wi, worst);
		g.nontrivial();
	}
}

template <int MAX>
void sequence(G &g, int level)
{
	int n = 1 << level;
	bool given = g.flip();
	double p = given ? probability(g) : std::exp(-1.);
	Buf<int> seq(n);
	auto &c = keep<CODE::PolarSeqConst0<MAX>>();
	if (given)
		c(seq.get(), level, p);
	else
		c(seq.get(), level);
	seq.check("sequence");
	g.note("sequence of level %d, p %g", level, p);
	std::vector<double> pe(channels(p, level));
	std::vector<char> seen(n, 0);
	for (int i = 0; i < n; ++i) {
		CHECK(seq[i] >= 0 && seq[i] < n && !seen[seq[i]], "level %d, p %.17g: entry %d of the sequence is %d", level, p, i, seq[i]);
		seen[seq[i]] = 1;
		if (i)
			CHECK(!better(pe[seq[i - 1]], pe[seq[i]]), "level %d, p %.17g: %d (%g) comes before %d (%g)", level, p, seq[i - 1], pe[seq[i - 1]], seq[i], pe[seq[i]]);
	}
	if (level)
		g.nontrivial();
}

}

namespace {

void above(G &g, int level)
{
	int n = 1 << level;
	int how = (int)g.draw(2);
	double p = how ? probability(g) : 0.5, th = how > 1 ? probability(g) : 0.5;
	if (how > 1 && g.chance(1, 4))
		th = p;
	Buf<uint32_t> frozen((n + 31) / 32, (uint8_t)g.bits(8));
	uint32_t before = frozen[0];
	CODE::PolarFreezer freeze;
	int k = how > 1 ? freeze(frozen.get(), level, p, th) : how ? freeze(frozen.get(), level, p) : freeze(frozen.get(), level);
	frozen.check("frozen bits");
	if (n < 32)
		CHECK(!((before ^ frozen[0]) >> n), "level %d: bits beyond the code changed", level);
	std::vector<double> pe(channels(p, level));
	int cnt = 0;
	for (int i = 0; i < n; ++i) {
		bool f = bit(frozen.get(), i);
		cnt += !f;
		CHECK(f ? !better(pe[i], th) : !better(th, pe[i]), "level %d, p %.17g, threshold %.17g: position %d (%.17g) is %s", level, p, th, i, pe[i], f ? "frozen" : "not frozen");
	}
	CHECK(k == cnt, "level %d, p %.17g, threshold %.17g: %d reported, %d are left", level, p, th, k, cnt);
	g.note("threshold %g, level %d, p %g: %d left", th, level, p, cnt);
	if (k > 0 && k < n)
		g.nontrivial();
}

}

PROP(threshold, 600000, 4800000)
{
	above(g, (int)(g.chance(1, 50) ? g.range(11, 16) : g.range(1, 10)));
}

PROP(large, 120, 960)
{
	int level = (int)g.range(17, 20);
	switch (g.draw(2)) {
	case 0: return above(g, level);
	case 1: return code<20>(g, level);
	default: return sequence<20>(g, level);
	}
}

PROP(best_positions, 600000, 4800000)
{
	if (g.chance(1, 50))
		code<16>(g, (int)g.range(11, 16));
	else
		code<10>(g, (int)g.range(1, 10));
}

PROP(order, 240000, 1920000)
{
	if (g.chance(1, 50))
		sequence<16>(g, (int)g.range(11, 16));
	else
		sequence<10>(g, (int)g.range(1, 10));
}

// exact arithmetic: a position right at the threshold does not exceed it
PROP(at_threshold, 160000, 1280000)
{
	int level = (int)g.range(1, 3), n = 1 << level;
	double p = g.range(1, 15) / 16.;
	std::vector<double> pe(channels(p, level));
	int at = (int)g.draw(n - 1);
	Buf<uint32_t> frozen(1);
	CODE::PolarFreezer freeze;
	int k = freeze(frozen.get(), level, p, pe[at]), cnt = 0;
	for (int i = 0; i < n; ++i) {
		CHECK(bit(frozen.get(), i) == (pe[i] > pe[at]), "level %d, p %g: threshold is position %d's %.17g, position %d with %.17g is %s", level, p, at, pe[at], i, pe[i], bit(frozen.get(), i) ? "frozen" : "not frozen");
		cnt += !(pe[i] > pe[at]);
	}
	CHECK(k == cnt, "level %d, p %g: %d reported, %d are left", level, p, k, cnt);
	g.note("level %d, p %g, threshold %g", level, p, pe[at]);
	g.nontrivial();
}

// one object for several codes
PROP(reuse, 60000, 480000)
{
	for (int i = 0, n = (int)g.range(2, 5); i < n; ++i) {
		int level = (int)g.range(1, 10);
		if (g.flip())
			code<10>(g, level);
		else
			sequence<10>(g, level);
	}
}
