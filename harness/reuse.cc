// Coders keep no memory of earlier words, and objects do not disturb each other
#include "coders.hh"

namespace {

struct Pool
{
	std::vector<std::unique_ptr<Unit>> units;
	std::vector<int> kinds;
	void add(G &g, int kind)
	{
		// tables of one LDPC code can only be generated once
		for (int k : kinds)
			if (k == kind && (k == LDPC_A || k == LDPC_B))
				return;
		units.emplace_back(MAKERS[kind](g));
		kinds.push_back(kind);
	}
};

void same(G &g, Unit &u, uint64_t seed, const Out &got, int step)
{
	Out want;
	u.anew(g, seed, want);
	CHECK(got.bytes.size() == want.bytes.size(), "%s: %d bytes of results after %d words before, a new object gives %d", u.name, (int)got.bytes.size(), step, (int)want.bytes.size());
	for (size_t i = 0; i < got.bytes.size(); ++i)
		CHECK(got.bytes[i] == want.bytes[i], "%s: byte %d of the results is %d after %d words before, a new object gives %d", u.name, (int)i, got.bytes[i], step, want.bytes[i]);
}

}

// one object, any words before the one that counts
PROP(one_object, 300000, 6000000)
{
	Pool p;
	p.add(g, (int)g.draw(KINDS - 1));
	Unit &u = *p.units[0];
	int words = (int)g.range(0, 4);
	for (int w = 0; w < words; ++w) {
		Out skip;
		u.job(g.bits(64), skip);
	}
	uint64_t seed = g.bits(64);
	Out got;
	u.job(seed, got);
	g.note("%s after %d words", u.name, words);
	g.label(u.name);
	same(g, u, seed, got, words);
	if (words)
		g.nontrivial();
}

// several objects of the same and of other kinds in turns
PROP(many_objects, 100000, 2000000)
{
	Pool p;
	int num = (int)g.range(2, 5), alike = (int)g.draw(KINDS - 1);
	for (int i = 0; i < num; ++i)
		p.add(g, g.chance(1, 3) ? alike : (int)g.draw(KINDS - 1));
	struct Done { int unit; uint64_t seed; Out out; };
	std::vector<Done> done;
	int steps = (int)g.range(2, 10);
	for (int s = 0; s < steps; ++s) {
		Done d;
		d.unit = (int)g.draw(p.units.size() - 1);
		d.seed = g.bits(64);
		p.units[d.unit]->job(d.seed, d.out);
		done.push_back(d);
	}
	for (int s = 0; s < steps; ++s) {
		g.note("step %d of %d by object %d of %d, %s", s, steps, done[s].unit, (int)p.units.size(), p.units[done[s].unit]->name);
		same(g, *p.units[done[s].unit], done[s].seed, done[s].out, s);
	}
	if (p.units.size() > 1)
		g.nontrivial();
}
