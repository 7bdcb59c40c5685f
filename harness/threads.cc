// Objects of different threads do not disturb each other
#include "coders.hh"
#include <atomic>
#include <thread>

namespace {

struct Job
{
	Unit *unit;
	uint64_t seed;
	bool anew;
	Out got, want;
};

// each thread has objects of its own and makes new ones now and then
void together(G &g, int alike)
{
	std::vector<std::unique_ptr<Unit>> units;
	int num = (int)g.range(2, 4);
	std::vector<std::vector<Job>> todo(num);
	bool table[2] = { false, false };
	for (int t = 0; t < num; ++t) {
		int kind = alike >= 0 ? alike : (int)g.draw(KINDS - 1);
		// an LDPC code's table is generated once
		if (kind == LDPC_A || kind == LDPC_B) {
			bool &made = table[kind == LDPC_B];
			units.emplace_back(made ? AGAIN[kind == LDPC_B](g) : MAKERS[kind](g));
			made = true;
		} else {
			units.emplace_back(MAKERS[kind](g));
		}
		int jobs = (int)g.range(1, 4);
		for (int j = 0; j < jobs; ++j) {
			Job job;
			job.unit = units.back().get();
			job.seed = g.bits(64);
			job.anew = g.chance(1, 4);
			todo[t].push_back(job);
		}
	}
	// what they give alone
	for (auto &jobs : todo)
		for (Job &j : jobs)
			j.unit->own(j.seed, j.want);
#ifdef PBT_TSAN
	const int rounds = 1;
#else
	const int rounds = 8;
#endif
	std::atomic<int> ready(0);
	std::atomic<int> wrong[4];
	for (auto &w : wrong)
		w = -1;
	std::vector<std::thread> threads;
	for (int t = 0; t < num; ++t)
		threads.emplace_back([&, t] {
			// all at once
			ready.fetch_add(1, std::memory_order_relaxed);
			while (ready.load(std::memory_order_relaxed) < num)
				std::this_thread::yield();
			for (int r = 0; r < rounds; ++r)
				for (size_t j = 0; j < todo[t].size(); ++j) {
					Job &job = todo[t][j];
					job.got.bytes.clear();
					if (job.anew)
						job.unit->own(job.seed, job.got);
					else
						job.unit->job(job.seed, job.got);
					if (job.got.bytes != job.want.bytes) {
						wrong[t].store((int)j, std::memory_order_relaxed);
						return;
					}
				}
		});
	for (auto &t : threads)
		t.join();
	for (int t = 0; t < num; ++t) {
		g.note("%s,", todo[t][0].unit->name);
		g.label(todo[t][0].unit->name);
		int j = wrong[t];
		CHECK(j < 0, "%s: the results of thread %d of %d differ from those of a new object alone", todo[t][j].unit->name, t, num);
	}
	g.note("%d threads", num);
	g.nontrivial();
}

}

// the same kind in all threads
PROP(same_kind, 20000, 400000)
{
	together(g, (int)g.draw(KINDS - 1));
}

// any kinds
PROP(any_kinds, 10000, 200000)
{
	together(g, -1);
}
