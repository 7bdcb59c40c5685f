/*
A small property-based testing engine.

Every random decision of a case is a recorded "choice" (a bounded unsigned
number, 0 being the simplest).  A case is a pure function of its choice
sequence, so a failure is shrunk by editing the sequence and re-running the
case in a forked child, and the shrunk sequence is the replay file.

Cases run in forked workers: a failed oracle, an assertion or a crash of the
code under test, a sanitizer report or a runaway loop (CPU time) ends only the
worker and is attributed to the case that was running.

No exceptions and no RTTI: compiles with the flags the repository's own tests
use.  The std headers the library expects its includer to provide come first.
*/
#pragma once

#include <algorithm>
#include <atomic>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <new>
#include <random>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif

#if defined(PBT_ASAN) || defined(PBT_TSAN)
extern "C" void __sanitizer_set_death_callback(void (*)());
#endif

#ifdef PBT_TSAN
extern "C" __attribute__((used, visibility("default"))) const char *__tsan_default_options()
{
	return "halt_on_error=1:abort_on_error=0:exitcode=78:die_after_fork=0:report_signal_unsafe=0:report_thread_leaks=0:history_size=2";
}
#endif

#ifdef PBT_ASAN
extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=0";
}
extern "C" __attribute__((used, visibility("default"))) const char *__ubsan_default_options()
{
	return "print_stacktrace=0:exitcode=78";
}
#endif

namespace pbt {

static const int WORKERS = 8;
static const size_t MAX_CHOICES = 1 << 20;
static const int MAX_LABELS = 192;
static const int CASE_CPU_SECONDS = 25;

inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

inline uint64_t hash_str(const char *s)
{
	uint64_t h = 0xcbf29ce484222325ull;
	while (*s)
		h = (h ^ (uint8_t)*s++) * 0x100000001b3ull;
	return mix(h);
}

// expands one choice into as many values as needed
struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next()
	{
		s += 0x9e3779b97f4a7c15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
	double uni() { return (next() >> 11) * 0x1p-53; }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	double gauss()
	{
		double u = uni(), v = uni();
		return std::sqrt(-2 * std::log(1 - u)) * std::cos(2 * 3.14159265358979323846 * v);
	}
};

struct Slot
{
	volatile int prop;
	volatile int64_t index;
	volatile int64_t done;
	volatile int finished;
	volatile int failed;
	char msg[4096];
	uint64_t nchoices;
	uint64_t labels[MAX_LABELS];
	char names[MAX_LABELS][48];
};

struct Shared
{
	Slot slot[WORKERS + 1];
	uint64_t choices[MAX_CHOICES];
};

inline Shared *&shared()
{
	static Shared *s;
	return s;
}

inline int &slot_index()
{
	static int i = WORKERS;
	return i;
}

inline Slot &slot()
{
	return shared()->slot[slot_index()];
}

class G;
inline G *&current()
{
	static G *g;
	return g;
}

class G
{
	std::vector<uint64_t> rec;
	const std::vector<uint64_t> *rep;
	Rng rng;
	bool interesting = false;
	std::string note_;
public:
	bool sampling = false;
	explicit G(uint64_t seed, const std::vector<uint64_t> *replay = nullptr) : rep(replay), rng(seed) {}
	// a choice in [0, max]
	uint64_t draw(uint64_t max)
	{
		uint64_t v;
		if (rep) {
			v = rec.size() < rep->size() ? (*rep)[rec.size()] : 0;
			if (v > max)
				v = max == UINT64_MAX ? v : v % (max + 1);
		} else {
			v = max == UINT64_MAX ? rng.next() : rng.below(max + 1);
		}
		rec.push_back(v);
		return v;
	}
	// [lo, hi], simplest is lo
	int64_t range(int64_t lo, int64_t hi)
	{
		return hi <= lo ? lo : lo + (int64_t)draw((uint64_t)(hi - lo));
	}
	// [lo, hi] with both ends and small values favoured
	int64_t edgy(int64_t lo, int64_t hi)
	{
		if (hi <= lo)
			return lo;
		uint64_t span = hi - lo;
		switch (draw(7)) {
		case 0: return lo;
		case 1: return hi;
		case 2: return lo + (int64_t)draw(std::min<uint64_t>(span, 8));
		case 3: return hi - (int64_t)draw(std::min<uint64_t>(span, 8));
		default: return lo + (int64_t)draw(span);
		}
	}
	bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
	bool flip() { return draw(1); }
	uint64_t bits(int n) { return n <= 0 ? 0 : draw(n >= 64 ? UINT64_MAX : ((uint64_t(1) << n) - 1)); }
	// values biased to structure: zero, ones, single bits, small, random
	uint64_t word(int n)
	{
		uint64_t all = n >= 64 ? UINT64_MAX : ((uint64_t(1) << n) - 1);
		switch (draw(6)) {
		case 0: return draw(std::min<uint64_t>(all, 3));
		case 1: return all - draw(std::min<uint64_t>(all, 3));
		case 2: return (uint64_t(1) << draw(n - 1)) & all;
		default: return bits(n);
		}
	}
	template <typename T>
	T pick(std::initializer_list<T> l) { return l.begin()[draw(l.size() - 1)]; }
	template <typename T>
	const T &pick(const std::vector<T> &l) { return l[draw(l.size() - 1)]; }
	Rng bulk() { return Rng(draw(UINT64_MAX)); }
	// k distinct numbers below n, in drawn order
	std::vector<int> subset(int n, int k)
	{
		std::vector<int> res;
		if (k > n)
			k = n;
		if (k > 64 || (k > 16 && k * 4 > n)) {
			Rng r(bulk());
			std::vector<int> all(n);
			for (int i = 0; i < n; ++i)
				all[i] = i;
			for (int i = 0; i < k; ++i)
				std::swap(all[i], all[i + r.below(n - i)]);
			all.resize(k);
			return all;
		}
		for (int i = 0; i < k; ++i) {
			int v = (int)draw(n - 1 - i);
			// v-th number not taken so far
			std::vector<int> sorted(res);
			std::sort(sorted.begin(), sorted.end());
			for (int s : sorted)
				if (v >= s)
					++v;
			res.push_back(v);
		}
		return res;
	}
	std::vector<int> permutation(int n)
	{
		std::vector<int> all(n);
		for (int i = 0; i < n; ++i)
			all[i] = i;
		if (n > 40) {
			Rng r(bulk());
			for (int i = n - 1; i > 0; --i)
				std::swap(all[i], all[r.below(i + 1)]);
		} else {
			for (int i = 0; i + 1 < n; ++i)
				std::swap(all[i], all[i + draw(n - 1 - i)]);
		}
		return all;
	}
	// fill with values of the given number of bits: zeros, ones, sparse, ramp, random
	template <typename T>
	void fill(T *p, size_t n, int nbits = 8 * sizeof(T))
	{
		uint64_t all = nbits >= 64 ? UINT64_MAX : ((uint64_t(1) << nbits) - 1);
		int mode = (int)draw(7);
		if (mode == 0 || mode == 3) {
			for (size_t i = 0; i < n; ++i)
				p[i] = T(0);
			if (mode == 3 && n)
				for (int i = 0, k = (int)range(1, 3); i < k; ++i) {
					size_t at = draw(n - 1);
					p[at] = T(bits(nbits));
				}
		} else if (mode == 1) {
			for (size_t i = 0; i < n; ++i)
				p[i] = T(all);
		} else if (mode == 2) {
			uint64_t a = bits(nbits), b = draw(3);
			for (size_t i = 0; i < n; ++i)
				p[i] = T((a + b * i) & all);
		} else {
			Rng r(bulk());
			for (size_t i = 0; i < n; ++i)
				p[i] = T(r.next() & all);
		}
	}
	void nontrivial() { interesting = true; }
	bool is_nontrivial() const { return interesting; }
	void label(const char *name)
	{
		Slot &s = slot();
		for (int i = 0; i < MAX_LABELS; ++i) {
			if (!s.names[i][0]) {
				strncpy(s.names[i], name, sizeof(s.names[i]) - 1);
				s.labels[i] = 1;
				return;
			}
			if (!strncmp(s.names[i], name, sizeof(s.names[i]) - 1)) {
				++s.labels[i];
				return;
			}
		}
	}
	void labelf(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char buf[64];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		label(buf);
	}
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		if (!sampling || note_.size() > 600)
			return;
		char buf[512];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		if (note_.size())
			note_ += "; ";
		note_ += buf;
	}
	const std::string &notes() const { return note_; }
	const std::vector<uint64_t> &choices() const { return rec; }
	uint64_t hash() const
	{
		uint64_t h = 1;
		for (uint64_t v : rec)
			h = mix(h ^ v);
		return h | 1;
	}
};

inline void publish_choices()
{
	if (G *g = current()) {
		size_t n = std::min(g->choices().size(), MAX_CHOICES);
		memcpy(shared()->choices, g->choices().data(), n * sizeof(uint64_t));
		slot().nchoices = n;
	}
}

[[noreturn]] inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	Slot &s = slot();
	size_t n = 0;
	vsnprintf(s.msg + n, sizeof(s.msg) - n, fmt, ap);
	va_end(ap);
	if (G *g = current()) {
		if (g->notes().size()) {
			n = strlen(s.msg);
			snprintf(s.msg + n, sizeof(s.msg) - n, " [case: %s]", g->notes().c_str());
		}
	}
	s.failed = 1;
#ifdef PBT_LIBFUZZER
	fprintf(stderr, "ORACLE: %s\n", s.msg);
	abort();
#endif
	if (slot_index() == WORKERS)
		publish_choices();
	_exit(77);
}

#define CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

// memory with canaries around it (exact heap blocks under ASan)
template <typename T>
class Buf
{
	uint8_t *raw;
	T *ptr;
	size_t n;
	uint8_t pat;
	static const size_t Z = 128;
	size_t bytes() const { return n * sizeof(T); }
public:
	Buf(const Buf &) = delete;
	explicit Buf(size_t count, uint8_t fill = 0xa5, size_t offset = 0) : n(count), pat(fill)
	{
#ifdef PBT_ASAN
		void *p = nullptr;
		if (posix_memalign(&p, 64, std::max<size_t>(bytes() + offset, 1)))
			abort();
		raw = (uint8_t *)p;
		ptr = (T *)(raw + offset);
		memset((void *)ptr, fill, bytes());
#else
		size_t len = (bytes() + offset + 2 * Z + 63) / 64 * 64;
		raw = (uint8_t *)::aligned_alloc(64, len);
		ptr = (T *)(raw + Z + offset);
		for (size_t i = 0; i < Z + offset; ++i)
			raw[i] = canary(i);
		memset((void *)ptr, fill, bytes());
		for (size_t i = 0; i < Z; ++i)
			((uint8_t *)ptr)[bytes() + i] = canary(i);
		off = offset;
#endif
	}
	~Buf() { free(raw); }
	T *get() { return ptr; }
	operator T *() { return ptr; }
	T *begin() { return ptr; }
	T *end() { return ptr + n; }
	size_t size() const { return n; }
	void check(const char *what = "buffer")
	{
#ifndef PBT_ASAN
		for (size_t i = 0; i < Z + off; ++i)
			if (raw[i] != canary(i))
				fail("write in front of %s (%d bytes before its start)", what, (int)(Z + off - i));
		for (size_t i = 0; i < Z; ++i)
			if (((uint8_t *)ptr)[bytes() + i] != canary(i))
				fail("write behind %s (%d bytes after its end)", what, (int)i);
#else
		(void)what;
#endif
	}
private:
	size_t off = 0;
	static uint8_t canary(size_t i) { return (uint8_t)(0x5c + 37 * i); }
};

// an object default-initialised in memory that held something else before
template <typename T>
class Fresh
{
	uint8_t *raw;
	T *obj;
	Fresh(const Fresh &) = delete;
	static uint8_t *make(G &g)
	{
		size_t al = std::max<size_t>(64, alignof(T));
		size_t len = (sizeof(T) + al - 1) / al * al;
		uint8_t *p = (uint8_t *)::aligned_alloc(al, len);
		static const uint8_t pats[] = { 0x00, 0xff, 0xa5, 0x01, 0x80, 0x7f };
		uint64_t c = g.draw(6);
		if (c == 6) {
			Rng r(g.bulk());
			for (size_t i = 0; i + 8 <= len; i += 8) {
				uint64_t v = r.next();
				memcpy(p + i, &v, 8);
			}
		} else {
			memset(p, pats[c], len);
		}
		return p;
	}
public:
	explicit Fresh(G &g) : raw(make(g)) { obj = new (raw) T; }
	template <typename... A>
	explicit Fresh(G &g, const A &... a) : raw(make(g)) { obj = new (raw) T(a...); }
	~Fresh() { obj->~T(); free(raw); }
	T &operator*() { return *obj; }
	T *operator->() { return obj; }
};

// f(std::integral_constant<int, i>()) for a run-time 0 <= i < N
template <typename F, int... I>
inline void dispatch_(int i, std::integer_sequence<int, I...>, F f)
{
	int dummy[] = { (i == I ? (f(std::integral_constant<int, I>()), 0) : 0)... };
	(void)dummy;
}
template <int N, typename F>
inline void dispatch(int i, F f)
{
	dispatch_(i, std::make_integer_sequence<int, N>(), f);
}

struct Prop
{
	const char *name;
	int64_t quick, thorough;
	void (*fn)(G &);
};

inline std::vector<Prop> &props()
{
	static std::vector<Prop> p;
	return p;
}

struct Register
{
	Register(const char *name, int64_t quick, int64_t thorough, void (*fn)(G &)) { props().push_back({ name, quick, thorough, fn }); }
};

// the number of cases is that of the quick and of the thorough tier
#define PROP(name, quick, thorough) \
	static void prop_##name(::pbt::G &g); \
	static ::pbt::Register reg_##name(#name, quick, thorough, prop_##name); \
	static void prop_##name(::pbt::G &g)

inline void arm_cpu_limit(int seconds)
{
	struct itimerval t = {};
	t.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &t, nullptr);
}

inline double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + 1e-9 * t.tv_nsec;
}

struct Options
{
	uint64_t seed = 1;
	const char *config = "default";
	const char *out = nullptr;
	const char *log = nullptr;
	const char *replay_out = nullptr;
	const char *only = nullptr;
	const char *property = "?";
	bool thorough = false;
	double scale = 1, deadline = 600;
};

struct Sample { std::string prop, text; };

inline int64_t case_count(const Options &o, const Prop &p)
{
	int64_t n = o.thorough ? p.thorough : p.quick;
	int64_t m = (int64_t)(n * o.scale);
	return n > 0 ? std::max<int64_t>(m, std::min<int64_t>(n, 8)) : 0;
}

inline uint64_t case_seed(const Options &o, const Prop &p, int64_t index)
{
	return mix(mix(o.seed ^ hash_str(o.config)) ^ hash_str(p.name) ^ mix((uint64_t)index));
}

inline void redirect(const char *log)
{
	if (!log)
		return;
	int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (fd >= 0) {
		dup2(fd, 1);
		dup2(fd, 2);
		close(fd);
	}
}

// body of worker w: its share of the cases, up to and including (stop_prop, stop_index)
inline void work(const Options &o, int w, int stop_prop, int64_t stop_index, FILE *hashes, FILE *samples)
{
	double end = now() + o.deadline;
	Slot &s = slot();
	for (int p = 0; p < (int)props().size(); ++p) {
		const Prop &pr = props()[p];
		if (o.only && strcmp(o.only, pr.name))
			continue;
		int64_t n = case_count(o, pr);
		int sampled = 0;
		for (int64_t i = w; i < n; i += WORKERS) {
			if (now() > end)
				break;
			s.prop = p;
			s.index = i;
			arm_cpu_limit(CASE_CPU_SECONDS);
			G g(case_seed(o, pr, i));
			g.sampling = samples && w == 0 && sampled < 3;
			current() = &g;
			pr.fn(g);
			current() = nullptr;
			++s.done;
			if (g.sampling && g.is_nontrivial() && g.notes().size()) {
				fprintf(samples, "%s\t%s\n", pr.name, g.notes().c_str());
				++sampled;
			}
			if (hashes && g.is_nontrivial()) {
				uint64_t h = mix(g.hash() ^ hash_str(pr.name));
				fwrite(&h, sizeof(h), 1, hashes);
			}
			if (p == stop_prop && i == stop_index)
				break;
		}
		if (p == stop_prop)
			break;
	}
	arm_cpu_limit(0);
	s.finished = 1;
}

struct Outcome
{
	bool failed = false, killed = false;
	std::string why;
	std::vector<uint64_t> choices;
};

inline std::string describe(int status, const Slot &s)
{
	char buf[256];
	if (WIFEXITED(status) && WEXITSTATUS(status) == 77)
		return s.msg;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 78)
		return "sanitizer report (see log)";
	if (WIFSIGNALED(status)) {
		int sig = WTERMSIG(status);
		if (sig == SIGPROF)
			snprintf(buf, sizeof(buf), "no end after %d seconds of CPU time", CASE_CPU_SECONDS);
		else if (sig == SIGABRT)
			snprintf(buf, sizeof(buf), "assertion failed or abort (see log)");
		else
			snprintf(buf, sizeof(buf), "killed by signal %d (%s)", sig, strsignal(sig));
		return buf;
	}
	snprintf(buf, sizeof(buf), "unexpected exit status %d", WEXITSTATUS(status));
	return buf;
}

inline void on_crash(int sig)
{
	// hand the choices over, then die of the same signal
	if (slot_index() == WORKERS)
		publish_choices();
	signal(sig, SIG_DFL);
	raise(sig);
}

inline Outcome run_choices(const Prop &p, const std::vector<uint64_t> &choices, const char *log, bool verbose = false, uint64_t fresh_seed = 0, bool fresh = false)
{
	Outcome res;
	Slot &s = shared()->slot[WORKERS];
	memset((void *)&s, 0, sizeof(s));
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		slot_index() = WORKERS;
		redirect(log);
		arm_cpu_limit(CASE_CPU_SECONDS);
		struct sigaction sa = {};
		sa.sa_handler = on_crash;
		sa.sa_flags = SA_RESETHAND | SA_NODEFER;
		int sigs[] = { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF };
		for (int i : sigs)
#ifdef PBT_ASAN
			if (i == SIGABRT || i == SIGPROF)
#endif
			sigaction(i, &sa, nullptr);
#if defined(PBT_ASAN) || defined(PBT_TSAN)
		__sanitizer_set_death_callback(publish_choices);
#endif
		G g(fresh_seed, fresh ? nullptr : &choices);
		g.sampling = verbose;
		current() = &g;
		p.fn(g);
		publish_choices();
		if (verbose)
			fprintf(stdout, "case: %s\n", g.notes().c_str()), fflush(stdout);
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
		;
	if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
		res.killed = true;
		return res;
	}
	res.failed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
	if (res.failed)
		res.why = describe(status, s);
	if (s.nchoices)
		res.choices.assign(shared()->choices, shared()->choices + s.nchoices);
	else
		res.choices = choices;
	return res;
}

inline bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
{
	if (a.size() != b.size())
		return a.size() < b.size();
	return a < b;
}

inline Outcome shrink(const Prop &p, Outcome best, double seconds)
{
	double end = now() + seconds;
	int budget = 4000;
	auto attempt = [&](const std::vector<uint64_t> &c) {
		if (now() > end || --budget < 0 || !simpler(c, best.choices))
			return false;
		Outcome o = run_choices(p, c, "/dev/null");
		if (!o.failed)
			return false;
		if (!simpler(o.choices, best.choices) && o.choices != c)
			return false;
		best = o;
		return true;
	};
	bool progress = true;
	while (progress && now() < end && budget > 0) {
		progress = false;
		for (int len = 64; len; len /= 2) {
			for (int at = (int)best.choices.size() - len; at >= 0;) {
				if (at + len > (int)best.choices.size()) {
					at = (int)best.choices.size() - len;
					continue;
				}
				std::vector<uint64_t> c(best.choices);
				c.erase(c.begin() + at, c.begin() + at + len);
				if (attempt(c))
					progress = true;
				at -= (len > 1 ? len / 2 : 1);
				if (now() > end)
					break;
			}
		}
		for (int len = 16; len; len /= 2)
			for (int at = 0; at + len <= (int)best.choices.size(); at += len) {
				std::vector<uint64_t> c(best.choices);
				bool any = false;
				for (int i = 0; i < len; ++i) {
					any |= c[at + i] != 0;
					c[at + i] = 0;
				}
				if (any && attempt(c))
					progress = true;
				if (now() > end)
					break;
			}
		for (int at = 0; at < (int)best.choices.size(); ++at) {
			uint64_t lo = 0;
			while (at < (int)best.choices.size() && best.choices[at] > lo && now() < end) {
				std::vector<uint64_t> c(best.choices);
				uint64_t mid = lo + (c[at] - lo) / 2;
				c[at] = mid;
				if (attempt(c))
					progress = true;
				else
					lo = mid + 1;
			}
			// numbers of things are often followed by the things
			if (at + 1 < (int)best.choices.size() && best.choices[at] && best.choices[at] < 4096) {
				std::vector<uint64_t> c(best.choices);
				c[at] -= 1;
				c.erase(c.begin() + at + 1);
				if (attempt(c))
					progress = true;
			}
		}
	}
	return best;
}

inline std::string json_escape(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += c;
		} else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, sizeof(b), "\\u%04x", c);
			r += b;
		} else {
			r += c;
		}
	}
	return r;
}

inline int replay_main(const Options &o, const char *path)
{
	FILE *f = fopen(path, "r");
	if (!f) {
		fprintf(stderr, "cannot read %s\n", path);
		return 2;
	}
	std::string prop;
	std::vector<uint64_t> choices;
	char word[256];
	while (fscanf(f, "%255s", word) == 1) {
		if (!strcmp(word, "prop:")) {
			if (fscanf(f, "%255s", word) == 1)
				prop = word;
		} else if (!strcmp(word, "choices:")) {
			long long n = 0;
			unsigned long long v;
			if (fscanf(f, "%lld", &n) != 1)
				break;
			for (long long i = 0; i < n && fscanf(f, "%llu", &v) == 1; ++i)
				choices.push_back(v);
			break;
		}
	}
	fclose(f);
	for (const Prop &p : props()) {
		if (prop != p.name)
			continue;
		Outcome out = run_choices(p, choices, nullptr, true);
		if (out.failed) {
			printf("FAILED %s %s: %s\n", o.property, p.name, out.why.c_str());
			return 1;
		}
		printf("passed %s %s\n", o.property, p.name);
		return 0;
	}
	fprintf(stderr, "no such property function: %s\n", prop.c_str());
	return 2;
}

inline bool write_replay(const Options &o, const Prop &p, const Outcome &res, const char *kind, const char *extra)
{
	FILE *f = fopen(o.replay_out, "w");
	if (!f)
		return false;
	fprintf(f, "property: %s\nconfig: %s\nkind: %s\nprop: %s\n", o.property, o.config, kind, p.name);
	fprintf(f, "message: %s\n", res.why.c_str());
	fprintf(f, "%s", extra);
	fprintf(f, "choices: %zu", res.choices.size());
	for (uint64_t v : res.choices)
		fprintf(f, " %llu", (unsigned long long)v);
	fprintf(f, "\n");
	fclose(f);
	return true;
}

// exit codes: 0 held, 1 failed and reproduced, 2 could not decide
inline int main_(int argc, char **argv)
{
	Options o;
	const char *replay = nullptr;
	int seq_worker = -1, seq_prop = 0;
	int64_t seq_index = 0;
	for (int i = 1; i < argc; ++i) {
		auto arg = [&](const char *n) { return !strcmp(argv[i], n) && i + 1 < argc; };
		if (arg("--seed")) o.seed = strtoull(argv[++i], 0, 0);
		else if (arg("--config")) o.config = argv[++i];
		else if (arg("--property")) o.property = argv[++i];
		else if (arg("--out")) o.out = argv[++i];
		else if (arg("--log")) o.log = argv[++i];
		else if (arg("--replay-out")) o.replay_out = argv[++i];
		else if (arg("--only")) o.only = argv[++i];
		else if (arg("--tier")) o.thorough = !strcmp(argv[++i], "thorough");
		else if (arg("--scale")) o.scale = atof(argv[++i]);
		else if (arg("--deadline")) o.deadline = atof(argv[++i]);
		else if (arg("--replay")) replay = argv[++i];
		else if (arg("--sequence")) sscanf(argv[++i], "%d:%d:%lld", &seq_worker, &seq_prop, (long long *)&seq_index);
		else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
	}
	Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED)
		return 2;
	shared() = sh;
	struct rlimit nocore = { 0, 0 };
	setrlimit(RLIMIT_CORE, &nocore);
	if (replay)
		return replay_main(o, replay);
	double start = now();
	auto spawn = [&](int w, int stop_prop, int64_t stop_index, FILE *h, FILE *s) {
		memset((void *)&sh->slot[w], 0, sizeof(Slot));
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			slot_index() = w;
			redirect(o.log);
			work(o, w, stop_prop, stop_index, h, s);
			if (h) fflush(h);
			if (s) fflush(s);
			_exit(0);
		}
		return pid;
	};
	if (seq_worker >= 0) {
		pid_t pid = spawn(seq_worker, seq_prop, seq_index, nullptr, nullptr);
		int status = 0;
		waitpid(pid, &status, 0);
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
			return 0;
		printf("FAILED %s: %s\n", o.property, describe(status, sh->slot[seq_worker]).c_str());
		return 1;
	}
	pid_t pids[WORKERS];
	FILE *hashes[WORKERS];
	FILE *samples = tmpfile();
	for (int w = 0; w < WORKERS; ++w) {
		hashes[w] = tmpfile();
		pids[w] = spawn(w, -1, -1, hashes[w], samples);
	}
	int first = -1, first_status = 0, retries = 0;
	for (int left = WORKERS; left;) {
		int status = 0;
		pid_t pid = wait(&status);
		if (pid < 0) {
			if (errno == EINTR)
				continue;
			return 2;
		}
		int w = 0;
		while (w < WORKERS && pids[w] != pid)
			++w;
		if (w == WORKERS)
			continue;
		pids[w] = 0;
		--left;
		bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
		if (ok || first >= 0)
			continue;
		if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
			// not of its own doing: memory ran out, say
			if (retries++ > 2) {
				fprintf(stderr, "workers keep being killed\n");
				for (int i = 0; i < WORKERS; ++i)
					if (pids[i])
						kill(pids[i], SIGKILL);
				return 2;
			}
			if (ftruncate(fileno(hashes[w]), 0)) {}
			rewind(hashes[w]);
			pids[w] = spawn(w, -1, -1, hashes[w], nullptr);
			++left;
			continue;
		}
		first = w;
		first_status = status;
		for (int i = 0; i < WORKERS; ++i)
			if (pids[i])
				kill(pids[i], SIGKILL);
	}
	uint64_t evaluations = 0;
	for (int w = 0; w < WORKERS; ++w)
		evaluations += sh->slot[w].done;
	std::unordered_set<uint64_t> distinct;
	for (int w = 0; w < WORKERS; ++w) {
		rewind(hashes[w]);
		uint64_t h;
		while (fread(&h, sizeof(h), 1, hashes[w]) == 1)
			distinct.insert(h);
	}
	bool incomplete = false;
	int64_t planned = 0;
	for (const Prop &p : props())
		if (!o.only || !strcmp(o.only, p.name))
			planned += case_count(o, p);
	if (first < 0 && (int64_t)evaluations < planned)
		incomplete = true;
	int result = 0;
	std::string message;
	if (first >= 0) {
		const Slot fs = sh->slot[first];
		const Prop &p = props()[fs.prop];
		std::string why = describe(first_status, fs);
		Outcome oc = run_choices(p, {}, o.log, false, case_seed(o, p, fs.index), true);
		bool reproduced = false;
		if (oc.failed) {
			// runaway cases are too slow to shrink
			bool hang = oc.why.find("no end after") == 0;
			Outcome best = hang ? oc : shrink(p, oc, 25);
			int again = 0;
			for (int i = 0; i < 3; ++i) {
				Outcome r = run_choices(p, best.choices, i ? "/dev/null" : o.log);
				again += r.failed;
			}
			if (again < 3) {
				best = oc;
				again = 0;
				for (int i = 0; i < 3; ++i)
					again += run_choices(p, best.choices, "/dev/null").failed;
			}
			if (again == 3) {
				reproduced = true;
				message = best.why;
				if (o.replay_out)
					write_replay(o, p, best, "case", "");
			}
		}
		if (!reproduced) {
			// depends on what ran before it in the same process: replay that history
			int again = 0;
			for (int i = 0; i < 3; ++i) {
				pid_t pid = spawn(first, fs.prop, fs.index, nullptr, nullptr);
				int status = 0;
				waitpid(pid, &status, 0);
				again += !(WIFEXITED(status) && WEXITSTATUS(status) == 0) && !(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL);
			}
			if (again) {
				reproduced = true;
				Outcome seq;
				seq.failed = true;
				seq.why = why;
				char extra[256];
				snprintf(extra, sizeof(extra), "seed: %llu\ntier: %s\nscale: %g\nsequence: %d:%d:%lld\n", (unsigned long long)o.seed, o.thorough ? "thorough" : "quick", o.scale, first, fs.prop, (long long)fs.index);
				message = why + " (needs the cases before it)";
				if (o.replay_out)
					write_replay(o, p, seq, "sequence", extra);
			}
		}
		if (reproduced) {
			result = 1;
			printf("FAILED %s [%s] %s: %s\n", o.property, o.config, p.name, message.c_str());
		} else {
			result = 2;
			printf("UNREPRODUCED %s [%s] %s: %s\n", o.property, o.config, p.name, why.c_str());
		}
	}
	if (o.out) {
		FILE *f = fopen(o.out, "w");
		if (!f)
			return 2;
		fprintf(f, "{\"config\": \"%s\", \"evaluations\": %llu, \"planned\": %lld, \"distinct_nontrivial\": %zu, \"incomplete\": %s, \"wall_s\": %.2f, \"result\": %d, \"message\": \"%s\",\n",
			o.config, (unsigned long long)evaluations, (long long)planned, distinct.size(), incomplete ? "true" : "false", now() - start, result, json_escape(message).c_str());
		fprintf(f, " \"props\": {");
		bool comma = false;
		for (const Prop &p : props()) {
			if (o.only && strcmp(o.only, p.name))
				continue;
			fprintf(f, "%s\"%s\": %lld", comma ? ", " : "", p.name, (long long)case_count(o, p));
			comma = true;
		}
		fprintf(f, "},\n \"labels\": {");
		std::vector<std::pair<std::string, uint64_t>> labels;
		for (int w = 0; w < WORKERS; ++w)
			for (int i = 0; i < MAX_LABELS && sh->slot[w].names[i][0]; ++i) {
				bool found = false;
				for (auto &l : labels)
					if (l.first == sh->slot[w].names[i]) {
						l.second += sh->slot[w].labels[i];
						found = true;
					}
				if (!found)
					labels.push_back({ sh->slot[w].names[i], sh->slot[w].labels[i] });
			}
		std::sort(labels.begin(), labels.end());
		for (size_t i = 0; i < labels.size(); ++i)
			fprintf(f, "%s\"%s\": %llu", i ? ", " : "", json_escape(labels[i].first).c_str(), (unsigned long long)labels[i].second);
		fprintf(f, "},\n \"samples\": [");
		rewind(samples);
		static char line[8192];
		comma = false;
		while (fgets(line, sizeof(line), samples)) {
			line[strcspn(line, "\n")] = 0;
			char *tab = strchr(line, '\t');
			if (!tab)
				continue;
			*tab = 0;
			fprintf(f, "%s\n  \"%s: %s\"", comma ? "," : "", line, json_escape(tab + 1).c_str());
			comma = true;
		}
		fprintf(f, "]}\n");
		fclose(f);
	}
	return result;
}

}

#ifdef PBT_LIBFUZZER
// coverage-guided driver: the first byte selects the property function, the
// rest is read as choices
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	using namespace pbt;
	if (size < 1)
		return 0;
	if (!shared())
		shared() = (Shared *)calloc(1, sizeof(Shared));
	const Prop &p = props()[data[0] % props().size()];
	std::vector<uint64_t> choices;
	for (size_t i = 1; i + 1 < size && choices.size() < 4096;) {
		// a length nibble keeps small choices short
		int n = data[i] >> 4;
		n = n > 8 ? n - 8 : n ? n : 1;
		uint64_t v = n == 1 ? data[i + 1] : 0;
		if (n > 1)
			for (int j = 0; j < n && i + 1 + j < size; ++j)
				v |= (uint64_t)data[i + 1 + j] << (8 * j);
		choices.push_back(v);
		i += 1 + n;
	}
	G g(0, &choices);
	current() = &g;
	p.fn(g);
	current() = nullptr;
	return 0;
}
#else
int main(int argc, char **argv) { return pbt::main_(argc, argv); }
#endif
