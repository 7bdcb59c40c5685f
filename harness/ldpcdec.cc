// LDPC decoder: codewords are kept, success means codeword, and the values are
// those of the layered offset min-sum rule
#include "ldpctab.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"

namespace {

// checks handled at once, as the decoder documents for each vector unit
#ifdef __AVX2__
const int WORD = 30;
#else
const int WORD = 15;
#endif

int sat(int v) { return std::min(127, std::max(-128, v)); }

template <typename T>
struct Model
{
	std::vector<std::vector<int>> links; // bits of every check: message, own parity, parity before
	bool repeats = false; // a block of lanes linked twice by checks handled at once
	int group = -1, first = -1, second = -1; // where (the last of them)
	explicit Model(const std::vector<Entry> &e) : links(checks_of<T>(e))
	{
		for (int c = 0; c < T::R; ++c) {
			links[c].push_back(T::K + c);
			if (c)
				links[c].push_back(T::K + c - 1);
		}
		const int lanes = T::M / WORD;
		for (size_t i = 0; i < e.size(); ++i)
			for (size_t j = 0; j < i; ++j)
				if (e[i].block == e[j].block && e[i].group == e[j].group && (e[i].shift - e[j].shift) % lanes == 0) {
					repeats = true;
					group = e[i].group;
					first = second = 0;
					for (size_t h = 0; h < i; ++h) {
						first += h < j && e[h].group == group;
						second += e[h].group == group;
					}
				}
	}
	bool fulfilled(const std::vector<int> &v) const
	{
		for (auto &c : links) {
			int s = 1;
			for (int b : c)
				s *= v[b] > 0 ? 1 : v[b] < 0 ? -1 : 0;
			if (s != 1)
				return false;
		}
		return true;
	}
	// turn: the bits tell for every group of lanes which of the two links first (when there is one such pair)
	int decode(std::vector<int> &v, int trials, int beta, unsigned turn = 0) const
	{
		std::vector<std::vector<int>> mem(T::R);
		for (int c = 0; c < T::R; ++c)
			mem[c].assign(links[c].size(), 0);
		const int lanes = T::M / WORD;
		int left = trials;
		while (!fulfilled(v)) {
			if (--left < 0)
				return -1;
			for (int i = 0; i < T::Q; ++i)
				for (int j = 0; j < lanes; ++j) {
					int skip = -1;
					if (repeats && i == group) {
						skip = (turn >> j) & 1 ? first : second;
						turn ^= 1u << j;
					}
					// all checks of the group see the same values
					std::vector<std::vector<int>> next(WORD);
					for (int n = 0; n < WORD; ++n)
						next[n] = check(v, T::Q * (lanes * n + j) + i, mem, beta, skip);
					for (int n = 0; n < WORD; ++n) {
						int c = T::Q * (lanes * n + j) + i;
						for (int k = 0; k < (int)links[c].size(); ++k)
							if (k != skip)
								v[links[c][k]] = next[n][k];
					}
				}
		}
		return left;
	}
	std::vector<int> check(const std::vector<int> &v, int c, std::vector<std::vector<int>> &mem, int beta, int skip) const
	{
		const std::vector<int> &l = links[c];
		int cnt = (int)l.size(), inp[64], mag[64], neg = 0;
		for (int k = 0; k < cnt; ++k) {
			inp[k] = sat(v[l[k]] - mem[c][k]);
			neg ^= inp[k] < 0;
			mag[k] = std::max(std::min(127, std::abs(inp[k])) - beta, 0);
		}
		std::vector<int> next(cnt);
		for (int k = 0; k < cnt; ++k) {
			int out = 127;
			for (int h = 0; h < cnt; ++h)
				if (h != k)
					out = std::min(out, mag[h]);
			out = std::min(out, 31);
			if (neg ^ (inp[k] < 0))
				out = -out;
			// a message that changes its sign is dropped for once
			if ((mem[c][k] > 0 && out < 0) || (mem[c][k] < 0 && out > 0))
				out = 0;
			next[k] = sat(inp[k] + out);
			if (k != skip)
				mem[c][k] = out;
		}
		return next;
	}
};

template <typename T>
void soft_word(G &g, int8_t *msg, int8_t *par, const std::vector<int8_t> &word, bool &clean)
{
	Rng r(g.bulk());
	int kind = (int)g.draw(8), mag = (int)g.range(1, 127), num = (int)g.range(1, 60);
	clean = kind == 0 || kind == 8;
	double amp = 1 + r.uni() * 40, sigma = amp * (0.2 + r.uni());
	int n = (int)word.size();
	for (int i = 0; i < n; ++i) {
		int v;
		switch (kind) {
		case 0: v = word[i] * mag; break;
		case 1: v = word[i] * (r.chance(1, 200) ? -1 : 1) * mag; break;
		case 2: v = r.chance(num, 200) ? 0 : word[i] * mag; break; // erasures
		case 3: v = r.chance(num, 400) ? -word[i] * (int)r.range(1, 5) : word[i] * (int)r.range(5, 60); break;
		case 4: v = (int)r.range(-128, 127); break;
		case 5: v = r.below(2) ? 127 : r.below(2) ? -128 : -127; break;
		case 6: v = (int)std::min(127., std::max(-128., std::nearbyint(word[i] * amp + r.gauss() * sigma))); break;
		case 7: v = (int)std::min(127., std::max(-127., std::nearbyint(word[i] * amp + r.gauss() * amp * 0.55))); break;
		default: v = word[i] * (int)r.range(1, 127); if (v == -127 && r.below(2)) v = -128;
		}
		(i < T::K ? msg[i] : par[i - T::K]) = (int8_t)v;
	}
	static const char *names[] = { "clean", "few flipped", "erased", "weak wrong ones", "random", "saturated", "noise", "mild noise", "clean, any size" };
	g.label(names[kind]);
}

template <typename T, int BETA>
void decode(G &g)
{
	std::vector<Entry> e(make_table<T>(g, g.chance(1, 4) ? OFTEN : NEVER));
	Model<T> model(e);
	Fresh<CODE::LDPCEncoder<T>> enc(g);
	Fresh<CODE::LDPCDecoder<T, BETA>> dec(g);
	g.note("%d of %d bits, offset %d%s", T::K, T::N, BETA, model.repeats ? ", links repeat" : "");
	g.labelf("%d of %d bits", T::K, T::N);
	int words = (int)g.range(1, 4);
	for (int w = 0; w < words; ++w) {
		Buf<int8_t> msg(T::K, 0xa5, g.draw(3)), par(T::R, 0xa5, g.draw(3));
		Rng r(g.bulk());
		int density = (int)g.draw(2);
		for (int i = 0; i < T::K; ++i)
			msg[i] = density && r.below(2) ? -1 : 1;
		(*enc)((const int8_t *)msg.get(), par.get());
		std::vector<int8_t> word(msg.begin(), msg.end());
		word.insert(word.end(), par.begin(), par.end());
		bool clean;
		soft_word<T>(g, msg.get(), par.get(), word, clean);
		std::vector<int> in(msg.begin(), msg.end());
		in.insert(in.end(), par.begin(), par.end());
		bool given = g.chance(3, 4);
		int trials = given ? (int)g.edgy(0, 30) : 25;
		// far more than it takes: for words known to be repaired in few
		if (given && !model.repeats && T::N <= 20000 && g.chance(1, 12)) {
			static const int many[] = { 31, 126, 127, 128, 200, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 65537, 1 << 24, INT_MAX };
			trials = many[g.draw(sizeof(many) / sizeof(many[0]) - 1)];
			std::vector<int> tmp(in);
			if (trials > 400 && model.decode(tmp, 50, BETA) < 0)
				trials = 50;
			g.label("many trials");
		}
		int ret = given ? (*dec)(msg.get(), par.get(), trials) : (*dec)(msg.get(), par.get());
		msg.check("message");
		par.check("parity");
		std::vector<int> out(msg.begin(), msg.end());
		out.insert(out.end(), par.begin(), par.end());
		CHECK(ret >= -1 && ret <= trials, "%d of %d bits, word %d: %d returned for %d trials", T::K, T::N, w, ret, trials);
		if (clean)
			CHECK(ret == trials && in == out, "%d of %d bits, word %d: a codeword is changed or took trials (%d of %d left)", T::K, T::N, w, ret, trials);
		bool ok = model.fulfilled(out);
		CHECK(ok == (ret >= 0), "%d of %d bits, word %d: %d returned, but the result is %s codeword", T::K, T::N, w, ret, ok ? "a" : "no");
		g.label(ret == trials ? "codeword given" : ret >= 0 ? "repaired" : "gave up");
		if (ret >= 0 && ret < trials)
			g.nontrivial();
		if (model.repeats) {
			g.label("links repeat");
			continue;
		}
		std::vector<int> want(in);
		int left = model.decode(want, trials, BETA);
		CHECK(ret == left, "%d of %d bits, offset %d, word %d: %d of %d trials left, not %d", T::K, T::N, BETA, w, ret, trials, left);
		for (int i = 0; i < T::N; ++i)
			CHECK(out[i] == want[i], "%d of %d bits, offset %d, word %d: value of %s bit %d is %d, not %d, after %d trials", T::K, T::N, BETA, w, i < T::K ? "message" : "parity", i < T::K ? i : i - T::K, out[i], want[i], trials - ret);
	}
}

// one pair of links into one block of lanes: they take turns, either of them first
template <typename T, int BETA>
void turns(G &g)
{
	std::vector<Entry> e(make_table<T>(g, ONCE));
	Model<T> model(e);
	if (!model.repeats)
		return;
	Fresh<CODE::LDPCEncoder<T>> enc(g);
	Fresh<CODE::LDPCDecoder<T, BETA>> dec(g);
	g.note("%d of %d bits, offset %d, links %d and %d of group %d repeat", T::K, T::N, BETA, model.first, model.second, model.group);
	Buf<int8_t> msg(T::K), par(T::R);
	Rng r(g.bulk());
	for (int i = 0; i < T::K; ++i)
		msg[i] = r.below(2) ? -1 : 1;
	(*enc)((const int8_t *)msg.get(), par.get());
	std::vector<int8_t> word(msg.begin(), msg.end());
	word.insert(word.end(), par.begin(), par.end());
	bool clean;
	soft_word<T>(g, msg.get(), par.get(), word, clean);
	std::vector<int> in(msg.begin(), msg.end());
	in.insert(in.end(), par.begin(), par.end());
	int trials = (int)g.range(1, 12);
	int ret = (*dec)(msg.get(), par.get(), trials);
	std::vector<int> out(msg.begin(), msg.end());
	out.insert(out.end(), par.begin(), par.end());
	bool ok = false;
	for (unsigned t = 0; !ok && t < 1u << (T::M / WORD); ++t) {
		std::vector<int> want(in);
		int left = model.decode(want, trials, BETA, t);
		ok = ret == left && want == out;
	}
	CHECK(ok, "%d of %d bits, offset %d: links %d and %d of check group %d repeat and do not take turns", T::K, T::N, BETA, model.first, model.second, model.group);
	if (ret != trials)
		g.nontrivial();
}

typedef void (*Fn)(G &);

}

PROP(small, 30000, 1000000)
{
	static const Fn f[] = {
		decode<Table<1, 2, 2, 4, 2>, 0>, decode<Table<1, 3, 2, 6, 4>, 1>, decode<Table<1, 4, 5, 12, 4>, 0>, decode<Table<2, 3, 3, 8, 3>, 2>, decode<Table<1, 4, 4, 12, 3>, 1>,
		decode<Table<2, 5, 4, 16, 6>, 1>, decode<Table<3, 4, 2, 8, 5>, 0>, decode<Table<2, 2, 6, 12, 3>, 1>, decode<Table<1, 10, 2, 20, 10>, 0>, decode<Table<3, 2, 4, 7, 3>, 4>,
		decode<Table<2, 2, 1, 2, 3>, 1>, decode<Table<1, 17, 2, 34, 32>, 0>, decode<Table<2, 3, 6, 15, 4>, 0>,
	};
	f[g.draw(sizeof(f) / sizeof(f[0]) - 1)](g);
}

PROP(large, 2500, 60000)
{
	static const Fn f[] = {
		decode<Table<4, 6, 6, 24, 8>, 1>, decode<Table<12, 2, 3, 6, 4>, 2>, decode<Table<12, 9, 6, 36, 8>, 1>, decode<Table<12, 5, 10, 30, 4>, 0>, decode<Table<6, 15, 5, 45, 12>, 2>, decode<Table<12, 18, 18, 72, 6>, 2>,
	};
	f[g.draw(sizeof(f) / sizeof(f[0]) - 1)](g);
}

// as long as frames get
PROP(longest, 80, 1500)
{
	static const Fn f[] = { decode<Table<12, 150, 30, 450, 20>, 1>, decode<Table<12, 120, 60, 400, 8>, 0>, decode<Table<12, 90, 90, 300, 5>, 1>, decode<Table<2, 1092, 54, 1200, 28>, 2>, decode<Table<12, 45, 135, 270, 2>, 1>, decode<Table<1, 30, 300, 640, 3>, 0> };
	f[g.draw(5)](g);
}

PROP(repeated_links, 10000, 300000)
{
	static const Fn f[] = {
		turns<Table<1, 3, 2, 5, 3>, 1>, turns<Table<1, 3, 1, 4, 4>, 1>, turns<Table<1, 4, 3, 9, 4>, 0>, turns<Table<1, 5, 4, 15, 5>, 1>, turns<Table<1, 2, 2, 5, 3>, 2>, turns<Table<1, 6, 2, 11, 7>, 0>,
	};
	f[g.draw(sizeof(f) / sizeof(f[0]) - 1)](g);
}
