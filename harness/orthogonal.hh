// What Hadamard and simplex codes share: soft inputs and the brute force decoder
#pragma once
#include "pbt.hh"

using pbt::G;
using pbt::Buf;

inline int par(unsigned x) { return __builtin_parity(x); }

// soft values of all kinds around the codeword of some message
template <typename F>
void soft_input(G &g, int8_t *soft, int n, F bit)
{
	int kind = (int)g.draw(9);
	pbt::Rng r(g.bulk());
	switch (kind) {
	case 0: // noiseless, any amplitude
		{
			int a = (int)g.edgy(1, 127);
			for (int i = 0; i < n; ++i)
				soft[i] = bit(i) ? -a : a;
			break;
		}
	case 1: // as many flips as there may be, equal magnitudes
		{
			int a = (int)g.edgy(1, 127), flips = (int)g.range(0, std::max(1, n / 2));
			for (int i = 0; i < n; ++i)
				soft[i] = bit(i) ? -a : a;
			for (int i = 0; i < flips; ++i) {
				int at = (int)r.below(n);
				soft[at] = -soft[at];
			}
			break;
		}
	case 2: // erasures
		{
			int a = (int)g.edgy(1, 127), lost = (int)g.range(0, n);
			for (int i = 0; i < n; ++i)
				soft[i] = bit(i) ? -a : a;
			for (int i = 0; i < lost; ++i)
				soft[r.below(n)] = 0;
			break;
		}
	case 3: // tiny values
		{
			int m = (int)g.range(0, 3);
			for (int i = 0; i < n; ++i)
				soft[i] = (int8_t)r.range(-m, m);
			break;
		}
	case 4: // extremes
		for (int i = 0; i < n; ++i)
			soft[i] = r.chance(1, 2) ? -128 : 127;
		break;
	case 5: // one or few nonzero values
		{
			int k = (int)g.range(0, 4);
			for (int i = 0; i < n; ++i)
				soft[i] = 0;
			for (int i = 0; i < k; ++i)
				soft[g.draw(n - 1)] = (int8_t)g.range(-128, 127);
			break;
		}
	case 6: // all the same
		{
			int v = (int)g.range(-128, 127);
			for (int i = 0; i < n; ++i)
				soft[i] = (int8_t)v;
			break;
		}
	case 7: // anything
		for (int i = 0; i < n; ++i)
			soft[i] = (int8_t)r.next();
		break;
	default: // noise on a codeword
		{
			double amp = (double)g.range(1, 100), dev = amp * 0.1 * (double)g.range(1, 40);
			for (int i = 0; i < n; ++i) {
				double v = (bit(i) ? -amp : amp) + dev * r.gauss();
				soft[i] = (int8_t)std::max(-128., std::min(127., std::nearbyint(v)));
			}
		}
	}
}

// correlation with every linear function of the position, a recursion of halves
inline void correlate(std::vector<int64_t> &v, size_t lo, size_t n)
{
	if (n == 1)
		return;
	size_t h = n / 2;
	correlate(v, lo, h);
	correlate(v, lo + h, h);
	for (size_t i = lo; i < lo + h; ++i) {
		int64_t a = v[i], b = v[i + h];
		v[i] = a + b;
		v[i + h] = a - b;
	}
}
