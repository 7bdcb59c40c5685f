// An independent GF(2^M): tables built from polynomial arithmetic
#pragma once
#include "pbt.hh"

template <int M, int POLY>
struct GFModel
{
	static const int Q = 1 << M, N = Q - 1;
	std::vector<int> log_, exp_;
	GFModel() : log_(Q, -1), exp_(2 * N)
	{
		int a = 1;
		for (int i = 0; i < N; ++i) {
			exp_[i] = exp_[i + N] = a;
			log_[a] = i;
			a <<= 1;
			if (a & Q)
				a ^= POLY;
		}
	}
	static const GFModel &get()
	{
		static const GFModel *m = new GFModel;
		return *m;
	}
	int mul(int a, int b) const { return a && b ? exp_[log_[a] + log_[b]] : 0; }
	int pow(long long n) const { return exp_[(n % N + N) % N]; }
	// Horner, first coefficient first
	template <typename P>
	int eval(const P *poly, int len, int x, int start = 0) const
	{
		int s = start, lx = log_[x];
		for (int i = 0; i < len; ++i)
			s = (s ? exp_[log_[s] + lx] : 0) ^ (int)poly[i];
		return s;
	}
};
