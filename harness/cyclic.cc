// Cyclic and shortened codes: generator polynomial, generator matrices, encoders and checksums are about the same code
#include "pbt.hh"
#include "crc.hh"
#include "osd.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "short_bch_code_encoder.hh"

namespace {

using pbt::G;
using pbt::Buf;

typedef std::vector<uint8_t> Poly; // lowest power first

int be(const uint8_t *buf, int i) { return (buf[i / 8] >> (7 - i % 8)) & 1; }

Poly product(const std::vector<int> &factors)
{
	Poly p(1, 1);
	for (int m : factors) {
		Poly q(p.size() + 31, 0);
		for (size_t i = 0; i < p.size(); ++i)
			for (int j = 0; j < 31; ++j)
				q[i + j] ^= p[i] & (m >> j);
		while (!q.back())
			q.pop_back();
		p = q;
	}
	return p;
}

// factors of odd values, degrees adding up to that of the code
std::vector<int> random_factors(G &g, int degree)
{
	int least = (degree + 29) / 30, most = std::min(degree, 8);
	int n = (int)g.range(least, std::max(least, most));
	std::vector<int> deg(n, 1);
	int left = degree - n;
	for (int i = 0; i < n; ++i) {
		int rest = (n - 1 - i) * 29, d = (int)g.range(std::max(0, left - rest), std::min(29, left));
		deg[i] += d;
		left -= d;
	}
	std::vector<int> f;
	for (int d : deg)
		f.push_back((int)(1u << d | ((unsigned)g.bits(d) & ((1u << d) - 1)) | 1u));
	return f;
}

template <typename F>
void listed(const std::vector<int> &v, F f)
{
	switch (v.size()) {
	case 1: return f({ v[0] });
	case 2: return f({ v[0], v[1] });
	case 3: return f({ v[0], v[1], v[2] });
	case 4: return f({ v[0], v[1], v[2], v[3] });
	case 5: return f({ v[0], v[1], v[2], v[3], v[4] });
	case 6: return f({ v[0], v[1], v[2], v[3], v[4], v[5] });
	case 7: return f({ v[0], v[1], v[2], v[3], v[4], v[5], v[6] });
	case 8: return f({ v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7] });
	case 9: return f({ v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8] });
	default: CHECK(false, "oracle");
	}
}

// what is left of data times the power of the parity
Poly remainder(const uint8_t *data, int len, const Poly &p)
{
	int np = (int)p.size() - 1;
	Poly reg(np, 0);
	for (int i = 0; i < len; ++i) {
		int out = reg[np - 1] ^ be(data, i);
		for (int j = np - 1; j > 0; --j)
			reg[j] = reg[j - 1] ^ (out & p[j]);
		reg[0] = out & p[0];
	}
	return reg;
}

template <int N, int K, typename T>
void checksum(const uint8_t *data, int len, const Poly &p, const Poly &rem)
{
	const int NP = N - K;
	T poly = 0;
	for (int i = 0; i < NP; ++i)
		poly |= (T)p[i] << (NP - 1 - i);
	CODE::CRC<T> crc(poly, 0);
	int i = 0;
	for (; i < len; ++i)
		crc((bool)be(data, i));
	for (int j = 0; j < NP; ++j)
		CHECK((int)((crc() >> j) & 1) == rem[NP - 1 - j], "(%d,%d) %d message bits: checksum bit %d is %d", N, K, len, j, (int)((crc() >> j) & 1));
}

template <int N, int K>
void code(G &g, const std::vector<int> &factors)
{
	const int NP = N - K, CB = (N + 7) / 8, DB = (K + 7) / 8, PB = (NP + 7) / 8;
	Poly p(product(factors));
	CHECK((int)p.size() == NP + 1, "oracle");
	g.note("(%d,%d), %d factors, first %#x", N, K, (int)factors.size(), factors[0]);
	Buf<int8_t> poly(NP + 1, 0x55), plain(N * K, 0x55), systematic(N * K, 0x55);
	typedef CODE::BoseChaudhuriHocquenghemGenerator<N, K> Gen;
	listed(factors, [&](std::initializer_list<int> l) {
		Gen::poly(poly.get(), l);
		Gen::matrix(plain.get(), false, l);
		Gen::matrix(systematic.get(), true, l);
	});
	poly.check("polynomial");
	plain.check("matrix");
	systematic.check("systematic matrix");
	for (int i = 0; i <= NP; ++i)
		CHECK(poly[NP - i] == p[i], "(%d,%d): coefficient %d of the generator polynomial is %d", N, K, i, poly[NP - i]);
	for (int j = 0; j < K; ++j) {
		for (int i = 0; i < N; ++i) {
			int v = plain[N * j + i], w = i >= j && i - j <= NP ? p[NP - (i - j)] : 0;
			CHECK(v == w, "(%d,%d): row %d column %d of the matrix is %d", N, K, j, i, v);
		}
		// one bit and its parity
		std::vector<uint8_t> one(DB, 0);
		one[j / 8] |= 128 >> j % 8;
		Poly r(remainder(one.data(), K, p));
		for (int i = 0; i < N; ++i) {
			int v = systematic[N * j + i], w = i < K ? i == j : r[NP - 1 - (i - K)];
			CHECK(v == w, "(%d,%d): row %d column %d of the systematic matrix is %d", N, K, j, i, v);
		}
	}
	Buf<uint8_t> data(DB), parity(PB, (uint8_t)g.bits(8)), word(CB, (uint8_t)g.bits(8));
	g.fill(data.get(), DB);
	if (g.chance(1, 4)) {
		memset(data.get(), 0, DB);
		int one = (int)g.draw(K - 1);
		data[one / 8] |= 128 >> one % 8;
	}
	std::vector<uint8_t> copy(data.begin(), data.end());
	Poly rem(remainder(data.get(), K, p));
	CODE::LinearEncoder<N, K> lin;
	lin(word.get(), (const uint8_t *)data.get(), (const int8_t *)systematic.get());
	word.check("codeword");
	data.check("data");
	for (int i = 0; i < N; ++i)
		CHECK(be(word.get(), i) == (i < K ? be(data.get(), i) : rem[NP - 1 - (i - K)]), "(%d,%d): bit %d of the systematic codeword is %d", N, K, i, be(word.get(), i));
	lin(word.get(), (const uint8_t *)data.get(), (const int8_t *)plain.get());
	word.check("codeword");
	for (int i = 0; i < N; ++i) {
		int want = 0;
		for (int j = std::max(0, i - NP); j <= std::min(i, K - 1); ++j)
			want ^= be(data.get(), j) & p[NP - (i - j)];
		CHECK(be(word.get(), i) == want, "(%d,%d): bit %d of the product with the generator polynomial is %d", N, K, i, be(word.get(), i));
	}
	// the encoder of long codes, any number of bits
	typedef CODE::BoseChaudhuriHocquenghemEncoder<N, K> Enc;
	int len = g.flip() ? K : (int)g.range(1, K);
	Poly part(remainder(data.get(), len, p));
	listed(factors, [&](std::initializer_list<int> l) {
		pbt::Fresh<Enc> enc(g, l);
		for (int t = 0; t < 2; ++t) {
			(*enc)((const uint8_t *)data.get(), parity.get(), len);
			parity.check("parity");
			data.check("data");
			for (int i = 0; i < NP; ++i)
				CHECK(be(parity.get(), i) == part[NP - 1 - i], "(%d,%d), %d message bits: parity bit %d is %d", N, K, len, i, be(parity.get(), i));
		}
	});
	CHECK(!memcmp(copy.data(), data.get(), DB), "(%d,%d): encoder changed the data", N, K);
	if (NP == 8)
		checksum<N, K, uint8_t>(data.get(), len, p, part);
	if (NP == 16)
		checksum<N, K, uint16_t>(data.get(), len, p, part);
	if (NP == 32)
		checksum<N, K, uint32_t>(data.get(), len, p, part);
	if (NP == 64)
		checksum<N, K, uint64_t>(data.get(), len, p, part);
	for (int i = 0; i < len; ++i)
		if (be(data.get(), i))
			g.nontrivial();
}

template <int N, int K>
void any(G &g)
{
	code<N, K>(g, random_factors(g, N - K));
	g.labelf("(%d,%d)", N, K);
}

// encoder of short codes: polynomial as a constant
template <int N, int K, int GEN, int... MIN>
void brief(G &g)
{
	const int P = N - K;
	std::vector<int> factors({ MIN... });
	Poly p(product(factors));
	CHECK((int)p.size() == P + 1, "oracle");
	code<N, K>(g, factors);
	static const CODE::ShortBCHCodeEncoder<N, K, GEN> *enc = new CODE::ShortBCHCodeEncoder<N, K, GEN>;
	CODE::ShortBCHCodeEncoder<N, K, GEN> copied(*enc);
	int msg = (int)g.draw((1 << K) - 1), cw = copied(msg);
	std::vector<uint8_t> data((K + 7) / 8, 0);
	for (int i = 0; i < K; ++i)
		if ((msg >> (K - 1 - i)) & 1)
			data[i / 8] |= 128 >> i % 8;
	Poly rem(remainder(data.data(), K, p));
	CHECK(cw >> P == msg && (cw & ~(-1 << P)) >= 0, "(%d,%d): message %d got %d", N, K, msg, cw);
	for (int i = 0; i < P; ++i)
		CHECK(((cw >> i) & 1) == rem[i], "(%d,%d): bit %d of codeword %d of message %d", N, K, i, cw, msg);
	g.labelf("short (%d,%d)", N, K);
	g.nontrivial();
}

// any matrix, not only those of cyclic codes
template <int N, int K>
void linear(G &g)
{
	const int CB = (N + 7) / 8, DB = (K + 7) / 8;
	Buf<int8_t> matrix(N * K);
	g.labelf("(%d,%d)", N, K);
	if (g.flip()) {
		pbt::Rng r(g.bulk());
		int ones = (int)g.range(1, 15);
		for (int i = 0; i < N * K; ++i)
			matrix[i] = (int)(r.next() & 15) < ones;
	} else {
		for (int i = 0; i < N * K; ++i)
			matrix[i] = (int8_t)g.bits(1);
	}
	std::vector<int8_t> kept(matrix.begin(), matrix.end());
	CODE::LinearEncoder<N, K> lin;
	Buf<uint8_t> data(DB), word(CB);
	g.fill(word.get(), CB);
	int words = (int)g.range(1, 3);
	for (int w = 0; w < words; ++w) {
		g.fill(data.get(), DB);
		std::vector<uint8_t> copy(data.begin(), data.end());
		lin(word.get(), (const uint8_t *)data.get(), (const int8_t *)matrix.get());
		word.check("codeword");
		data.check("data");
		matrix.check("matrix");
		CHECK(std::equal(copy.begin(), copy.end(), data.get()), "(%d,%d): encoder changed the message", N, K);
		CHECK(std::equal(kept.begin(), kept.end(), matrix.get()), "(%d,%d): encoder changed the matrix", N, K);
		for (int i = 0; i < N; ++i) {
			int want = 0;
			for (int j = 0; j < K; ++j)
				want ^= be(data.get(), j) & kept[N * j + i];
			CHECK(be(word.get(), i) == want, "(%d,%d), word %d: bit %d of the sum of the chosen rows is %d", N, K, w, i, be(word.get(), i));
			if (want)
				g.nontrivial();
		}
	}
}

typedef void (*Fn)(G &);

}

PROP(small, 600000, 6000000)
{
	static const Fn f[] = {
		any<2, 1>, any<3, 1>, any<3, 2>, any<7, 4>, any<8, 1>, any<9, 8>, any<12, 4>, any<15, 7>, any<15, 11>, any<16, 8>, any<17, 9>, any<18, 9>, any<20, 13>, any<23, 12>, any<24, 8>, any<24, 16>, any<25, 16>, any<31, 16>, any<31, 6>, any<33, 32>, any<40, 24>, any<41, 9>,
	};
	f[g.draw(sizeof(f) / sizeof(f[0]) - 1)](g);
}

PROP(large, 30000, 400000)
{
	static const Fn f[] = { any<48, 16>, any<63, 51>, any<64, 32>, any<72, 8>, any<100, 36>, any<127, 64>, any<128, 96>, any<96, 80>, any<200, 40>, any<255, 191>, any<240, 21>, any<255, 247> };
	f[g.draw(sizeof(f) / sizeof(f[0]) - 1)](g);
}

PROP(short_codes, 150000, 1500000)
{
	static const Fn f[] = {
		brief<7, 4, 0xb, 0xb>, brief<15, 11, 0x13, 0x13>, brief<15, 7, 0x1d1, 0x13, 0x1f>, brief<15, 5, 0x537, 0x13, 0x1f, 0x7>, brief<23, 12, 0xae3, 0xae3>, brief<21, 12, 0x3b3, 0x57, 0xd>, brief<31, 16, 0x8faf, 0x25, 0x3d, 0x37>, brief<15, 10, 0x35, 0x3, 0x13>, brief<9, 2, 0xf9, 0xf9>,
	};
	f[g.draw(sizeof(f) / sizeof(f[0]) - 1)](g);
}

PROP(matrices, 200000, 3000000)
{
	static const Fn f[] = {
		linear<1, 1>, linear<2, 1>, linear<3, 2>, linear<5, 5>, linear<7, 4>, linear<8, 8>, linear<9, 8>, linear<9, 9>, linear<16, 1>, linear<4, 12>, linear<17, 9>, linear<24, 12>, linear<31, 20>, linear<33, 32>, linear<64, 17>, linear<65, 64>, linear<100, 10>, linear<130, 3>,
	};
	f[g.draw(sizeof(f) / sizeof(f[0]) - 1)](g);
}
