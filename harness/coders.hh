// Every kind of coder behind one interface: a job encodes and decodes words drawn from a seed
#pragma once
#include "ldpctab.hh"
#include "polar.hh"
#include "xorshift.hh"
#include "mls.hh"
#include "crc.hh"
#include "galois_field.hh"
#include "prime_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "cauchy_prime_field_erasure_coding.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
#include "osd.hh"
#include "sort.hh"
#include "permute.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
#include "polar_helper.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
#include "polar_encoder.hh"
#include "polar_decoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
#include "bitman.hh"
#include "bitstream.hh"
#include "interleave.hh"
#include "exclusive_reduce.hh"
#include "rotate.hh"

namespace {

struct Out
{
	std::vector<uint8_t> bytes;
	template <typename T>
	void put(const T *p, size_t n)
	{
		const uint8_t *b = (const uint8_t *)p;
		bytes.insert(bytes.end(), b, b + n * sizeof(T));
	}
	void put(int64_t v) { put(&v, 1); }
};

// objects are created in memory that held something else, jobs depend on nothing but their seed
struct Unit
{
	const char *name;
	virtual ~Unit() {}
	virtual void job(uint64_t seed, Out &out) = 0;
	virtual void anew(G &g, uint64_t seed, Out &out) = 0;
	virtual void own(uint64_t seed, Out &out) = 0;
};

template <typename KIND>
struct Holder : Unit
{
	Fresh<KIND> obj;
	Holder(G &g) : obj(g) { name = KIND::NAME; }
	void job(uint64_t seed, Out &out) override
	{
		Rng r(seed);
		obj->job(r, out);
	}
	void anew(G &g, uint64_t seed, Out &out) override
	{
		Fresh<KIND> other(g);
		Rng r(seed);
		other->job(r, out);
	}
	// as anew, but with nothing drawn
	void own(uint64_t seed, Out &out) override
	{
		std::unique_ptr<KIND> other(new KIND);
		Rng r(seed);
		other->job(r, out);
	}
};

std::vector<int> choose(Rng &r, int n, int k)
{
	std::vector<int> v(n);
	for (int i = 0; i < n; ++i)
		v[i] = i;
	for (int i = 0; i < k; ++i)
		std::swap(v[i], v[i + r.below(n - i)]);
	v.resize(k);
	return v;
}

// tables of a field do not depend on any other object but one of the field itself
template <typename GF>
void need_tables()
{
	static GF *gf = new GF;
	(void)gf;
}

template <int M, int POLY, typename TYPE, int NR, int FCR>
struct ReedSolomon
{
	static constexpr const char *NAME = "Reed-Solomon";
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	static const int K = (1 << M) - 1 - NR;
	struct Tables { Tables() { need_tables<GF>(); } } tables;
	CODE::ReedSolomonEncoder<NR, FCR, GF> enc;
	CODE::ReedSolomonDecoder<NR, FCR, GF> dec;
	ReedSolomon() {}
	void job(Rng &r, Out &out)
	{
		int len = (int)r.range(1, r.below(6) ? std::min(K, 60) : K);
		std::vector<TYPE> v(len + NR);
		for (int i = 0; i < len; ++i)
			v[i] = (TYPE)r.below(1 << M);
		enc((const TYPE *)v.data(), v.data() + len, len);
		out.put(v.data(), v.size());
		int E = r.below(2) ? 0 : (int)r.below(std::min(NR, len) + 1), e = (int)r.below(NR / 2 + 2);
		std::vector<TYPE> erasures;
		for (int i : choose(r, len + NR, E)) {
			erasures.push_back((TYPE)i);
			v[i] = (TYPE)r.below(1 << M);
		}
		for (int i : choose(r, len + NR, std::min(e, len + NR)))
			v[i] = (TYPE)r.below(1 << M);
		out.put(E ? dec(v.data(), v.data() + len, erasures.data(), E, len) : dec(v.data(), v.data() + len, (TYPE *)nullptr, 0, len));
		out.put(v.data(), v.size());
	}
};

template <int M, int POLY, typename TYPE, int NR, int FCR, int K, int... MIN>
struct BCH
{
	static constexpr const char *NAME = "BCH";
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	static const int N = (1 << M) - 1, NP = N - K;
	struct Tables { Tables() { need_tables<GF>(); } } tables;
	CODE::BoseChaudhuriHocquenghemEncoder<N, K> enc;
	CODE::BoseChaudhuriHocquenghemDecoder<NR, FCR, K, GF> dec;
	CODE::BoseChaudhuriHocquenghemEncoderReference<NR, FCR, K, GF> enc_ref;
	CODE::BoseChaudhuriHocquenghemDecoderReference<NR, FCR, K, GF> dec_ref;
	BCH() : enc({ MIN... }), enc_ref({ MIN... }) {}
	void job(Rng &r, Out &out)
	{
		int len = (int)r.range(1, r.below(6) ? std::min(K, 120) : K);
		std::vector<uint8_t> data((len + 7) / 8), parity((NP + 7) / 8, 0);
		for (uint8_t &b : data)
			b = (uint8_t)r.next();
		enc((const uint8_t *)data.data(), parity.data(), len);
		out.put(parity.data(), parity.size());
		auto flip = [&](int i) { i < len ? data[i / 8] ^= 128 >> i % 8 : parity[(i - len) / 8] ^= 128 >> (i - len) % 8; };
		int E = r.below(2) ? 0 : (int)r.below(std::min(NR, len) + 1), e = (int)r.below(NR / 2 + 2);
		typedef typename GF::ValueType V;
		typedef typename GF::IndexType I;
		std::vector<V> ref(len + NP, V(0));
		for (int i = 0; i < len; ++i)
			ref[i] = V((data[i / 8] >> (7 - i % 8)) & 1);
		enc_ref((const V *)ref.data(), ref.data() + len, len);
		out.put(ref.data(), ref.size());
		std::vector<TYPE> erasures;
		std::vector<I> erased;
		for (int i : choose(r, len + NP, E)) {
			erasures.push_back((TYPE)i);
			erased.push_back(I((TYPE)i));
			if (r.below(2)) {
				flip(i);
				ref[i] += V(1);
			}
		}
		for (int i : choose(r, len + NP, std::min(e, len + NP))) {
			flip(i);
			ref[i] += V(1);
		}
		out.put(dec_ref(ref.data(), ref.data() + len, E ? erased.data() : (I *)nullptr, E, len));
		out.put(ref.data(), ref.size());
		out.put(dec(data.data(), parity.data(), E ? erasures.data() : (TYPE *)nullptr, E, len));
		out.put(data.data(), data.size());
		out.put(parity.data(), parity.size());
	}
};

template <int M, int POLY, typename TYPE>
struct CauchyRS
{
	static constexpr const char *NAME = "Cauchy Reed-Solomon";
	typedef CODE::GaloisField<M, POLY, TYPE> GF;
	struct Tables { Tables() { need_tables<GF>(); } } tables;
	CODE::CauchyReedSolomonErasureCoding<GF> crs;
	CauchyRS() {}
	void job(Rng &r, Out &out)
	{
		int cnt = (int)r.range(1, r.below(8) ? 6 : std::min(30, 1 << (M - 1))), len = (int)r.range(1, r.below(4) ? 40 : 200), most = M == 16 ? 300 : 1 << M;
		std::vector<TYPE> data(cnt * len), blocks(cnt * len), ids(cnt);
		for (TYPE &v : data)
			v = (TYPE)r.below(1 << M);
		std::vector<int> id(choose(r, most - cnt, cnt));
		for (int i = 0; i < cnt; ++i) {
			ids[i] = (TYPE)(cnt + id[i]);
			crs.encode((const TYPE *)data.data(), blocks.data() + i * len, cnt + id[i], len, cnt);
		}
		out.put(blocks.data(), blocks.size());
		for (int i : choose(r, cnt, (int)r.range(1, cnt))) {
			crs.decode(data.data(), (const TYPE *)blocks.data(), (const TYPE *)ids.data(), i, len, cnt);
			out.put(data.data(), len);
		}
	}
};

template <typename TYPE, TYPE P, typename IO, int MAX>
struct CauchyPF
{
	static constexpr const char *NAME = "Cauchy prime field";
	CODE::CauchyPrimeFieldErasureCoding<CODE::PrimeField<TYPE, P>, IO, MAX> cpf;
	CauchyPF() {}
	void job(Rng &r, Out &out)
	{
		int cnt = (int)r.range(1, 6), len = (int)r.range(1, MAX), most = std::min((int)P / 2, 300);
		std::vector<IO> data(cnt * len), blocks(cnt * len), ids(cnt), subs(cnt);
		for (IO &v : data)
			v = (IO)r.next();
		std::vector<int> id(choose(r, most - cnt, cnt));
		for (int i = 0; i < cnt; ++i) {
			ids[i] = (IO)(cnt + id[i]);
			subs[i] = (IO)cpf.encode((const IO *)data.data(), blocks.data() + i * len, cnt + id[i], len, cnt);
		}
		out.put(blocks.data(), blocks.size());
		out.put(subs.data(), subs.size());
		for (int i : choose(r, cnt, (int)r.range(1, cnt))) {
			cpf.decode(data.data(), (const IO *)blocks.data(), (const IO *)subs.data(), (const IO *)ids.data(), i, len, cnt);
			out.put(data.data(), len);
		}
	}
};

void softs(Rng &r, int8_t *soft, int n)
{
	int kind = (int)r.below(7), mag = (int)r.range(1, 127), same = (int)r.range(-1, 1);
	for (int i = 0; i < n; ++i)
		switch (kind) {
		case 0: soft[i] = (int8_t)r.range(-128, 127); break;
		case 1: soft[i] = (int8_t)r.range(-mag, mag); break;
		case 2: soft[i] = (int8_t)r.range(-1, 1); break;
		case 3: soft[i] = (int8_t)(r.below(2) ? mag : -mag); break;
		case 4: soft[i] = (int8_t)(same * mag); break;
		default: soft[i] = (int8_t)(r.below(9) ? mag : r.range(-mag, mag));
		}
}

template <int K>
struct Hadamard
{
	static constexpr const char *NAME = "Hadamard";
	CODE::HadamardEncoder<K> enc;
	CODE::HadamardDecoder<K> dec;
	Hadamard() {}
	void job(Rng &r, Out &out)
	{
		const int N = 1 << (K - 1);
		int8_t code[N];
		enc(code, (int)r.below(1 << K));
		out.put(code, N);
		softs(r, code, N);
		out.put(dec((const int8_t *)code));
	}
};

template <int K>
struct Simplex
{
	static constexpr const char *NAME = "simplex";
	CODE::SimplexEncoder<K> enc;
	CODE::SimplexDecoder<K> dec;
	Simplex() {}
	void job(Rng &r, Out &out)
	{
		const int N = (1 << K) - 1;
		int8_t code[N];
		enc(code, (int)r.below(1 << K));
		out.put(code, N);
		softs(r, code, N);
		out.put(dec((const int8_t *)code));
	}
};

template <int N, int K, int GEN, int T>
struct ShortBCH
{
	static constexpr const char *NAME = "short BCH";
	CODE::ShortBCHCodeEncoder<N, K, GEN> enc;
	CODE::ShortBCHCodeDecoder<N, K, GEN, T> dec;
	ShortBCH() {}
	void job(Rng &r, Out &out)
	{
		int8_t code[N];
		out.put(enc(code, (int)r.below(1 << K)));
		out.put(code, N);
		out.put(dec((int)r.below(1u << N)));
		softs(r, code, N);
		out.put(dec((const int8_t *)code));
	}
};

template <int N, int K, int O, int L>
struct OSD
{
	static constexpr const char *NAME = "ordered statistics";
	CODE::LinearEncoder<N, K> enc;
	CODE::OrderedStatisticsDecoder<N, K, O> dec;
	CODE::OrderedStatisticsListDecoder<N, K, O, L> list;
	OSD() {}
	void job(Rng &r, Out &out)
	{
		int8_t mat[N * K], soft[N];
		std::vector<int> cols(choose(r, N, N));
		for (int j = 0; j < K; ++j)
			for (int i = 0; i < N; ++i)
				mat[N * j + cols[i]] = i < K ? i == j : r.below(2);
		uint8_t msg[(K + 7) / 8], word[L * ((N + 7) / 8)];
		for (uint8_t &b : msg)
			b = (uint8_t)r.next();
		memset(word, 0, sizeof(word));
		enc(word, (const uint8_t *)msg, (const int8_t *)mat);
		out.put(word, (N + 7) / 8);
		softs(r, soft, N);
		memset(word, 0, sizeof(word));
		if (r.below(2)) {
			out.put(dec(word, (const int8_t *)soft, (const int8_t *)mat));
		} else {
			int rank[L];
			list(rank, word, (const int8_t *)soft, (const int8_t *)mat);
			out.put(rank, L);
		}
		out.put(word, sizeof(word));
	}
};

template <typename T, int BETA>
struct LDPC
{
	static constexpr const char *NAME = "LDPC";
	CODE::LDPCEncoder<T> enc;
	CODE::LDPCDecoder<T, BETA> dec;
	LDPC() {}
	void job(Rng &r, Out &out)
	{
		std::vector<int8_t> msg(T::K), par(T::R);
		for (int8_t &v : msg)
			v = r.below(2) ? -1 : 1;
		enc((const int8_t *)msg.data(), par.data());
		out.put(par.data(), T::R);
		if (r.below(4)) {
			int mag = (int)r.range(2, 60), noise = (int)r.range(0, 2 * mag);
			for (int8_t &v : msg)
				v = (int8_t)std::max<int64_t>(-127, std::min<int64_t>(127, v * mag + r.range(-noise, noise)));
			for (int8_t &v : par)
				v = (int8_t)std::max<int64_t>(-127, std::min<int64_t>(127, v * mag + r.range(-noise, noise)));
		} else {
			softs(r, msg.data(), T::K);
			softs(r, par.data(), T::R);
		}
		out.put(dec(msg.data(), par.data(), (int)r.range(0, 12)));
		out.put(msg.data(), T::K);
		out.put(par.data(), T::R);
	}
};

// at least so many positions left, the last one among them
std::vector<uint32_t> frozen_bits(Rng &r, int level, int least, int &k)
{
	int n = 1 << level;
	std::vector<char> f(n, 1);
	if (r.below(2)) {
		subtree(r, f, 0, n, 0);
	} else {
		int num = (int)r.below(17);
		for (char &c : f)
			c = r.below(16) < (uint64_t)num;
	}
	f[n - 1] = 0;
	for (int i : choose(r, n, least))
		f[i] = 0;
	Frozen z(level, f, false);
	k = z.k;
	return z.bits;
}

template <typename TYPE>
struct LaneOf
{
	typedef TYPE value;
	static const int COUNT = 1;
	static value &at(TYPE &t, int) { return t; }
};
template <typename V, int W>
struct LaneOf<SIMD<V, W>>
{
	typedef V value;
	static const int COUNT = W;
	static value &at(SIMD<V, W> &t, int i) { return t.v[i]; }
};

template <typename TYPE>
void polar_softs(Rng &r, TYPE *code, int n)
{
	typedef LaneOf<TYPE> L;
	std::vector<int8_t> s(n);
	for (int c = 0; c < L::COUNT; ++c) {
		softs(r, s.data(), n);
		for (int i = 0; i < n; ++i)
			L::at(code[i], c) = (typename L::value)s[i];
	}
}

template <typename TYPE>
void polar_bits(Rng &r, TYPE *code, int n)
{
	typedef LaneOf<TYPE> L;
	for (int c = 0; c < L::COUNT; ++c)
		for (int i = 0; i < n; ++i)
			L::at(code[i], c) = (typename L::value)(r.below(2) ? -1 : 1);
}

template <typename TYPE>
struct Polar
{
	static constexpr const char *NAME = "polar";
	CODE::PolarEncoder<TYPE> enc;
	CODE::PolarSysEnc<TYPE> sys;
	CODE::PolarDecoder<TYPE, 8> dec;
	Polar() {}
	void job(Rng &r, Out &out)
	{
		int level = (int)r.range(5, 8), n = 1 << level, k;
		std::vector<uint32_t> bits(frozen_bits(r, level, 1, k));
		Buf<TYPE> msg(k, 0), code(n, 0);
		polar_bits(r, msg.get(), k);
		enc(code.get(), (const TYPE *)msg.get(), bits.data(), level);
		out.put(code.get(), n);
		sys(code.get(), (const TYPE *)msg.get(), bits.data(), level);
		out.put(code.get(), n);
		polar_softs(r, code.get(), n);
		dec(msg.get(), (const TYPE *)code.get(), bits.data(), level);
		out.put(msg.get(), k);
	}
};

template <typename TYPE>
struct PolarList
{
	static constexpr const char *NAME = "polar list";
	typedef typename TYPE::value_type V;
	CODE::PolarListDecoder<TYPE, 8> dec;
	PolarList() {}
	void job(Rng &r, Out &out)
	{
		int level = (int)r.range(5, 8), n = 1 << level, k, rank[TYPE::SIZE];
		std::vector<uint32_t> bits(frozen_bits(r, level, 7, k));
		Buf<TYPE> msg(k, 0);
		Buf<V> code(n, 0);
		polar_softs(r, code.get(), n);
		dec(rank, msg.get(), (const V *)code.get(), bits.data(), level);
		out.put(rank, TYPE::SIZE);
		out.put(msg.get(), k);
	}
};

template <typename TYPE>
struct PolarParity
{
	static constexpr const char *NAME = "polar parity";
	typedef typename TYPE::value_type V;
	CODE::PolarParityEncoder<V> enc;
	CODE::PolarParityDecoder<TYPE, 8> dec;
	PolarParity() {}
	void job(Rng &r, Out &out)
	{
		int level = (int)r.range(5, 8), n = 1 << level, k, rank[TYPE::SIZE];
		std::vector<uint32_t> bits(frozen_bits(r, level, 16, k));
		int stride = (int)r.range(1, 20), first = (int)r.range(7, 20), messages = 0;
		for (int i = 0, left = first; i < k; ++i)
			if (left) {
				--left;
				++messages;
			} else {
				left = stride;
			}
		Buf<V> bit(messages, 0);
		Buf<TYPE> msg(messages, 0);
		Buf<V> code(n, 0);
		polar_bits(r, bit.get(), messages);
		enc(code.get(), (const V *)bit.get(), bits.data(), level, stride, first);
		out.put(code.get(), n);
		polar_softs(r, code.get(), n);
		dec(rank, msg.get(), (const V *)code.get(), bits.data(), level, stride, first);
		out.put(rank, TYPE::SIZE);
		out.put(msg.get(), messages);
	}
};

struct Construction
{
	static constexpr const char *NAME = "code construction";
	CODE::PolarFreezer freezer;
	CODE::PolarCodeConst0<10> code;
	CODE::PolarSeqConst0<10> seq;
	Construction() {}
	void job(Rng &r, Out &out)
	{
		int level = (int)r.range(1, 10), n = 1 << level, words = (n + 31) / 32;
		double pe = r.uni();
		std::vector<uint32_t> bits(words, 0);
		std::vector<int> s(n);
		code(bits.data(), level, (int)r.range(0, n), pe);
		out.put(bits.data(), words);
		std::fill(bits.begin(), bits.end(), 0);
		out.put(freezer(bits.data(), level, pe, r.uni()));
		out.put(bits.data(), words);
		seq(s.data(), level, pe);
		out.put(s.data(), n);
	}
};

struct Sorting
{
	static constexpr const char *NAME = "sorting";
	struct Item { int key, pos; bool operator<(const Item &o) const { return key < o.key; } };
	CODE::MergeSort<Item, 600, 8> sort;
	Sorting() {}
	void job(Rng &r, Out &out)
	{
		int n = (int)r.range(1, 600), range = (int)r.range(1, 1000);
		std::vector<Item> v(n);
		for (int i = 0; i < n; ++i)
			v[i] = Item{ (int)r.below(range), i };
		sort(v.data(), n);
		out.put(v.data(), n);
	}
};

// what has a state is set to a known one first
struct Registers
{
	static constexpr const char *NAME = "registers";
	CODE::CRC<uint16_t> crc16;
	CODE::CRC<uint32_t> crc32;
	CODE::CRC<uint8_t> crc8;
	CODE::MLS mls;
	CODE::Xorshift32 x32;
	CODE::Xorshift64 x64;
	CODE::Xorwow wow;
	CODE::Xorshift128 x128;
	Registers() : crc16(0xa8f4), crc32(0xd419cc15), crc8(0xe0), mls(0b10001001) {}
	void job(Rng &r, Out &out)
	{
		crc8.reset((uint8_t)r.next());
		crc16.reset((uint16_t)r.next());
		crc32.reset((uint32_t)r.next());
		mls.reset((int)r.range(1, 127));
		x32.reset((uint32_t)r.next() | 1);
		x64.reset(r.next() | 1);
		wow.reset();
		x128.reset();
		for (int n = (int)r.below(40); n >= 0; --n) {
			uint64_t v = r.next();
			switch (r.below(12)) {
			case 0: out.put(crc8((bool)(v & 1))); break;
			case 1: out.put(crc8((uint8_t)v)); break;
			case 2: out.put(crc16((uint8_t)v)); break;
			case 3: out.put(crc16((uint16_t)v)); break;
			case 4: out.put(crc32((uint32_t)v)); break;
			case 5: out.put((int64_t)crc32(v)); break;
			case 6: out.put(crc16((bool)(v & 1))); break;
			case 7: out.put(mls()); break;
			case 8: out.put(x32()); break;
			case 9: out.put((int64_t)x64()); break;
			case 10: out.put(wow()); break;
			default: out.put(x128());
			}
		}
		out.put(crc8());
		out.put(crc16());
		out.put(crc32());
	}
};

struct Streams
{
	static constexpr const char *NAME = "bit streams";
	CODE::Bitstream<700> bs;
	uint8_t bits[40];
	Streams() {}
	void job(Rng &r, Out &out)
	{
		bs.reset();
		memset(bits, 0, sizeof(bits));
		for (int n = (int)r.below(30); n >= 0; --n) {
			uint64_t v = r.next();
			uint8_t bytes[9];
			for (uint8_t &b : bytes)
				b = (uint8_t)(v >> (&b - bytes) * 7);
			int pos = (int)r.below(320), num = (int)r.range(1, 64);
			bs.seek((int)r.below(600));
			switch (r.below(9)) {
			case 0: bs.putbit(v & 1); break;
			case 1: bs.putbyte((uint8_t)v); break;
			case 2: bs.writebytes((const uint8_t *)bytes, 9); break;
			case 3: bs.writebits(v, num); break;
			case 4: v = 0; bs.readbits(&v, num); out.put((int64_t)v); break;
			case 5: bs.readbytes(bytes, 9); out.put(bytes, 9); break;
			case 6: out.put(bs.getbyte()); break;
			case 7: CODE::set_be_bit(bits, pos, v & 1); CODE::xor_le_bit(bits, num, v & 2); break;
			default: CODE::set_le_bit(bits, pos, v & 1); CODE::xor_be_bit(bits, num, v & 2); out.put(CODE::get_le_bit(bits, pos ^ 1) + 2 * CODE::get_be_bit(bits, pos)); break;
			}
			out.put(bs.tell());
		}
		out.put(bs.data(), 88);
		out.put(bits, 40);
	}
};

struct Arrays
{
	static constexpr const char *NAME = "permutations";
	CODE::FisherYatesShuffle<100> shuffle;
	CODE::ReverseFisherYatesShuffle<100> back;
	CODE::Rotate<SIMD<uint8_t, 32>, 30> rot;
	CODE::Rotate<SIMD<int8_t, 16>, 15> rot16;
	CODE::Rotate<SIMD<float, 8>, 7> rotf;
	Arrays() {}
	void job(Rng &r, Out &out)
	{
		int v[128], w[128];
		for (int &i : v)
			i = (int)r.below(1000);
		shuffle(v);
		out.put(v, 128);
		back(v);
		out.put(v, 128);
		CODE::BitReversalPermute<128>(v);
		CODE::Interleave<128, 8>(w, (const int *)v);
		out.put(w, 128);
		CODE::Deinterleave<120, 5>(v, (const int *)w);
		out.put(v, 128);
		int n = (int)r.range(2, 128);
		CODE::exclusive_reduce((const int *)v, w, n, [](int a, int b) { return a ^ b; });
		out.put(w, n);
		CODE::exclusive_reduce((const int *)v, w, n, [](int a, int b) { return std::min(a, b); });
		out.put(w, n);
		SIMD<uint8_t, 32> a;
		SIMD<int8_t, 16> b;
		SIMD<float, 8> c;
		for (int i = 0; i < 32; ++i)
			a.v[i] = (uint8_t)r.next();
		for (int i = 0; i < 16; ++i)
			b.v[i] = (int8_t)r.next();
		for (int i = 0; i < 8; ++i)
			c.v[i] = (float)r.below(1000);
		a = rot(a, (int)r.range(-30, 29));
		b = rot16(b, (int)r.range(-15, 14));
		c = rotf(c, (int)r.range(-7, 6));
		out.put(a.v, 30);
		out.put(b.v, 15);
		out.put(c.v, 7);
		int8_t key[60];
		uint8_t order[60];
		for (int8_t &k : key)
			k = (int8_t)r.below(40);
		CODE::insertion_sort(order, key, 60);
		out.put(key, 60);
		out.put(order, 60);
	}
};

// generator polynomials and matrices
struct Generators
{
	static constexpr const char *NAME = "generators";
	Generators() {}
	void job(Rng &r, Out &out)
	{
		int8_t p[64], m[15 * 11];
		memset(p, 0x55, sizeof(p));
		switch (r.below(4)) {
		case 0: CODE::BoseChaudhuriHocquenghemGenerator<15, 7>::poly(p, { 0x13, 0x1f }); break;
		case 1: CODE::BoseChaudhuriHocquenghemGenerator<15, 5>::poly(p, { 0x13, 0x1f, 7 }); break;
		case 2: CODE::BoseChaudhuriHocquenghemGenerator<31, 16>::poly(p, { 0x25, 0x3d, 0x37 }); break;
		default: CODE::BoseChaudhuriHocquenghemGenerator<63, 45>::poly(p, { 0x43, 0x57, 0x67 });
		}
		out.put(p, sizeof(p));
		memset(m, 0x55, sizeof(m));
		bool systematic = r.below(2);
		switch (r.below(3)) {
		case 0: CODE::BoseChaudhuriHocquenghemGenerator<15, 11>::matrix(m, systematic, { 0x13 }); break;
		case 1: CODE::BoseChaudhuriHocquenghemGenerator<15, 7>::matrix(m, systematic, { 0x13, 0x1f }); break;
		default: CODE::BoseChaudhuriHocquenghemGenerator<15, 5>::matrix(m, systematic, { 0x13, 0x1f, 7 });
		}
		out.put(m, sizeof(m));
	}
};

// elements of fields with and without tables
struct Elements
{
	static constexpr const char *NAME = "field elements";
	typedef CODE::GaloisField<8, 0x11d, uint8_t> GF;
	typedef CODE::PrimeField<uint64_t, 4294967291u> PF;
	struct Tables { Tables() { need_tables<GF>(); } } tables;
	Elements() {}
	void job(Rng &r, Out &out)
	{
		typedef GF::ValueType V;
		for (int n = (int)r.range(1, 20); n; --n) {
			V a((uint8_t)r.below(256)), b((uint8_t)r.below(256)), c((uint8_t)r.range(1, 255));
			out.put((a * b + c).v);
			out.put((a / c - b).v);
			out.put(fma(a, b, c).v);
			out.put(rcp(c).v);
			out.put(index(c).i);
			PF d(r.below(4294967291u)), e(r.below(4294967291u)), f(r.range(1, 4294967290u));
			out.put((int64_t)(d * e + f)());
			out.put((int64_t)(d - e)());
			out.put((int64_t)(d / f)());
		}
	}
};

typedef Unit *(*Make)(G &);

template <typename KIND>
Unit *make(G &g)
{
	return new Holder<KIND>(g);
}

typedef Table<1, 3, 2, 6, 4> TableA;
typedef Table<2, 5, 4, 16, 6> TableB;

// the table is generated once, all objects share it
template <typename T, int BETA>
Unit *make_ldpc(G &g)
{
	make_table<T>(g, NEVER);
	return new Holder<LDPC<T, BETA>>(g);
}

const Make MAKERS[] = {
	make<ReedSolomon<8, 0x11d, uint8_t, 16, 1>>, make<ReedSolomon<4, 0x13, uint8_t, 6, 0>>, make<ReedSolomon<8, 0x12b, uint8_t, 5, 120>>, make<ReedSolomon<10, 0x409, uint16_t, 12, 1>>,
	make<BCH<4, 0x13, uint8_t, 4, 1, 7, 0x13, 0x1f>>, make<BCH<7, 0x89, uint8_t, 10, 1, 92, 0x89, 0x8f, 0x9d, 0xf7, 0xbf>>, make<BCH<8, 0x11d, uint8_t, 12, 1, 207, 0x11d, 0x177, 0x1f3, 0x169, 0x1bd, 0x1e7>>,
	make<CauchyRS<8, 0x11d, uint8_t>>, make<CauchyRS<4, 0x13, uint8_t>>, make<CauchyRS<16, 0x1002d, uint16_t>>,
	make<CauchyPF<uint32_t, 257, uint8_t, 100>>, make<CauchyPF<uint32_t, 257, uint8_t, 17>>, make<CauchyPF<uint32_t, 65537, uint16_t, 200>>,
	make<Hadamard<6>>, make<Hadamard<3>>, make<Hadamard<8>>, make<Simplex<5>>, make<Simplex<3>>, make<Simplex<7>>,
	make<ShortBCH<15, 7, 0x1d1, 2>>, make<ShortBCH<15, 5, 0x537, 3>>, make<ShortBCH<23, 12, 0xae3, 3>>, make<ShortBCH<7, 4, 0xb, 1>>,
	make<OSD<15, 7, 2, 8>>, make<OSD<24, 12, 2, 16>>, make<OSD<40, 9, 3, 4>>, make<OSD<15, 7, 1, 4>>,
	make_ldpc<TableA, 1>, make_ldpc<TableB, 0>,
	make<Polar<int8_t>>, make<Polar<float>>, make<Polar<SIMD<int8_t, 16>>>, make<Polar<SIMD<float, 8>>>,
	make<PolarList<SIMD<int8_t, 16>>>, make<PolarList<SIMD<int8_t, 32>>>, make<PolarList<SIMD<float, 8>>>, make<PolarList<SIMD<float, 16>>>,
	make<PolarParity<SIMD<int8_t, 16>>>, make<PolarParity<SIMD<int8_t, 32>>>, make<PolarParity<SIMD<float, 8>>>, make<PolarParity<SIMD<float, 16>>>,
	make<Construction>, make<Sorting>, make<Registers>, make<Streams>, make<Arrays>, make<Generators>, make<Elements>,
};
const int KINDS = sizeof(MAKERS) / sizeof(MAKERS[0]);
const int LDPC_A = 27, LDPC_B = 28;

// another one of the same LDPC code
const Make AGAIN[] = { make<LDPC<TableA, 1>>, make<LDPC<TableB, 0>> };

}
