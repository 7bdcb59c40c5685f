// CRC: every sequence of updates leaves the register a bitwise shift register would have
#include "pbt.hh"
#include "crc.hh"

namespace {

using pbt::G;

// the model: one bit at a time, the register as an array of coefficients
struct Model
{
	int width;
	std::vector<uint8_t> reg, poly;
	Model(int w, uint64_t p, uint64_t init) : width(w), reg(w), poly(w)
	{
		for (int i = 0; i < w; ++i)
			poly[i] = (p >> i) & 1;
		set(init);
	}
	void set(uint64_t v)
	{
		for (int i = 0; i < width; ++i)
			reg[i] = (v >> i) & 1;
	}
	void bit(int b)
	{
		int feedback = reg[0] ^ b;
		for (int i = 0; i < width; ++i)
			reg[i] = (i + 1 < width ? reg[i + 1] : 0) ^ (feedback & poly[i]);
	}
	void bits(uint64_t v, int n)
	{
		for (int i = 0; i < n; ++i)
			bit((v >> i) & 1);
	}
	uint64_t get() const
	{
		uint64_t v = 0;
		for (int i = 0; i < width; ++i)
			v |= (uint64_t)reg[i] << i;
		return v;
	}
};

template <typename T>
T some_poly(G &g)
{
	static const uint64_t k8[] = { 0x8c, 0xe0, 0x31 }, k16[] = { 0xa8f4, 0x8408, 0xa001 }, k32[] = { 0xedb88320, 0x8f6e37a0, 0xd419cc15, 0x82f63b78 },
		k64[] = { 0xc96c5795d7870f42ull, 0xd800000000000000ull };
	if (g.chance(1, 3)) {
		switch (sizeof(T)) {
		case 1: return T(k8[g.draw(2)]);
		case 2: return T(k16[g.draw(2)]);
		case 4: return T(k32[g.draw(3)]);
		default: return T(k64[g.draw(1)]);
		}
	}
	return T(g.word(8 * sizeof(T)));
}

template <typename T>
void history(G &g)
{
	const int W = 8 * sizeof(T);
	T poly = some_poly<T>(g);
	T init = g.flip() ? T(g.word(W)) : T(0);
	bool dflt = init == 0 && g.flip();
	alignas(CODE::CRC<T>) uint8_t mem[sizeof(CODE::CRC<T>)];
	memset(mem, (int)g.draw(255), sizeof(mem));
	CODE::CRC<T> *crc = dflt ? new (mem) CODE::CRC<T>(poly) : new (mem) CODE::CRC<T>(poly, init);
	Model model(W, poly, init);
	CHECK((*crc)() == T(model.get()), "CRC%d: initial register is %llx, not %llx", W, (unsigned long long)(*crc)(), (unsigned long long)init);
	int n = (int)g.range(1, 24);
	int wide = 0;
	g.note("CRC%d poly %llx init %llx, %d ops", W, (unsigned long long)poly, (unsigned long long)init, n);
	for (int i = 0; i < n; ++i) {
		T got;
		const char *op;
		uint64_t v = 0;
		switch (g.draw(7)) {
		case 0: v = g.draw(1); op = "bit"; got = (*crc)(bool(v)); model.bit((int)v); break;
		case 1: v = g.word(8); op = "u8"; got = (*crc)(uint8_t(v)); model.bits(v, 8); ++wide; break;
		case 2: v = g.word(16); op = "u16"; got = (*crc)(uint16_t(v)); model.bits(v, 16); ++wide; break;
		case 3: v = g.word(32); op = "u32"; got = (*crc)(uint32_t(v)); model.bits(v, 32); ++wide; break;
		case 4: v = g.word(64); op = "u64"; got = (*crc)(uint64_t(v)); model.bits(v, 64); ++wide; break;
		case 5: v = g.word(W); op = "reset"; crc->reset(T(v)); model.set(v); got = (*crc)(); break;
		case 6: op = "reset()"; crc->reset(); model.set(0); got = (*crc)(); break;
		default: {
			op = "bytes";
			int len = (int)g.range(1, 40);
			std::vector<uint8_t> d(len);
			g.fill(d.data(), len);
			for (int j = 0; j < len; ++j) {
				(*crc)(d[j]);
				model.bits(d[j], 8);
			}
			got = (*crc)();
			++wide;
		}
		}
		g.note("%s %llx", op, (unsigned long long)v);
		CHECK(got == T(model.get()), "CRC%d poly %llx: %s %llx (op %d) returned %llx, bitwise register is %llx", W, (unsigned long long)poly, op,
			(unsigned long long)v, i, (unsigned long long)got, (unsigned long long)model.get());
		CHECK((*crc)() == T(model.get()), "CRC%d: reading the register changed or lost it after %s", W, op);
	}
	if (wide)
		g.nontrivial();
	g.labelf("width %d", W);
	crc->~CRC<T>();
}

// the same bits, cut into updates of different widths, and a second object
// fed in between: the results agree
template <typename T>
void chunking(G &g)
{
	const int W = 8 * sizeof(T);
	T poly = some_poly<T>(g), init = T(g.word(W));
	CODE::CRC<T> a(poly, init), b(poly, init), other(T(poly ^ 1), T(3));
	int len = (int)g.range(1, 64);
	std::vector<uint8_t> d(len);
	g.fill(d.data(), len);
	for (int i = 0; i < 8 * len; ++i)
		a(bool((d[i / 8] >> (i % 8)) & 1));
	int cuts = 0;
	for (int i = 0; i < len;) {
		uint64_t w = 0;
		int k = 1 << g.draw(3);
		if (k > len - i)
			k = 1;
		for (int j = 0; j < k; ++j)
			w |= (uint64_t)d[i + j] << (8 * j);
		switch (k) {
		case 1: b(uint8_t(w)); break;
		case 2: b(uint16_t(w)); break;
		case 4: b(uint32_t(w)); break;
		default: b(uint64_t(w));
		}
		if (g.flip())
			other(uint8_t(i));
		++cuts;
		i += k;
	}
	g.note("CRC%d %d bytes in %d updates", W, len, cuts);
	CHECK(a() == b(), "CRC%d poly %llx: %d bytes bit by bit give %llx, in %d wider updates %llx", W, (unsigned long long)poly, len,
		(unsigned long long)a(), cuts, (unsigned long long)b());
	if (cuts > 1)
		g.nontrivial();
}

// a message followed by its checksum bits leaves zero; any burst of errors no
// longer than the register leaves something else
template <typename T>
void detect(G &g)
{
	const int W = 8 * sizeof(T);
	T poly = T(some_poly<T>(g) | (T(1) << (W - 1)));
	T init = T(g.word(W));
	int n = (int)g.range(1, 300);
	std::vector<uint8_t> bits(n);
	g.fill(bits.data(), n, 1);
	CODE::CRC<T> crc(poly, init);
	for (int i = 0; i < n; ++i)
		crc(bool(bits[i]));
	T sum = crc();
	for (int i = 0; i < W; ++i)
		bits.push_back((sum >> i) & 1);
	crc.reset(init);
	for (uint8_t b : bits)
		crc(bool(b));
	CHECK(crc() == 0, "CRC%d poly %llx: message with its checksum leaves %llx", W, (unsigned long long)poly, (unsigned long long)crc());
	int total = n + W;
	int len = (int)g.range(1, W), at = (int)g.draw(total - len);
	uint64_t burst = g.bits(len) | 1;
	for (int i = 0; i < len; ++i)
		bits[at + i] ^= (burst >> i) & 1;
	crc.reset(init);
	for (uint8_t b : bits)
		crc(bool(b));
	CHECK(crc() != 0, "CRC%d poly %llx: burst %llx at bit %d of %d goes unnoticed", W, (unsigned long long)poly, (unsigned long long)burst, at, total);
	g.note("CRC%d %d bits, burst of %d at %d", W, total, len, at);
	g.nontrivial();
}

PROP(history, 1200000, 9600000)
{
	switch (g.draw(3)) {
	case 0: return history<uint8_t>(g);
	case 1: return history<uint16_t>(g);
	case 2: return history<uint32_t>(g);
	default: return history<uint64_t>(g);
	}
}

PROP(chunking, 1200000, 9600000)
{
	switch (g.draw(3)) {
	case 0: return chunking<uint8_t>(g);
	case 1: return chunking<uint16_t>(g);
	case 2: return chunking<uint32_t>(g);
	default: return chunking<uint64_t>(g);
	}
}

PROP(detect, 450000, 3600000)
{
	switch (g.draw(3)) {
	case 0: return detect<uint8_t>(g);
	case 1: return detect<uint16_t>(g);
	case 2: return detect<uint32_t>(g);
	default: return detect<uint64_t>(g);
	}
}

}
