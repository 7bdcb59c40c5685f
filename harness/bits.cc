// Bitstream and the bit helpers: a stream is an array of bits, least significant bit of a byte first
#include "pbt.hh"
#include "bitstream.hh"
#include "bitman.hh"

namespace {

using pbt::G;
using pbt::Buf;

template <typename T, int SIZE>
void put_bits(CODE::Bitstream<SIZE> &bs, std::vector<uint8_t> &model, int pos, G &g)
{
	const int W = 8 * sizeof(T) - std::is_signed<T>::value;
	int num = (int)g.range(0, std::min<int>(W, SIZE - pos));
	T v = T(g.word(W));
	bs.writebits(v, num);
	for (int i = 0; i < num; ++i)
		model[pos + i] = (v >> i) & 1;
	CHECK(bs.tell() == pos + num, "writebits of %d at %d leaves position %d", num, pos, bs.tell());
	g.note("writebits%d(%llx,%d)", (int)sizeof(T) * 8, (unsigned long long)v, num);
}

template <typename T, int SIZE>
void get_bits(CODE::Bitstream<SIZE> &bs, std::vector<uint8_t> &model, int pos, G &g)
{
	const int W = 8 * sizeof(T) - std::is_signed<T>::value;
	int num = (int)g.range(0, std::min<int>(W, SIZE - pos));
	T v = T(~T(0)), e = 0;
	bs.readbits(&v, num);
	for (int i = 0; i < num; ++i)
		e |= T(model[pos + i]) << i;
	CHECK(v == e, "readbits of %d at %d gives %llx, the stream holds %llx", num, pos, (unsigned long long)v, (unsigned long long)e);
	CHECK(bs.tell() == pos + num, "readbits of %d at %d leaves position %d", num, pos, bs.tell());
	g.note("readbits%d(%d)", (int)sizeof(T) * 8, num);
}

template <int SIZE>
void stream(G &g)
{
	typedef CODE::Bitstream<SIZE> BS;
	static_assert(BS::BITS == SIZE && BS::BYTES == (SIZE + 7) / 8, "sizes");
	Buf<BS> mem(1, (uint8_t)g.draw(255));
	BS &bs = *new (mem.get()) BS;
	std::vector<uint8_t> model(8 * BS::BYTES);
	// the contents before any write are what data() shows
	for (int i = 0; i < 8 * BS::BYTES; ++i)
		model[i] = (bs.data()[i / 8] >> (i % 8)) & 1;
	CHECK(bs.tell() == 0, "a new stream starts at %d", bs.tell());
	int pos = 0, unaligned = 0, writes = 0;
	const bool LARGE = SIZE > 5000;
	auto same = [&](int lo, int hi, int k) {
		for (int i = std::max(lo, 0); i < std::min(hi, 8 * BS::BYTES); ++i)
			CHECK(((bs.data()[i / 8] >> (i % 8)) & 1) == model[i], "after op %d at %d: bit %d of the stream is wrong", k, pos, i);
	};
	int n = (int)g.range(1, 30);
	g.note("Bitstream<%d>", SIZE);
	for (int k = 0; k < n; ++k) {
		bool crossing = pos % 8;
		int start = pos;
		switch (LARGE && !k ? 1 : g.draw(13)) {
		case 0:
			bs.reset();
			pos = 0;
			for (uint8_t &b : model)
				b = 0;
			g.note("reset");
			break;
		case 1:
		case 2:
			pos = (int)g.edgy(0, SIZE);
			if (LARGE && g.flip()) // about where narrow counters of bits or bytes would turn over
				pos = (int)std::min<int64_t>(SIZE, (int64_t(4096) << g.draw(7)) + g.range(0, 80) - 40);
			bs.seek(pos);
			start = pos;
			g.note("seek %d", pos);
			break;
		case 3:
			if (pos < SIZE) {
				bool b = g.draw(1);
				bs.putbit(b);
				model[pos++] = b;
				++writes;
				g.note("putbit %d", b);
			}
			break;
		case 4:
			if (pos < SIZE) {
				bool b = bs.getbit();
				CHECK(b == model[pos], "bit %d reads %d", pos, b);
				++pos;
				g.note("getbit");
			}
			break;
		case 5:
			if (pos + 8 <= SIZE) {
				uint8_t v = (uint8_t)g.word(8);
				bs.putbyte(v);
				for (int i = 0; i < 8; ++i)
					model[pos + i] = (v >> i) & 1;
				pos += 8;
				++writes;
				unaligned += crossing;
				g.note("putbyte %x", v);
			}
			break;
		case 6:
			if (pos + 8 <= SIZE) {
				uint8_t v = bs.getbyte(), e = 0;
				for (int i = 0; i < 8; ++i)
					e |= model[pos + i] << i;
				CHECK(v == e, "byte at bit %d reads %x, the stream holds %x", pos, v, e);
				pos += 8;
				g.note("getbyte");
			}
			break;
		case 7: {
			int len = (int)g.edgy(0, (SIZE - pos) / 8);
			Buf<uint8_t> d(len);
			g.fill(d.get(), len);
			std::vector<uint8_t> copy(d.begin(), d.end());
			bs.writebytes(d, len);
			for (int i = 0; i < 8 * len; ++i)
				model[pos + i] = (copy[i / 8] >> (i % 8)) & 1;
			CHECK(std::equal(copy.begin(), copy.end(), d.begin()), "writebytes changed its input");
			pos += 8 * len;
			++writes;
			unaligned += crossing && len;
			g.note("writebytes %d", len);
			break;
		}
		case 8: {
			int len = (int)g.edgy(0, (SIZE - pos) / 8);
			Buf<uint8_t> d(len);
			bs.readbytes(d, len);
			d.check("destination of readbytes");
			for (int i = 0; i < 8 * len; ++i)
				CHECK(((d[i / 8] >> (i % 8)) & 1) == model[pos + i], "readbytes of %d at %d: bit %d is wrong", len, pos, i);
			pos += 8 * len;
			g.note("readbytes %d", len);
			break;
		}
		case 9:
		case 10:
			switch (g.draw(5)) {
			case 0: put_bits<uint8_t>(bs, model, pos, g); break;
			case 1: put_bits<uint16_t>(bs, model, pos, g); break;
			case 2: put_bits<uint32_t>(bs, model, pos, g); break;
			case 3: put_bits<uint64_t>(bs, model, pos, g); break;
			case 4: put_bits<int>(bs, model, pos, g); break;
			default: put_bits<int64_t>(bs, model, pos, g); break;
			}
			unaligned += crossing && bs.tell() > pos;
			pos = bs.tell();
			++writes;
			break;
		case 11:
		case 12:
			switch (g.draw(5)) {
			case 0: get_bits<uint8_t>(bs, model, pos, g); break;
			case 1: get_bits<uint16_t>(bs, model, pos, g); break;
			case 2: get_bits<uint32_t>(bs, model, pos, g); break;
			case 3: get_bits<uint64_t>(bs, model, pos, g); break;
			case 4: get_bits<int>(bs, model, pos, g); break;
			default: get_bits<int64_t>(bs, model, pos, g); break;
			}
			pos = bs.tell();
			break;
		default: {
			// the raw bytes may be written from outside
			int at = (int)g.draw(BS::BYTES - 1);
			uint8_t v = (uint8_t)g.word(8);
			bs.data()[at] = v;
			for (int i = 0; i < 8; ++i)
				model[8 * at + i] = (v >> i) & 1;
			g.note("data[%d]=%x", at, v);
		}
		}
		CHECK(bs.tell() == pos, "position is %d, not %d", bs.tell(), pos);
		if (LARGE)
			same(start - 100, std::min(pos, start + 5000) + 100, k);
		else
			same(0, 8 * BS::BYTES, k);
		mem.check("bit stream");
	}
	same(0, 8 * BS::BYTES, n);
	if (unaligned)
		g.nontrivial();
	g.label(unaligned ? "unaligned write" : writes ? "aligned writes only" : "no write");
	bs.~BS();
}

PROP(stream, 500000, 4000000)
{
	switch (g.draw(7)) {
	case 0: return stream<64>(g);
	case 1: return stream<61>(g);
	case 2: return stream<8>(g);
	case 3: return stream<13>(g);
	case 4: return stream<128>(g);
	case 5: return stream<257>(g);
	case 6: return stream<1>(g);
	default: return stream<1000>(g);
	}
}

PROP(large_stream, 1500, 12000)
{
	switch (g.draw(3)) {
	case 0: return stream<9000>(g);
	case 1: return stream<33000>(g);
	case 2: return stream<70001>(g);
	default: return stream<530000>(g);
	}
}

PROP(large_bitman, 6000, 48000)
{
	int len = (int)g.pick({ 5000, 9000, 70000 });
	Buf<uint8_t> buf(len);
	g.fill(buf.get(), len);
	std::vector<uint8_t> model(buf.begin(), buf.end());
	int n = (int)g.range(1, 12);
	g.note("%d bytes, %d ops", len, n);
	for (int k = 0; k < n; ++k) {
		int pos = (int)g.edgy(0, 8 * len - 1);
		if (g.flip())
			pos = (int)std::min<int64_t>(8 * len - 1, (int64_t(4096) << g.draw(7)) + g.range(0, 20) - 10);
		bool v = g.draw(1);
		int be = 0x80 >> (pos % 8), le = 1 << (pos % 8);
		uint8_t &m = model[pos / 8];
		g.note("at %d", pos);
		switch (g.draw(5)) {
		case 0: CODE::set_be_bit(buf, pos, v); m = v ? m | be : m & ~be; break;
		case 1: CODE::set_le_bit(buf, pos, v); m = v ? m | le : m & ~le; break;
		case 2: CODE::xor_be_bit(buf, pos, v); m ^= v ? be : 0; break;
		case 3: CODE::xor_le_bit(buf, pos, v); m ^= v ? le : 0; break;
		case 4: CHECK(CODE::get_be_bit(buf, pos) == !!(m & be), "get_be_bit %d", pos); break;
		default: CHECK(CODE::get_le_bit(buf, pos) == !!(m & le), "get_le_bit %d", pos); break;
		}
		CHECK(buf[pos / 8] == m, "byte %d after an operation on bit %d", pos / 8, pos);
	}
	for (int i = 0; i < len; ++i)
		CHECK(buf[i] == model[i], "byte %d of %d is wrong after the operations", i, len);
	buf.check("bit array");
	g.nontrivial();
}

// single bit helpers: the bit and nothing but the bit
PROP(bitman, 1200000, 9600000)
{
	int len = (int)g.range(1, 40);
	Buf<uint8_t> buf(len);
	g.fill(buf.get(), len);
	std::vector<uint8_t> be(8 * len), le(8 * len);
	auto load = [&]() {
		for (int i = 0; i < 8 * len; ++i) {
			be[i] = (buf[i / 8] & (0x80 >> (i & 7))) != 0;
			le[i] = (buf[i / 8] & (0x01 << (i & 7))) != 0;
		}
	};
	load();
	int n = (int)g.range(1, 12);
	g.note("%d bytes, %d ops", len, n);
	for (int k = 0; k < n; ++k) {
		int pos = (int)g.draw(8 * len - 1);
		bool v = g.draw(1);
		int twin = pos ^ 7;
		switch (g.draw(5)) {
		case 0: CODE::set_be_bit(buf, pos, v); be[pos] = v; le[twin] = v; g.note("set_be %d %d", pos, v); break;
		case 1: CODE::set_le_bit(buf, pos, v); le[pos] = v; be[twin] = v; g.note("set_le %d %d", pos, v); break;
		case 2: CODE::xor_be_bit(buf, pos, v); be[pos] ^= v; le[twin] ^= v; g.note("xor_be %d %d", pos, v); break;
		case 3: CODE::xor_le_bit(buf, pos, v); le[pos] ^= v; be[twin] ^= v; g.note("xor_le %d %d", pos, v); break;
		case 4: CHECK(CODE::get_be_bit(buf, pos) == be[pos], "get_be_bit %d", pos); break;
		default: CHECK(CODE::get_le_bit(buf, pos) == le[pos], "get_le_bit %d", pos); break;
		}
		for (int i = 0; i < 8 * len; ++i) {
			CHECK(CODE::get_be_bit(buf, i) == be[i], "big endian bit %d of %d after op %d at %d", i, 8 * len, k, pos);
			CHECK(CODE::get_le_bit(buf, i) == le[i], "little endian bit %d of %d after op %d at %d", i, 8 * len, k, pos);
			CHECK(((buf[i / 8] >> (7 - i % 8)) & 1) == be[i], "byte %d after op %d at %d", i / 8, k, pos);
		}
		buf.check("bit array");
	}
	g.nontrivial();
}

}
