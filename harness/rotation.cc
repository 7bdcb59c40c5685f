// Rotation of the lanes in use
#include "pbt.hh"
#include "rotate.hh"

using namespace pbt;

namespace {

template <typename T, int SIZE, int WIDTH>
void turn(G &g)
{
	typedef SIMD<T, SIZE> V;
	typedef CODE::Rotate<V, WIDTH> ROT;
	Fresh<ROT> rot(g);
	T k[SIZE];
	Rng r(g.bulk());
	int kind = (int)g.draw(3);
	for (int i = 0; i < SIZE; ++i)
		k[i] = kind == 0 ? T(i + 1) : kind == 1 ? T(i < WIDTH ? -1 - i : 0x55) : T((int64_t)(int8_t)r.next());
	V a;
	for (int i = 0; i < SIZE; ++i)
		a.v[i] = k[i];
	g.labelf("%d of %d lanes of %d bytes", WIDTH, SIZE, (int)sizeof(T));
	g.note("%d of %d lanes of %d bytes", WIDTH, SIZE, (int)sizeof(T));
	for (int s = -WIDTH; s < WIDTH; ++s) {
		// the unused lanes hold something else each time
		V b(a);
		for (int i = WIDTH; i < SIZE; ++i)
			b.v[i] = T((int8_t)r.next());
		V c = (*rot)(b, s);
		for (int i = 0; i < WIDTH; ++i) {
			int from = ((i - s) % WIDTH + WIDTH) % WIDTH;
			CHECK(c.v[i] == k[from], "%d of %d lanes of %d bytes by %d: lane %d is %.17g, not %.17g of lane %d", WIDTH, SIZE, (int)sizeof(T), s, i, (double)c.v[i], (double)k[from], from);
		}
		int back = s == -WIDTH ? 0 : -s;
		V d = (*rot)(c, back);
		for (int i = 0; i < WIDTH; ++i)
			CHECK(d.v[i] == k[i], "%d of %d lanes of %d bytes by %d and back: lane %d is %.17g, not %.17g", WIDTH, SIZE, (int)sizeof(T), s, i, (double)d.v[i], (double)k[i]);
	}
	if (WIDTH > 1)
		g.nontrivial();
}

template <typename T, int SIZE>
void widths(G &g)
{
	dispatch<SIZE>((int)g.draw(SIZE - 1), [&](auto w) { turn<T, SIZE, decltype(w)::value + 1>(g); });
}

}

PROP(bytes, 200000, 8000000)
{
	switch (g.draw(3)) {
	case 0: widths<int8_t, 16>(g); break;
	case 1: widths<int8_t, 48>(g); break;
	default: widths<int8_t, 32>(g);
	}
}

PROP(others, 150000, 6000000)
{
	switch (g.draw(7)) {
	case 0: widths<int16_t, 16>(g); break;
	case 1: widths<float, 8>(g); break;
	case 2: widths<int32_t, 8>(g); break;
	case 3: widths<double, 4>(g); break;
	case 4: widths<uint8_t, 16>(g); break;
	case 5: widths<int64_t, 5>(g); break;
	case 6: widths<float, 16>(g); break;
	default: widths<int8_t, 7>(g);
	}
}
