// written by tools/mkbch.py: code(degree, field polynomial, type, roots, first root, message bits, minimal polynomials)
#pragma once
#define BCH_SMALL(code) \
	code(3, 0xb, uint8_t, 2, 1, 4, 0xb) \
	code(3, 0xb, uint8_t, 3, 0, 3, 0x3, 0xb) \
	code(4, 0x13, uint8_t, 2, 1, 11, 0x13) \
	code(4, 0x13, uint8_t, 4, 1, 7, 0x13, 0x1f) \
	code(4, 0x13, uint8_t, 6, 1, 5, 0x13, 0x1f, 0x7) \
	code(4, 0x19, uint8_t, 3, 0, 10, 0x3, 0x19) \
	code(4, 0x13, uint8_t, 5, 0, 6, 0x3, 0x13, 0x1f) \
	code(4, 0x13, uint8_t, 14, 1, 1, 0x13, 0x1f, 0x7, 0x19) \
	code(4, 0x19, uint8_t, 4, 6, 3, 0x1f, 0x13, 0x19) \
	code(5, 0x25, uint8_t, 2, 1, 26, 0x25) \
	code(5, 0x25, uint8_t, 4, 1, 21, 0x25, 0x3d) \
	code(5, 0x3d, uint8_t, 6, 1, 16, 0x3d, 0x37, 0x29) \
	code(5, 0x25, uint8_t, 10, 1, 11, 0x25, 0x3d, 0x37, 0x2f) \
	code(5, 0x3d, uint8_t, 7, 0, 15, 0x3, 0x3d, 0x37, 0x29) \
	code(5, 0x25, uint8_t, 4, 3, 16, 0x3d, 0x25, 0x37) \
	code(5, 0x25, uint8_t, 14, 1, 6, 0x25, 0x3d, 0x37, 0x2f, 0x3b) \
	code(5, 0x25, uint8_t, 3, 1, 21, 0x25, 0x3d) \
	code(6, 0x43, uint8_t, 4, 1, 51, 0x43, 0x57) \
	code(6, 0x5b, uint8_t, 6, 1, 45, 0x5b, 0x75, 0x43) \
	code(6, 0x43, uint8_t, 9, 0, 38, 0x3, 0x43, 0x57, 0x67, 0x49) \
	code(6, 0x43, uint8_t, 20, 1, 18, 0x43, 0x57, 0x67, 0x49, 0xd, 0x6d, 0x5b, 0x75) \
	code(6, 0x43, uint8_t, 7, 2, 39, 0x43, 0x57, 0x67, 0x49) \
	code(7, 0x89, uint8_t, 4, 1, 113, 0x89, 0x8f) \
	code(7, 0x89, uint8_t, 20, 1, 64, 0x89, 0x8f, 0x9d, 0xf7, 0xbf, 0xd5, 0x83, 0xef, 0xcb) \
	code(7, 0x89, uint8_t, 11, 0, 91, 0x3, 0x89, 0x8f, 0x9d, 0xf7, 0xbf)
#define BCH_LARGE(code) \
	code(8, 0x11d, uint8_t, 2, 1, 247, 0x11d) \
	code(8, 0x11d, uint8_t, 4, 1, 239, 0x11d, 0x177) \
	code(8, 0x11d, uint8_t, 12, 1, 207, 0x11d, 0x177, 0x1f3, 0x169, 0x1bd, 0x1e7) \
	code(8, 0x11d, uint8_t, 36, 1, 131, 0x11d, 0x177, 0x1f3, 0x169, 0x1bd, 0x1e7, 0x12b, 0x1d7, 0x13, 0x165, 0x18b, 0x163, 0x11b, 0x13f, 0x18d, 0x12d) \
	code(8, 0x11d, uint8_t, 17, 0, 190, 0x3, 0x11d, 0x177, 0x1f3, 0x169, 0x1bd, 0x1e7, 0x12b, 0x1d7) \
	code(8, 0x11d, uint8_t, 9, 5, 199, 0x1f3, 0x177, 0x169, 0x11d, 0x1bd, 0x1e7, 0x12b) \
	code(10, 0x409, uint16_t, 10, 1, 973, 0x409, 0x40f, 0x50d, 0x7f9, 0x4af) \
	code(14, 0x402b, uint16_t, 24, 1, 16215, 0x402b, 0x4941, 0x4647, 0x5591, 0x6b55, 0x6389, 0x6ce5, 0x4f21, 0x460f, 0x5a49, 0x5811, 0x65ef) \
	code(16, 0x1002d, uint16_t, 24, 1, 65343, 0x1002d, 0x10173, 0x10fbd, 0x15a55, 0x11f2f, 0x1f7b5, 0x1af65, 0x17367, 0x10ea1, 0x175a7, 0x13a2d, 0x11ae3) \
	code(16, 0x1002d, uint16_t, 4, 1, 65503, 0x1002d, 0x10173)
#define BCH_MANY(code) \
	code(8, 0x11d, uint8_t, 58, 1, 71, 0x11d, 0x177, 0x1f3, 0x169, 0x1bd, 0x1e7, 0x12b, 0x1d7, 0x13, 0x165, 0x18b, 0x163, 0x11b, 0x13f, 0x18d, 0x12d, 0x15f, 0x1f9, 0x1c3, 0x139, 0x1a9, 0x1f, 0x187, 0x1b1) \
	code(8, 0x11d, uint8_t, 126, 1, 9, 0x11d, 0x177, 0x1f3, 0x169, 0x1bd, 0x1e7, 0x12b, 0x1d7, 0x13, 0x165, 0x18b, 0x163, 0x11b, 0x13f, 0x18d, 0x12d, 0x15f, 0x1f9, 0x1c3, 0x139, 0x1a9, 0x1f, 0x187, 0x1b1, 0x14d, 0x1cf, 0x1dd, 0x7, 0x1a3, 0x1f5, 0x19f, 0x17b, 0x19) \
	code(8, 0x11d, uint8_t, 254, 1, 1, 0x11d, 0x177, 0x1f3, 0x169, 0x1bd, 0x1e7, 0x12b, 0x1d7, 0x13, 0x165, 0x18b, 0x163, 0x11b, 0x13f, 0x18d, 0x12d, 0x15f, 0x1f9, 0x1c3, 0x139, 0x1a9, 0x1f, 0x187, 0x1b1, 0x14d, 0x1cf, 0x1dd, 0x7, 0x1a3, 0x1f5, 0x19f, 0x17b, 0x19, 0x171) \
	code(9, 0x211, uint16_t, 60, 1, 259, 0x211, 0x259, 0x331, 0x299, 0x313, 0x22d, 0x277, 0x361, 0x2db, 0x385, 0x217, 0x3e9, 0x3e3, 0x38f, 0x36b, 0x21b, 0x301, 0x26f, 0x3cd, 0x373, 0x3cb, 0x27d, 0x35b, 0x3d5, 0x295, 0x2bd, 0x2f5, 0x2cf) \
	code(10, 0x409, uint16_t, 150, 1, 423, 0x409, 0x40f, 0x50d, 0x7f9, 0x4af, 0x435, 0x46f, 0x5ab, 0x74d, 0x5fb, 0x7eb, 0x41b, 0x523, 0x77b, 0x531, 0x623, 0x3d, 0x613, 0x763, 0x447, 0x5e5, 0x519, 0x631, 0x67f, 0x755, 0x567, 0x58f, 0x72b, 0x651, 0x739, 0x7f3, 0x6ad, 0x5c1, 0x6d3, 0x747, 0x51f, 0x50b, 0x4e7, 0x793, 0x5c7, 0x4c9, 0x4d7, 0x6b5, 0x7ff, 0x465, 0x37, 0x42d, 0x77d, 0x787, 0x679, 0x427, 0x453, 0x5f7, 0x499, 0x65b, 0x6a7, 0x711, 0x6c1, 0x4ff, 0x4ed, 0x615) \
	code(10, 0x409, uint16_t, 40, 1000, 822, 0x6c1, 0x561, 0x6bf, 0x585, 0x6fd, 0x7a9, 0x597, 0x481, 0x6ad, 0x4ff, 0x7b1, 0x781, 0x3, 0x409, 0x40f, 0x50d, 0x7f9, 0x4af, 0x435, 0x46f, 0x5ab) \
	code(11, 0x805, uint16_t, 200, 1, 1079, 0x805, 0x925, 0x88d, 0x82d, 0xc0d, 0xf0b, 0x863, 0x973, 0x82b, 0xa13, 0xb93, 0x9ef, 0x97f, 0xc9b, 0xdbb, 0xe9f, 0xedd, 0x945, 0xadf, 0xab3, 0xaf1, 0xa79, 0xd9f, 0xe7b, 0xbc9, 0xa91, 0xcc7, 0xc89, 0xbe7, 0x95b, 0x8e1, 0xf97, 0xdc9, 0xdff, 0xfcd, 0xce3, 0xc97, 0xcb3, 0xa9d, 0xf19, 0xd2d, 0xaa7, 0xab5, 0xae3, 0x9f7, 0xb87, 0x871, 0x983, 0xd71, 0xe47, 0xe21, 0x8a9, 0xbbd, 0x87b, 0x9c7, 0xec9, 0xb33, 0xbed, 0xde1, 0xb95, 0xde7, 0xce9, 0xdbd, 0xfad, 0xb59, 0xb7d, 0xea3, 0xf91, 0xe71, 0x9d9, 0x929, 0xd6f, 0xda9, 0xfe5, 0xecf, 0xa85, 0x975, 0xdf5, 0xf5d, 0xccd, 0x9ab, 0xb09, 0xb65, 0xf75, 0xf6b, 0xe1d, 0xddb, 0xd63) \
	code(11, 0x805, uint16_t, 31, 0, 1881, 0x3, 0x805, 0x925, 0x88d, 0x82d, 0xc0d, 0xf0b, 0x863, 0x973, 0x82b, 0xa13, 0xb93, 0x9ef, 0x97f, 0xc9b, 0xdbb) \
	code(12, 0x1053, uint16_t, 16, 1, 3999, 0x1053, 0x145b, 0x104d, 0x146b, 0x13f5, 0x1ba7, 0x154b, 0x163f) \
	code(13, 0x201b, uint16_t, 12, 1, 8113, 0x201b, 0x26b1, 0x2993, 0x274f, 0x31e1, 0x23a3) \
	code(13, 0x201b, uint16_t, 9, 8190, 8125, 0x3601, 0x3, 0x201b, 0x26b1, 0x2993, 0x274f) \
	code(15, 0x8003, uint16_t, 8, 1, 32707, 0x8003, 0x8423, 0x900b, 0xaaab) \
	code(15, 0x8003, uint16_t, 13, 0, 32676, 0x3, 0x8003, 0x8423, 0x900b, 0xaaab, 0x8437, 0x88c7)
