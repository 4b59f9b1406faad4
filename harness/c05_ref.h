#pragma once
// Characters with a case mapping, class or digit value: code, upper, lower, title, alphabetic, digit.
// The values are those of the Unicode character database (checked against Java's), restricted to the repertoire
// the library documents: Unicode 3 letters, digit ranges, ideographic zero, Hangzhou and Ethiopic numerals.
struct CharRow { uint32_t c, up, lo, ti; int alpha, digit; };
static const CharRow char_rows[] = {
{0x30,0x30,0x30,0x30,0,0}, {0x31,0x31,0x31,0x31,0,1}, {0x32,0x32,0x32,0x32,0,2}, {0x33,0x33,0x33,0x33,0,3},
{0x34,0x34,0x34,0x34,0,4}, {0x35,0x35,0x35,0x35,0,5}, {0x36,0x36,0x36,0x36,0,6}, {0x37,0x37,0x37,0x37,0,7},
{0x38,0x38,0x38,0x38,0,8}, {0x39,0x39,0x39,0x39,0,9}, {0x41,0x41,0x61,0x41,1,-1}, {0x42,0x42,0x62,0x42,1,-1},
{0x43,0x43,0x63,0x43,1,-1}, {0x44,0x44,0x64,0x44,1,-1}, {0x45,0x45,0x65,0x45,1,-1}, {0x46,0x46,0x66,0x46,1,-1},
{0x47,0x47,0x67,0x47,1,-1}, {0x48,0x48,0x68,0x48,1,-1}, {0x49,0x49,0x69,0x49,1,-1}, {0x4A,0x4A,0x6A,0x4A,1,-1},
{0x4B,0x4B,0x6B,0x4B,1,-1}, {0x4C,0x4C,0x6C,0x4C,1,-1}, {0x4D,0x4D,0x6D,0x4D,1,-1}, {0x4E,0x4E,0x6E,0x4E,1,-1},
{0x4F,0x4F,0x6F,0x4F,1,-1}, {0x50,0x50,0x70,0x50,1,-1}, {0x51,0x51,0x71,0x51,1,-1}, {0x52,0x52,0x72,0x52,1,-1},
{0x53,0x53,0x73,0x53,1,-1}, {0x54,0x54,0x74,0x54,1,-1}, {0x55,0x55,0x75,0x55,1,-1}, {0x56,0x56,0x76,0x56,1,-1},
{0x57,0x57,0x77,0x57,1,-1}, {0x58,0x58,0x78,0x58,1,-1}, {0x59,0x59,0x79,0x59,1,-1}, {0x5A,0x5A,0x7A,0x5A,1,-1},
{0x61,0x41,0x61,0x41,1,-1}, {0x62,0x42,0x62,0x42,1,-1}, {0x63,0x43,0x63,0x43,1,-1}, {0x64,0x44,0x64,0x44,1,-1},
{0x65,0x45,0x65,0x45,1,-1}, {0x66,0x46,0x66,0x46,1,-1}, {0x67,0x47,0x67,0x47,1,-1}, {0x68,0x48,0x68,0x48,1,-1},
{0x69,0x49,0x69,0x49,1,-1}, {0x6A,0x4A,0x6A,0x4A,1,-1}, {0x6B,0x4B,0x6B,0x4B,1,-1}, {0x6C,0x4C,0x6C,0x4C,1,-1},
{0x6D,0x4D,0x6D,0x4D,1,-1}, {0x6E,0x4E,0x6E,0x4E,1,-1}, {0x6F,0x4F,0x6F,0x4F,1,-1}, {0x70,0x50,0x70,0x50,1,-1},
{0x71,0x51,0x71,0x51,1,-1}, {0x72,0x52,0x72,0x52,1,-1}, {0x73,0x53,0x73,0x53,1,-1}, {0x74,0x54,0x74,0x54,1,-1},
{0x75,0x55,0x75,0x55,1,-1}, {0x76,0x56,0x76,0x56,1,-1}, {0x77,0x57,0x77,0x57,1,-1}, {0x78,0x58,0x78,0x58,1,-1},
{0x79,0x59,0x79,0x59,1,-1}, {0x7A,0x5A,0x7A,0x5A,1,-1}, {0xAA,0xAA,0xAA,0xAA,1,-1}, {0xB5,0x39C,0xB5,0x39C,1,-1},
{0xBA,0xBA,0xBA,0xBA,1,-1}, {0xC0,0xC0,0xE0,0xC0,1,-1}, {0xC1,0xC1,0xE1,0xC1,1,-1}, {0xC2,0xC2,0xE2,0xC2,1,-1},
{0xC3,0xC3,0xE3,0xC3,1,-1}, {0xC4,0xC4,0xE4,0xC4,1,-1}, {0xC5,0xC5,0xE5,0xC5,1,-1}, {0xC6,0xC6,0xE6,0xC6,1,-1},
{0xC7,0xC7,0xE7,0xC7,1,-1}, {0xC8,0xC8,0xE8,0xC8,1,-1}, {0xC9,0xC9,0xE9,0xC9,1,-1}, {0xCA,0xCA,0xEA,0xCA,1,-1},
{0xCB,0xCB,0xEB,0xCB,1,-1}, {0xCC,0xCC,0xEC,0xCC,1,-1}, {0xCD,0xCD,0xED,0xCD,1,-1}, {0xCE,0xCE,0xEE,0xCE,1,-1},
{0xCF,0xCF,0xEF,0xCF,1,-1}, {0xD0,0xD0,0xF0,0xD0,1,-1}, {0xD1,0xD1,0xF1,0xD1,1,-1}, {0xD2,0xD2,0xF2,0xD2,1,-1},
{0xD3,0xD3,0xF3,0xD3,1,-1}, {0xD4,0xD4,0xF4,0xD4,1,-1}, {0xD5,0xD5,0xF5,0xD5,1,-1}, {0xD6,0xD6,0xF6,0xD6,1,-1},
{0xD8,0xD8,0xF8,0xD8,1,-1}, {0xD9,0xD9,0xF9,0xD9,1,-1}, {0xDA,0xDA,0xFA,0xDA,1,-1}, {0xDB,0xDB,0xFB,0xDB,1,-1},
{0xDC,0xDC,0xFC,0xDC,1,-1}, {0xDD,0xDD,0xFD,0xDD,1,-1}, {0xDE,0xDE,0xFE,0xDE,1,-1}, {0xDF,0xDF,0xDF,0xDF,1,-1},
{0xE0,0xC0,0xE0,0xC0,1,-1}, {0xE1,0xC1,0xE1,0xC1,1,-1}, {0xE2,0xC2,0xE2,0xC2,1,-1}, {0xE3,0xC3,0xE3,0xC3,1,-1},
{0xE4,0xC4,0xE4,0xC4,1,-1}, {0xE5,0xC5,0xE5,0xC5,1,-1}, {0xE6,0xC6,0xE6,0xC6,1,-1}, {0xE7,0xC7,0xE7,0xC7,1,-1},
{0xE8,0xC8,0xE8,0xC8,1,-1}, {0xE9,0xC9,0xE9,0xC9,1,-1}, {0xEA,0xCA,0xEA,0xCA,1,-1}, {0xEB,0xCB,0xEB,0xCB,1,-1},
{0xEC,0xCC,0xEC,0xCC,1,-1}, {0xED,0xCD,0xED,0xCD,1,-1}, {0xEE,0xCE,0xEE,0xCE,1,-1}, {0xEF,0xCF,0xEF,0xCF,1,-1},
{0xF0,0xD0,0xF0,0xD0,1,-1}, {0xF1,0xD1,0xF1,0xD1,1,-1}, {0xF2,0xD2,0xF2,0xD2,1,-1}, {0xF3,0xD3,0xF3,0xD3,1,-1},
{0xF4,0xD4,0xF4,0xD4,1,-1}, {0xF5,0xD5,0xF5,0xD5,1,-1}, {0xF6,0xD6,0xF6,0xD6,1,-1}, {0xF8,0xD8,0xF8,0xD8,1,-1},
{0xF9,0xD9,0xF9,0xD9,1,-1}, {0xFA,0xDA,0xFA,0xDA,1,-1}, {0xFB,0xDB,0xFB,0xDB,1,-1}, {0xFC,0xDC,0xFC,0xDC,1,-1},
{0xFD,0xDD,0xFD,0xDD,1,-1}, {0xFE,0xDE,0xFE,0xDE,1,-1}, {0xFF,0x178,0xFF,0x178,1,-1}, {0x100,0x100,0x101,0x100,1,-1},
{0x101,0x100,0x101,0x100,1,-1}, {0x102,0x102,0x103,0x102,1,-1}, {0x103,0x102,0x103,0x102,1,-1}, {0x104,0x104,0x105,0x104,1,-1},
{0x105,0x104,0x105,0x104,1,-1}, {0x106,0x106,0x107,0x106,1,-1}, {0x107,0x106,0x107,0x106,1,-1}, {0x108,0x108,0x109,0x108,1,-1},
{0x109,0x108,0x109,0x108,1,-1}, {0x10A,0x10A,0x10B,0x10A,1,-1}, {0x10B,0x10A,0x10B,0x10A,1,-1}, {0x10C,0x10C,0x10D,0x10C,1,-1},
{0x10D,0x10C,0x10D,0x10C,1,-1}, {0x10E,0x10E,0x10F,0x10E,1,-1}, {0x10F,0x10E,0x10F,0x10E,1,-1}, {0x110,0x110,0x111,0x110,1,-1},
{0x111,0x110,0x111,0x110,1,-1}, {0x112,0x112,0x113,0x112,1,-1}, {0x113,0x112,0x113,0x112,1,-1}, {0x114,0x114,0x115,0x114,1,-1},
{0x115,0x114,0x115,0x114,1,-1}, {0x116,0x116,0x117,0x116,1,-1}, {0x117,0x116,0x117,0x116,1,-1}, {0x118,0x118,0x119,0x118,1,-1},
{0x119,0x118,0x119,0x118,1,-1}, {0x11A,0x11A,0x11B,0x11A,1,-1}, {0x11B,0x11A,0x11B,0x11A,1,-1}, {0x11C,0x11C,0x11D,0x11C,1,-1},
{0x11D,0x11C,0x11D,0x11C,1,-1}, {0x11E,0x11E,0x11F,0x11E,1,-1}, {0x11F,0x11E,0x11F,0x11E,1,-1}, {0x120,0x120,0x121,0x120,1,-1},
{0x121,0x120,0x121,0x120,1,-1}, {0x122,0x122,0x123,0x122,1,-1}, {0x123,0x122,0x123,0x122,1,-1}, {0x124,0x124,0x125,0x124,1,-1},
{0x125,0x124,0x125,0x124,1,-1}, {0x126,0x126,0x127,0x126,1,-1}, {0x127,0x126,0x127,0x126,1,-1}, {0x128,0x128,0x129,0x128,1,-1},
{0x129,0x128,0x129,0x128,1,-1}, {0x12A,0x12A,0x12B,0x12A,1,-1}, {0x12B,0x12A,0x12B,0x12A,1,-1}, {0x12C,0x12C,0x12D,0x12C,1,-1},
{0x12D,0x12C,0x12D,0x12C,1,-1}, {0x12E,0x12E,0x12F,0x12E,1,-1}, {0x12F,0x12E,0x12F,0x12E,1,-1}, {0x130,0x130,0x69,0x130,1,-1},
{0x131,0x49,0x131,0x49,1,-1}, {0x132,0x132,0x133,0x132,1,-1}, {0x133,0x132,0x133,0x132,1,-1}, {0x134,0x134,0x135,0x134,1,-1},
{0x135,0x134,0x135,0x134,1,-1}, {0x136,0x136,0x137,0x136,1,-1}, {0x137,0x136,0x137,0x136,1,-1}, {0x138,0x138,0x138,0x138,1,-1},
{0x139,0x139,0x13A,0x139,1,-1}, {0x13A,0x139,0x13A,0x139,1,-1}, {0x13B,0x13B,0x13C,0x13B,1,-1}, {0x13C,0x13B,0x13C,0x13B,1,-1},
{0x13D,0x13D,0x13E,0x13D,1,-1}, {0x13E,0x13D,0x13E,0x13D,1,-1}, {0x13F,0x13F,0x140,0x13F,1,-1}, {0x140,0x13F,0x140,0x13F,1,-1},
{0x141,0x141,0x142,0x141,1,-1}, {0x142,0x141,0x142,0x141,1,-1}, {0x143,0x143,0x144,0x143,1,-1}, {0x144,0x143,0x144,0x143,1,-1},
{0x145,0x145,0x146,0x145,1,-1}, {0x146,0x145,0x146,0x145,1,-1}, {0x147,0x147,0x148,0x147,1,-1}, {0x148,0x147,0x148,0x147,1,-1},
{0x149,0x149,0x149,0x149,1,-1}, {0x14A,0x14A,0x14B,0x14A,1,-1}, {0x14B,0x14A,0x14B,0x14A,1,-1}, {0x14C,0x14C,0x14D,0x14C,1,-1},
{0x14D,0x14C,0x14D,0x14C,1,-1}, {0x14E,0x14E,0x14F,0x14E,1,-1}, {0x14F,0x14E,0x14F,0x14E,1,-1}, {0x150,0x150,0x151,0x150,1,-1},
{0x151,0x150,0x151,0x150,1,-1}, {0x152,0x152,0x153,0x152,1,-1}, {0x153,0x152,0x153,0x152,1,-1}, {0x154,0x154,0x155,0x154,1,-1},
{0x155,0x154,0x155,0x154,1,-1}, {0x156,0x156,0x157,0x156,1,-1}, {0x157,0x156,0x157,0x156,1,-1}, {0x158,0x158,0x159,0x158,1,-1},
{0x159,0x158,0x159,0x158,1,-1}, {0x15A,0x15A,0x15B,0x15A,1,-1}, {0x15B,0x15A,0x15B,0x15A,1,-1}, {0x15C,0x15C,0x15D,0x15C,1,-1},
{0x15D,0x15C,0x15D,0x15C,1,-1}, {0x15E,0x15E,0x15F,0x15E,1,-1}, {0x15F,0x15E,0x15F,0x15E,1,-1}, {0x160,0x160,0x161,0x160,1,-1},
{0x161,0x160,0x161,0x160,1,-1}, {0x162,0x162,0x163,0x162,1,-1}, {0x163,0x162,0x163,0x162,1,-1}, {0x164,0x164,0x165,0x164,1,-1},
{0x165,0x164,0x165,0x164,1,-1}, {0x166,0x166,0x167,0x166,1,-1}, {0x167,0x166,0x167,0x166,1,-1}, {0x168,0x168,0x169,0x168,1,-1},
{0x169,0x168,0x169,0x168,1,-1}, {0x16A,0x16A,0x16B,0x16A,1,-1}, {0x16B,0x16A,0x16B,0x16A,1,-1}, {0x16C,0x16C,0x16D,0x16C,1,-1},
{0x16D,0x16C,0x16D,0x16C,1,-1}, {0x16E,0x16E,0x16F,0x16E,1,-1}, {0x16F,0x16E,0x16F,0x16E,1,-1}, {0x170,0x170,0x171,0x170,1,-1},
{0x171,0x170,0x171,0x170,1,-1}, {0x172,0x172,0x173,0x172,1,-1}, {0x173,0x172,0x173,0x172,1,-1}, {0x174,0x174,0x175,0x174,1,-1},
{0x175,0x174,0x175,0x174,1,-1}, {0x176,0x176,0x177,0x176,1,-1}, {0x177,0x176,0x177,0x176,1,-1}, {0x178,0x178,0xFF,0x178,1,-1},
{0x179,0x179,0x17A,0x179,1,-1}, {0x17A,0x179,0x17A,0x179,1,-1}, {0x17B,0x17B,0x17C,0x17B,1,-1}, {0x17C,0x17B,0x17C,0x17B,1,-1},
{0x17D,0x17D,0x17E,0x17D,1,-1}, {0x17E,0x17D,0x17E,0x17D,1,-1}, {0x17F,0x53,0x17F,0x53,1,-1}, {0x180,0x180,0x180,0x180,1,-1},
{0x181,0x181,0x253,0x181,1,-1}, {0x182,0x182,0x183,0x182,1,-1}, {0x183,0x182,0x183,0x182,1,-1}, {0x184,0x184,0x185,0x184,1,-1},
{0x185,0x184,0x185,0x184,1,-1}, {0x186,0x186,0x254,0x186,1,-1}, {0x187,0x187,0x188,0x187,1,-1}, {0x188,0x187,0x188,0x187,1,-1},
{0x189,0x189,0x256,0x189,1,-1}, {0x18A,0x18A,0x257,0x18A,1,-1}, {0x18B,0x18B,0x18C,0x18B,1,-1}, {0x18C,0x18B,0x18C,0x18B,1,-1},
{0x18D,0x18D,0x18D,0x18D,1,-1}, {0x18E,0x18E,0x1DD,0x18E,1,-1}, {0x18F,0x18F,0x259,0x18F,1,-1}, {0x190,0x190,0x25B,0x190,1,-1},
{0x191,0x191,0x192,0x191,1,-1}, {0x192,0x191,0x192,0x191,1,-1}, {0x193,0x193,0x260,0x193,1,-1}, {0x194,0x194,0x263,0x194,1,-1},
{0x195,0x1F6,0x195,0x1F6,1,-1}, {0x196,0x196,0x269,0x196,1,-1}, {0x197,0x197,0x268,0x197,1,-1}, {0x198,0x198,0x199,0x198,1,-1},
{0x199,0x198,0x199,0x198,1,-1}, {0x19A,0x19A,0x19A,0x19A,1,-1}, {0x19B,0x19B,0x19B,0x19B,1,-1}, {0x19C,0x19C,0x26F,0x19C,1,-1},
{0x19D,0x19D,0x272,0x19D,1,-1}, {0x19E,0x19E,0x19E,0x19E,1,-1}, {0x19F,0x19F,0x275,0x19F,1,-1}, {0x1A0,0x1A0,0x1A1,0x1A0,1,-1},
{0x1A1,0x1A0,0x1A1,0x1A0,1,-1}, {0x1A2,0x1A2,0x1A3,0x1A2,1,-1}, {0x1A3,0x1A2,0x1A3,0x1A2,1,-1}, {0x1A4,0x1A4,0x1A5,0x1A4,1,-1},
{0x1A5,0x1A4,0x1A5,0x1A4,1,-1}, {0x1A6,0x1A6,0x280,0x1A6,1,-1}, {0x1A7,0x1A7,0x1A8,0x1A7,1,-1}, {0x1A8,0x1A7,0x1A8,0x1A7,1,-1},
{0x1A9,0x1A9,0x283,0x1A9,1,-1}, {0x1AA,0x1AA,0x1AA,0x1AA,1,-1}, {0x1AB,0x1AB,0x1AB,0x1AB,1,-1}, {0x1AC,0x1AC,0x1AD,0x1AC,1,-1},
{0x1AD,0x1AC,0x1AD,0x1AC,1,-1}, {0x1AE,0x1AE,0x288,0x1AE,1,-1}, {0x1AF,0x1AF,0x1B0,0x1AF,1,-1}, {0x1B0,0x1AF,0x1B0,0x1AF,1,-1},
{0x1B1,0x1B1,0x28A,0x1B1,1,-1}, {0x1B2,0x1B2,0x28B,0x1B2,1,-1}, {0x1B3,0x1B3,0x1B4,0x1B3,1,-1}, {0x1B4,0x1B3,0x1B4,0x1B3,1,-1},
{0x1B5,0x1B5,0x1B6,0x1B5,1,-1}, {0x1B6,0x1B5,0x1B6,0x1B5,1,-1}, {0x1B7,0x1B7,0x292,0x1B7,1,-1}, {0x1B8,0x1B8,0x1B9,0x1B8,1,-1},
{0x1B9,0x1B8,0x1B9,0x1B8,1,-1}, {0x1BA,0x1BA,0x1BA,0x1BA,1,-1}, {0x1BC,0x1BC,0x1BD,0x1BC,1,-1}, {0x1BD,0x1BC,0x1BD,0x1BC,1,-1},
{0x1BE,0x1BE,0x1BE,0x1BE,1,-1}, {0x1BF,0x1F7,0x1BF,0x1F7,1,-1}, {0x1C4,0x1C4,0x1C6,0x1C5,1,-1}, {0x1C5,0x1C4,0x1C6,0x1C5,1,-1},
{0x1C6,0x1C4,0x1C6,0x1C5,1,-1}, {0x1C7,0x1C7,0x1C9,0x1C8,1,-1}, {0x1C8,0x1C7,0x1C9,0x1C8,1,-1}, {0x1C9,0x1C7,0x1C9,0x1C8,1,-1},
{0x1CA,0x1CA,0x1CC,0x1CB,1,-1}, {0x1CB,0x1CA,0x1CC,0x1CB,1,-1}, {0x1CC,0x1CA,0x1CC,0x1CB,1,-1}, {0x1CD,0x1CD,0x1CE,0x1CD,1,-1},
{0x1CE,0x1CD,0x1CE,0x1CD,1,-1}, {0x1CF,0x1CF,0x1D0,0x1CF,1,-1}, {0x1D0,0x1CF,0x1D0,0x1CF,1,-1}, {0x1D1,0x1D1,0x1D2,0x1D1,1,-1},
{0x1D2,0x1D1,0x1D2,0x1D1,1,-1}, {0x1D3,0x1D3,0x1D4,0x1D3,1,-1}, {0x1D4,0x1D3,0x1D4,0x1D3,1,-1}, {0x1D5,0x1D5,0x1D6,0x1D5,1,-1},
{0x1D6,0x1D5,0x1D6,0x1D5,1,-1}, {0x1D7,0x1D7,0x1D8,0x1D7,1,-1}, {0x1D8,0x1D7,0x1D8,0x1D7,1,-1}, {0x1D9,0x1D9,0x1DA,0x1D9,1,-1},
{0x1DA,0x1D9,0x1DA,0x1D9,1,-1}, {0x1DB,0x1DB,0x1DC,0x1DB,1,-1}, {0x1DC,0x1DB,0x1DC,0x1DB,1,-1}, {0x1DD,0x18E,0x1DD,0x18E,1,-1},
{0x1DE,0x1DE,0x1DF,0x1DE,1,-1}, {0x1DF,0x1DE,0x1DF,0x1DE,1,-1}, {0x1E0,0x1E0,0x1E1,0x1E0,1,-1}, {0x1E1,0x1E0,0x1E1,0x1E0,1,-1},
{0x1E2,0x1E2,0x1E3,0x1E2,1,-1}, {0x1E3,0x1E2,0x1E3,0x1E2,1,-1}, {0x1E4,0x1E4,0x1E5,0x1E4,1,-1}, {0x1E5,0x1E4,0x1E5,0x1E4,1,-1},
{0x1E6,0x1E6,0x1E7,0x1E6,1,-1}, {0x1E7,0x1E6,0x1E7,0x1E6,1,-1}, {0x1E8,0x1E8,0x1E9,0x1E8,1,-1}, {0x1E9,0x1E8,0x1E9,0x1E8,1,-1},
{0x1EA,0x1EA,0x1EB,0x1EA,1,-1}, {0x1EB,0x1EA,0x1EB,0x1EA,1,-1}, {0x1EC,0x1EC,0x1ED,0x1EC,1,-1}, {0x1ED,0x1EC,0x1ED,0x1EC,1,-1},
{0x1EE,0x1EE,0x1EF,0x1EE,1,-1}, {0x1EF,0x1EE,0x1EF,0x1EE,1,-1}, {0x1F0,0x1F0,0x1F0,0x1F0,1,-1}, {0x1F1,0x1F1,0x1F3,0x1F2,1,-1},
{0x1F2,0x1F1,0x1F3,0x1F2,1,-1}, {0x1F3,0x1F1,0x1F3,0x1F2,1,-1}, {0x1F4,0x1F4,0x1F5,0x1F4,1,-1}, {0x1F5,0x1F4,0x1F5,0x1F4,1,-1},
{0x1F6,0x1F6,0x195,0x1F6,1,-1}, {0x1F7,0x1F7,0x1BF,0x1F7,1,-1}, {0x1F8,0x1F8,0x1F9,0x1F8,1,-1}, {0x1F9,0x1F8,0x1F9,0x1F8,1,-1},
{0x1FA,0x1FA,0x1FB,0x1FA,1,-1}, {0x1FB,0x1FA,0x1FB,0x1FA,1,-1}, {0x1FC,0x1FC,0x1FD,0x1FC,1,-1}, {0x1FD,0x1FC,0x1FD,0x1FC,1,-1},
{0x1FE,0x1FE,0x1FF,0x1FE,1,-1}, {0x1FF,0x1FE,0x1FF,0x1FE,1,-1}, {0x200,0x200,0x201,0x200,1,-1}, {0x201,0x200,0x201,0x200,1,-1},
{0x202,0x202,0x203,0x202,1,-1}, {0x203,0x202,0x203,0x202,1,-1}, {0x204,0x204,0x205,0x204,1,-1}, {0x205,0x204,0x205,0x204,1,-1},
{0x206,0x206,0x207,0x206,1,-1}, {0x207,0x206,0x207,0x206,1,-1}, {0x208,0x208,0x209,0x208,1,-1}, {0x209,0x208,0x209,0x208,1,-1},
{0x20A,0x20A,0x20B,0x20A,1,-1}, {0x20B,0x20A,0x20B,0x20A,1,-1}, {0x20C,0x20C,0x20D,0x20C,1,-1}, {0x20D,0x20C,0x20D,0x20C,1,-1},
{0x20E,0x20E,0x20F,0x20E,1,-1}, {0x20F,0x20E,0x20F,0x20E,1,-1}, {0x210,0x210,0x211,0x210,1,-1}, {0x211,0x210,0x211,0x210,1,-1},
{0x212,0x212,0x213,0x212,1,-1}, {0x213,0x212,0x213,0x212,1,-1}, {0x214,0x214,0x215,0x214,1,-1}, {0x215,0x214,0x215,0x214,1,-1},
{0x216,0x216,0x217,0x216,1,-1}, {0x217,0x216,0x217,0x216,1,-1}, {0x218,0x218,0x219,0x218,1,-1}, {0x219,0x218,0x219,0x218,1,-1},
{0x21A,0x21A,0x21B,0x21A,1,-1}, {0x21B,0x21A,0x21B,0x21A,1,-1}, {0x21C,0x21C,0x21D,0x21C,1,-1}, {0x21D,0x21C,0x21D,0x21C,1,-1},
{0x21E,0x21E,0x21F,0x21E,1,-1}, {0x21F,0x21E,0x21F,0x21E,1,-1}, {0x222,0x222,0x223,0x222,1,-1}, {0x223,0x222,0x223,0x222,1,-1},
{0x224,0x224,0x225,0x224,1,-1}, {0x225,0x224,0x225,0x224,1,-1}, {0x226,0x226,0x227,0x226,1,-1}, {0x227,0x226,0x227,0x226,1,-1},
{0x228,0x228,0x229,0x228,1,-1}, {0x229,0x228,0x229,0x228,1,-1}, {0x22A,0x22A,0x22B,0x22A,1,-1}, {0x22B,0x22A,0x22B,0x22A,1,-1},
{0x22C,0x22C,0x22D,0x22C,1,-1}, {0x22D,0x22C,0x22D,0x22C,1,-1}, {0x22E,0x22E,0x22F,0x22E,1,-1}, {0x22F,0x22E,0x22F,0x22E,1,-1},
{0x230,0x230,0x231,0x230,1,-1}, {0x231,0x230,0x231,0x230,1,-1}, {0x232,0x232,0x233,0x232,1,-1}, {0x233,0x232,0x233,0x232,1,-1},
{0x250,0x250,0x250,0x250,1,-1}, {0x251,0x251,0x251,0x251,1,-1}, {0x252,0x252,0x252,0x252,1,-1}, {0x253,0x181,0x253,0x181,1,-1},
{0x254,0x186,0x254,0x186,1,-1}, {0x255,0x255,0x255,0x255,1,-1}, {0x256,0x189,0x256,0x189,1,-1}, {0x257,0x18A,0x257,0x18A,1,-1},
{0x258,0x258,0x258,0x258,1,-1}, {0x259,0x18F,0x259,0x18F,1,-1}, {0x25A,0x25A,0x25A,0x25A,1,-1}, {0x25B,0x190,0x25B,0x190,1,-1},
{0x25C,0x25C,0x25C,0x25C,1,-1}, {0x25D,0x25D,0x25D,0x25D,1,-1}, {0x25E,0x25E,0x25E,0x25E,1,-1}, {0x25F,0x25F,0x25F,0x25F,1,-1},
{0x260,0x193,0x260,0x193,1,-1}, {0x261,0x261,0x261,0x261,1,-1}, {0x262,0x262,0x262,0x262,1,-1}, {0x263,0x194,0x263,0x194,1,-1},
{0x264,0x264,0x264,0x264,1,-1}, {0x265,0x265,0x265,0x265,1,-1}, {0x266,0x266,0x266,0x266,1,-1}, {0x267,0x267,0x267,0x267,1,-1},
{0x268,0x197,0x268,0x197,1,-1}, {0x269,0x196,0x269,0x196,1,-1}, {0x26A,0x26A,0x26A,0x26A,1,-1}, {0x26B,0x26B,0x26B,0x26B,1,-1},
{0x26C,0x26C,0x26C,0x26C,1,-1}, {0x26D,0x26D,0x26D,0x26D,1,-1}, {0x26E,0x26E,0x26E,0x26E,1,-1}, {0x26F,0x19C,0x26F,0x19C,1,-1},
{0x270,0x270,0x270,0x270,1,-1}, {0x271,0x271,0x271,0x271,1,-1}, {0x272,0x19D,0x272,0x19D,1,-1}, {0x273,0x273,0x273,0x273,1,-1},
{0x274,0x274,0x274,0x274,1,-1}, {0x275,0x19F,0x275,0x19F,1,-1}, {0x276,0x276,0x276,0x276,1,-1}, {0x277,0x277,0x277,0x277,1,-1},
{0x278,0x278,0x278,0x278,1,-1}, {0x279,0x279,0x279,0x279,1,-1}, {0x27A,0x27A,0x27A,0x27A,1,-1}, {0x27B,0x27B,0x27B,0x27B,1,-1},
{0x27C,0x27C,0x27C,0x27C,1,-1}, {0x27D,0x27D,0x27D,0x27D,1,-1}, {0x27E,0x27E,0x27E,0x27E,1,-1}, {0x27F,0x27F,0x27F,0x27F,1,-1},
{0x280,0x1A6,0x280,0x1A6,1,-1}, {0x281,0x281,0x281,0x281,1,-1}, {0x282,0x282,0x282,0x282,1,-1}, {0x283,0x1A9,0x283,0x1A9,1,-1},
{0x284,0x284,0x284,0x284,1,-1}, {0x285,0x285,0x285,0x285,1,-1}, {0x286,0x286,0x286,0x286,1,-1}, {0x287,0x287,0x287,0x287,1,-1},
{0x288,0x1AE,0x288,0x1AE,1,-1}, {0x289,0x289,0x289,0x289,1,-1}, {0x28A,0x1B1,0x28A,0x1B1,1,-1}, {0x28B,0x1B2,0x28B,0x1B2,1,-1},
{0x28C,0x28C,0x28C,0x28C,1,-1}, {0x28D,0x28D,0x28D,0x28D,1,-1}, {0x28E,0x28E,0x28E,0x28E,1,-1}, {0x28F,0x28F,0x28F,0x28F,1,-1},
{0x290,0x290,0x290,0x290,1,-1}, {0x291,0x291,0x291,0x291,1,-1}, {0x292,0x1B7,0x292,0x1B7,1,-1}, {0x293,0x293,0x293,0x293,1,-1},
{0x294,0x294,0x294,0x294,1,-1}, {0x295,0x295,0x295,0x295,1,-1}, {0x296,0x296,0x296,0x296,1,-1}, {0x297,0x297,0x297,0x297,1,-1},
{0x298,0x298,0x298,0x298,1,-1}, {0x299,0x299,0x299,0x299,1,-1}, {0x29A,0x29A,0x29A,0x29A,1,-1}, {0x29B,0x29B,0x29B,0x29B,1,-1},
{0x29C,0x29C,0x29C,0x29C,1,-1}, {0x29D,0x29D,0x29D,0x29D,1,-1}, {0x29E,0x29E,0x29E,0x29E,1,-1}, {0x29F,0x29F,0x29F,0x29F,1,-1},
{0x2A0,0x2A0,0x2A0,0x2A0,1,-1}, {0x2A1,0x2A1,0x2A1,0x2A1,1,-1}, {0x2A2,0x2A2,0x2A2,0x2A2,1,-1}, {0x2A3,0x2A3,0x2A3,0x2A3,1,-1},
{0x2A4,0x2A4,0x2A4,0x2A4,1,-1}, {0x2A5,0x2A5,0x2A5,0x2A5,1,-1}, {0x2A6,0x2A6,0x2A6,0x2A6,1,-1}, {0x2A7,0x2A7,0x2A7,0x2A7,1,-1},
{0x2A8,0x2A8,0x2A8,0x2A8,1,-1}, {0x2A9,0x2A9,0x2A9,0x2A9,1,-1}, {0x2AA,0x2AA,0x2AA,0x2AA,1,-1}, {0x2AB,0x2AB,0x2AB,0x2AB,1,-1},
{0x2AC,0x2AC,0x2AC,0x2AC,1,-1}, {0x2AD,0x2AD,0x2AD,0x2AD,1,-1}, {0x345,0x399,0x345,0x399,1,-1}, {0x386,0x386,0x3AC,0x386,1,-1},
{0x388,0x388,0x3AD,0x388,1,-1}, {0x389,0x389,0x3AE,0x389,1,-1}, {0x38A,0x38A,0x3AF,0x38A,1,-1}, {0x38C,0x38C,0x3CC,0x38C,1,-1},
{0x38E,0x38E,0x3CD,0x38E,1,-1}, {0x38F,0x38F,0x3CE,0x38F,1,-1}, {0x390,0x390,0x390,0x390,1,-1}, {0x391,0x391,0x3B1,0x391,1,-1},
{0x392,0x392,0x3B2,0x392,1,-1}, {0x393,0x393,0x3B3,0x393,1,-1}, {0x394,0x394,0x3B4,0x394,1,-1}, {0x395,0x395,0x3B5,0x395,1,-1},
{0x396,0x396,0x3B6,0x396,1,-1}, {0x397,0x397,0x3B7,0x397,1,-1}, {0x398,0x398,0x3B8,0x398,1,-1}, {0x399,0x399,0x3B9,0x399,1,-1},
{0x39A,0x39A,0x3BA,0x39A,1,-1}, {0x39B,0x39B,0x3BB,0x39B,1,-1}, {0x39C,0x39C,0x3BC,0x39C,1,-1}, {0x39D,0x39D,0x3BD,0x39D,1,-1},
{0x39E,0x39E,0x3BE,0x39E,1,-1}, {0x39F,0x39F,0x3BF,0x39F,1,-1}, {0x3A0,0x3A0,0x3C0,0x3A0,1,-1}, {0x3A1,0x3A1,0x3C1,0x3A1,1,-1},
{0x3A3,0x3A3,0x3C3,0x3A3,1,-1}, {0x3A4,0x3A4,0x3C4,0x3A4,1,-1}, {0x3A5,0x3A5,0x3C5,0x3A5,1,-1}, {0x3A6,0x3A6,0x3C6,0x3A6,1,-1},
{0x3A7,0x3A7,0x3C7,0x3A7,1,-1}, {0x3A8,0x3A8,0x3C8,0x3A8,1,-1}, {0x3A9,0x3A9,0x3C9,0x3A9,1,-1}, {0x3AA,0x3AA,0x3CA,0x3AA,1,-1},
{0x3AB,0x3AB,0x3CB,0x3AB,1,-1}, {0x3AC,0x386,0x3AC,0x386,1,-1}, {0x3AD,0x388,0x3AD,0x388,1,-1}, {0x3AE,0x389,0x3AE,0x389,1,-1},
{0x3AF,0x38A,0x3AF,0x38A,1,-1}, {0x3B0,0x3B0,0x3B0,0x3B0,1,-1}, {0x3B1,0x391,0x3B1,0x391,1,-1}, {0x3B2,0x392,0x3B2,0x392,1,-1},
{0x3B3,0x393,0x3B3,0x393,1,-1}, {0x3B4,0x394,0x3B4,0x394,1,-1}, {0x3B5,0x395,0x3B5,0x395,1,-1}, {0x3B6,0x396,0x3B6,0x396,1,-1},
{0x3B7,0x397,0x3B7,0x397,1,-1}, {0x3B8,0x398,0x3B8,0x398,1,-1}, {0x3B9,0x399,0x3B9,0x399,1,-1}, {0x3BA,0x39A,0x3BA,0x39A,1,-1},
{0x3BB,0x39B,0x3BB,0x39B,1,-1}, {0x3BC,0x39C,0x3BC,0x39C,1,-1}, {0x3BD,0x39D,0x3BD,0x39D,1,-1}, {0x3BE,0x39E,0x3BE,0x39E,1,-1},
{0x3BF,0x39F,0x3BF,0x39F,1,-1}, {0x3C0,0x3A0,0x3C0,0x3A0,1,-1}, {0x3C1,0x3A1,0x3C1,0x3A1,1,-1}, {0x3C2,0x3A3,0x3C2,0x3A3,1,-1},
{0x3C3,0x3A3,0x3C3,0x3A3,1,-1}, {0x3C4,0x3A4,0x3C4,0x3A4,1,-1}, {0x3C5,0x3A5,0x3C5,0x3A5,1,-1}, {0x3C6,0x3A6,0x3C6,0x3A6,1,-1},
{0x3C7,0x3A7,0x3C7,0x3A7,1,-1}, {0x3C8,0x3A8,0x3C8,0x3A8,1,-1}, {0x3C9,0x3A9,0x3C9,0x3A9,1,-1}, {0x3CA,0x3AA,0x3CA,0x3AA,1,-1},
{0x3CB,0x3AB,0x3CB,0x3AB,1,-1}, {0x3CC,0x38C,0x3CC,0x38C,1,-1}, {0x3CD,0x38E,0x3CD,0x38E,1,-1}, {0x3CE,0x38F,0x3CE,0x38F,1,-1},
{0x3D0,0x392,0x3D0,0x392,1,-1}, {0x3D1,0x398,0x3D1,0x398,1,-1}, {0x3D2,0x3D2,0x3D2,0x3D2,1,-1}, {0x3D3,0x3D3,0x3D3,0x3D3,1,-1},
{0x3D4,0x3D4,0x3D4,0x3D4,1,-1}, {0x3D5,0x3A6,0x3D5,0x3A6,1,-1}, {0x3D6,0x3A0,0x3D6,0x3A0,1,-1}, {0x3D7,0x3D7,0x3D7,0x3D7,1,-1},
{0x3DA,0x3DA,0x3DB,0x3DA,1,-1}, {0x3DB,0x3DA,0x3DB,0x3DA,1,-1}, {0x3DC,0x3DC,0x3DD,0x3DC,1,-1}, {0x3DD,0x3DC,0x3DD,0x3DC,1,-1},
{0x3DE,0x3DE,0x3DF,0x3DE,1,-1}, {0x3DF,0x3DE,0x3DF,0x3DE,1,-1}, {0x3E0,0x3E0,0x3E1,0x3E0,1,-1}, {0x3E1,0x3E0,0x3E1,0x3E0,1,-1},
{0x3E2,0x3E2,0x3E3,0x3E2,1,-1}, {0x3E3,0x3E2,0x3E3,0x3E2,1,-1}, {0x3E4,0x3E4,0x3E5,0x3E4,1,-1}, {0x3E5,0x3E4,0x3E5,0x3E4,1,-1},
{0x3E6,0x3E6,0x3E7,0x3E6,1,-1}, {0x3E7,0x3E6,0x3E7,0x3E6,1,-1}, {0x3E8,0x3E8,0x3E9,0x3E8,1,-1}, {0x3E9,0x3E8,0x3E9,0x3E8,1,-1},
{0x3EA,0x3EA,0x3EB,0x3EA,1,-1}, {0x3EB,0x3EA,0x3EB,0x3EA,1,-1}, {0x3EC,0x3EC,0x3ED,0x3EC,1,-1}, {0x3ED,0x3EC,0x3ED,0x3EC,1,-1},
{0x3EE,0x3EE,0x3EF,0x3EE,1,-1}, {0x3EF,0x3EE,0x3EF,0x3EE,1,-1}, {0x3F0,0x39A,0x3F0,0x39A,1,-1}, {0x3F1,0x3A1,0x3F1,0x3A1,1,-1},
{0x3F2,0x3A3,0x3F2,0x3A3,1,-1}, {0x3F3,0x3F3,0x3F3,0x3F3,1,-1}, {0x400,0x400,0x450,0x400,1,-1}, {0x401,0x401,0x451,0x401,1,-1},
{0x402,0x402,0x452,0x402,1,-1}, {0x403,0x403,0x453,0x403,1,-1}, {0x404,0x404,0x454,0x404,1,-1}, {0x405,0x405,0x455,0x405,1,-1},
{0x406,0x406,0x456,0x406,1,-1}, {0x407,0x407,0x457,0x407,1,-1}, {0x408,0x408,0x458,0x408,1,-1}, {0x409,0x409,0x459,0x409,1,-1},
{0x40A,0x40A,0x45A,0x40A,1,-1}, {0x40B,0x40B,0x45B,0x40B,1,-1}, {0x40C,0x40C,0x45C,0x40C,1,-1}, {0x40D,0x40D,0x45D,0x40D,1,-1},
{0x40E,0x40E,0x45E,0x40E,1,-1}, {0x40F,0x40F,0x45F,0x40F,1,-1}, {0x410,0x410,0x430,0x410,1,-1}, {0x411,0x411,0x431,0x411,1,-1},
{0x412,0x412,0x432,0x412,1,-1}, {0x413,0x413,0x433,0x413,1,-1}, {0x414,0x414,0x434,0x414,1,-1}, {0x415,0x415,0x435,0x415,1,-1},
{0x416,0x416,0x436,0x416,1,-1}, {0x417,0x417,0x437,0x417,1,-1}, {0x418,0x418,0x438,0x418,1,-1}, {0x419,0x419,0x439,0x419,1,-1},
{0x41A,0x41A,0x43A,0x41A,1,-1}, {0x41B,0x41B,0x43B,0x41B,1,-1}, {0x41C,0x41C,0x43C,0x41C,1,-1}, {0x41D,0x41D,0x43D,0x41D,1,-1},
{0x41E,0x41E,0x43E,0x41E,1,-1}, {0x41F,0x41F,0x43F,0x41F,1,-1}, {0x420,0x420,0x440,0x420,1,-1}, {0x421,0x421,0x441,0x421,1,-1},
{0x422,0x422,0x442,0x422,1,-1}, {0x423,0x423,0x443,0x423,1,-1}, {0x424,0x424,0x444,0x424,1,-1}, {0x425,0x425,0x445,0x425,1,-1},
{0x426,0x426,0x446,0x426,1,-1}, {0x427,0x427,0x447,0x427,1,-1}, {0x428,0x428,0x448,0x428,1,-1}, {0x429,0x429,0x449,0x429,1,-1},
{0x42A,0x42A,0x44A,0x42A,1,-1}, {0x42B,0x42B,0x44B,0x42B,1,-1}, {0x42C,0x42C,0x44C,0x42C,1,-1}, {0x42D,0x42D,0x44D,0x42D,1,-1},
{0x42E,0x42E,0x44E,0x42E,1,-1}, {0x42F,0x42F,0x44F,0x42F,1,-1}, {0x430,0x410,0x430,0x410,1,-1}, {0x431,0x411,0x431,0x411,1,-1},
{0x432,0x412,0x432,0x412,1,-1}, {0x433,0x413,0x433,0x413,1,-1}, {0x434,0x414,0x434,0x414,1,-1}, {0x435,0x415,0x435,0x415,1,-1},
{0x436,0x416,0x436,0x416,1,-1}, {0x437,0x417,0x437,0x417,1,-1}, {0x438,0x418,0x438,0x418,1,-1}, {0x439,0x419,0x439,0x419,1,-1},
{0x43A,0x41A,0x43A,0x41A,1,-1}, {0x43B,0x41B,0x43B,0x41B,1,-1}, {0x43C,0x41C,0x43C,0x41C,1,-1}, {0x43D,0x41D,0x43D,0x41D,1,-1},
{0x43E,0x41E,0x43E,0x41E,1,-1}, {0x43F,0x41F,0x43F,0x41F,1,-1}, {0x440,0x420,0x440,0x420,1,-1}, {0x441,0x421,0x441,0x421,1,-1},
{0x442,0x422,0x442,0x422,1,-1}, {0x443,0x423,0x443,0x423,1,-1}, {0x444,0x424,0x444,0x424,1,-1}, {0x445,0x425,0x445,0x425,1,-1},
{0x446,0x426,0x446,0x426,1,-1}, {0x447,0x427,0x447,0x427,1,-1}, {0x448,0x428,0x448,0x428,1,-1}, {0x449,0x429,0x449,0x429,1,-1},
{0x44A,0x42A,0x44A,0x42A,1,-1}, {0x44B,0x42B,0x44B,0x42B,1,-1}, {0x44C,0x42C,0x44C,0x42C,1,-1}, {0x44D,0x42D,0x44D,0x42D,1,-1},
{0x44E,0x42E,0x44E,0x42E,1,-1}, {0x44F,0x42F,0x44F,0x42F,1,-1}, {0x450,0x400,0x450,0x400,1,-1}, {0x451,0x401,0x451,0x401,1,-1},
{0x452,0x402,0x452,0x402,1,-1}, {0x453,0x403,0x453,0x403,1,-1}, {0x454,0x404,0x454,0x404,1,-1}, {0x455,0x405,0x455,0x405,1,-1},
{0x456,0x406,0x456,0x406,1,-1}, {0x457,0x407,0x457,0x407,1,-1}, {0x458,0x408,0x458,0x408,1,-1}, {0x459,0x409,0x459,0x409,1,-1},
{0x45A,0x40A,0x45A,0x40A,1,-1}, {0x45B,0x40B,0x45B,0x40B,1,-1}, {0x45C,0x40C,0x45C,0x40C,1,-1}, {0x45D,0x40D,0x45D,0x40D,1,-1},
{0x45E,0x40E,0x45E,0x40E,1,-1}, {0x45F,0x40F,0x45F,0x40F,1,-1}, {0x460,0x460,0x461,0x460,1,-1}, {0x461,0x460,0x461,0x460,1,-1},
{0x462,0x462,0x463,0x462,1,-1}, {0x463,0x462,0x463,0x462,1,-1}, {0x464,0x464,0x465,0x464,1,-1}, {0x465,0x464,0x465,0x464,1,-1},
{0x466,0x466,0x467,0x466,1,-1}, {0x467,0x466,0x467,0x466,1,-1}, {0x468,0x468,0x469,0x468,1,-1}, {0x469,0x468,0x469,0x468,1,-1},
{0x46A,0x46A,0x46B,0x46A,1,-1}, {0x46B,0x46A,0x46B,0x46A,1,-1}, {0x46C,0x46C,0x46D,0x46C,1,-1}, {0x46D,0x46C,0x46D,0x46C,1,-1},
{0x46E,0x46E,0x46F,0x46E,1,-1}, {0x46F,0x46E,0x46F,0x46E,1,-1}, {0x470,0x470,0x471,0x470,1,-1}, {0x471,0x470,0x471,0x470,1,-1},
{0x472,0x472,0x473,0x472,1,-1}, {0x473,0x472,0x473,0x472,1,-1}, {0x474,0x474,0x475,0x474,1,-1}, {0x475,0x474,0x475,0x474,1,-1},
{0x476,0x476,0x477,0x476,1,-1}, {0x477,0x476,0x477,0x476,1,-1}, {0x478,0x478,0x479,0x478,1,-1}, {0x479,0x478,0x479,0x478,1,-1},
{0x47A,0x47A,0x47B,0x47A,1,-1}, {0x47B,0x47A,0x47B,0x47A,1,-1}, {0x47C,0x47C,0x47D,0x47C,1,-1}, {0x47D,0x47C,0x47D,0x47C,1,-1},
{0x47E,0x47E,0x47F,0x47E,1,-1}, {0x47F,0x47E,0x47F,0x47E,1,-1}, {0x480,0x480,0x481,0x480,1,-1}, {0x481,0x480,0x481,0x480,1,-1},
{0x48C,0x48C,0x48D,0x48C,1,-1}, {0x48D,0x48C,0x48D,0x48C,1,-1}, {0x48E,0x48E,0x48F,0x48E,1,-1}, {0x48F,0x48E,0x48F,0x48E,1,-1},
{0x490,0x490,0x491,0x490,1,-1}, {0x491,0x490,0x491,0x490,1,-1}, {0x492,0x492,0x493,0x492,1,-1}, {0x493,0x492,0x493,0x492,1,-1},
{0x494,0x494,0x495,0x494,1,-1}, {0x495,0x494,0x495,0x494,1,-1}, {0x496,0x496,0x497,0x496,1,-1}, {0x497,0x496,0x497,0x496,1,-1},
{0x498,0x498,0x499,0x498,1,-1}, {0x499,0x498,0x499,0x498,1,-1}, {0x49A,0x49A,0x49B,0x49A,1,-1}, {0x49B,0x49A,0x49B,0x49A,1,-1},
{0x49C,0x49C,0x49D,0x49C,1,-1}, {0x49D,0x49C,0x49D,0x49C,1,-1}, {0x49E,0x49E,0x49F,0x49E,1,-1}, {0x49F,0x49E,0x49F,0x49E,1,-1},
{0x4A0,0x4A0,0x4A1,0x4A0,1,-1}, {0x4A1,0x4A0,0x4A1,0x4A0,1,-1}, {0x4A2,0x4A2,0x4A3,0x4A2,1,-1}, {0x4A3,0x4A2,0x4A3,0x4A2,1,-1},
{0x4A4,0x4A4,0x4A5,0x4A4,1,-1}, {0x4A5,0x4A4,0x4A5,0x4A4,1,-1}, {0x4A6,0x4A6,0x4A7,0x4A6,1,-1}, {0x4A7,0x4A6,0x4A7,0x4A6,1,-1},
{0x4A8,0x4A8,0x4A9,0x4A8,1,-1}, {0x4A9,0x4A8,0x4A9,0x4A8,1,-1}, {0x4AA,0x4AA,0x4AB,0x4AA,1,-1}, {0x4AB,0x4AA,0x4AB,0x4AA,1,-1},
{0x4AC,0x4AC,0x4AD,0x4AC,1,-1}, {0x4AD,0x4AC,0x4AD,0x4AC,1,-1}, {0x4AE,0x4AE,0x4AF,0x4AE,1,-1}, {0x4AF,0x4AE,0x4AF,0x4AE,1,-1},
{0x4B0,0x4B0,0x4B1,0x4B0,1,-1}, {0x4B1,0x4B0,0x4B1,0x4B0,1,-1}, {0x4B2,0x4B2,0x4B3,0x4B2,1,-1}, {0x4B3,0x4B2,0x4B3,0x4B2,1,-1},
{0x4B4,0x4B4,0x4B5,0x4B4,1,-1}, {0x4B5,0x4B4,0x4B5,0x4B4,1,-1}, {0x4B6,0x4B6,0x4B7,0x4B6,1,-1}, {0x4B7,0x4B6,0x4B7,0x4B6,1,-1},
{0x4B8,0x4B8,0x4B9,0x4B8,1,-1}, {0x4B9,0x4B8,0x4B9,0x4B8,1,-1}, {0x4BA,0x4BA,0x4BB,0x4BA,1,-1}, {0x4BB,0x4BA,0x4BB,0x4BA,1,-1},
{0x4BC,0x4BC,0x4BD,0x4BC,1,-1}, {0x4BD,0x4BC,0x4BD,0x4BC,1,-1}, {0x4BE,0x4BE,0x4BF,0x4BE,1,-1}, {0x4BF,0x4BE,0x4BF,0x4BE,1,-1},
{0x4C0,0x4C0,0x4C0,0x4C0,1,-1}, {0x4C1,0x4C1,0x4C2,0x4C1,1,-1}, {0x4C2,0x4C1,0x4C2,0x4C1,1,-1}, {0x4C3,0x4C3,0x4C4,0x4C3,1,-1},
{0x4C4,0x4C3,0x4C4,0x4C3,1,-1}, {0x4C7,0x4C7,0x4C8,0x4C7,1,-1}, {0x4C8,0x4C7,0x4C8,0x4C7,1,-1}, {0x4CB,0x4CB,0x4CC,0x4CB,1,-1},
{0x4CC,0x4CB,0x4CC,0x4CB,1,-1}, {0x4D0,0x4D0,0x4D1,0x4D0,1,-1}, {0x4D1,0x4D0,0x4D1,0x4D0,1,-1}, {0x4D2,0x4D2,0x4D3,0x4D2,1,-1},
{0x4D3,0x4D2,0x4D3,0x4D2,1,-1}, {0x4D4,0x4D4,0x4D5,0x4D4,1,-1}, {0x4D5,0x4D4,0x4D5,0x4D4,1,-1}, {0x4D6,0x4D6,0x4D7,0x4D6,1,-1},
{0x4D7,0x4D6,0x4D7,0x4D6,1,-1}, {0x4D8,0x4D8,0x4D9,0x4D8,1,-1}, {0x4D9,0x4D8,0x4D9,0x4D8,1,-1}, {0x4DA,0x4DA,0x4DB,0x4DA,1,-1},
{0x4DB,0x4DA,0x4DB,0x4DA,1,-1}, {0x4DC,0x4DC,0x4DD,0x4DC,1,-1}, {0x4DD,0x4DC,0x4DD,0x4DC,1,-1}, {0x4DE,0x4DE,0x4DF,0x4DE,1,-1},
{0x4DF,0x4DE,0x4DF,0x4DE,1,-1}, {0x4E0,0x4E0,0x4E1,0x4E0,1,-1}, {0x4E1,0x4E0,0x4E1,0x4E0,1,-1}, {0x4E2,0x4E2,0x4E3,0x4E2,1,-1},
{0x4E3,0x4E2,0x4E3,0x4E2,1,-1}, {0x4E4,0x4E4,0x4E5,0x4E4,1,-1}, {0x4E5,0x4E4,0x4E5,0x4E4,1,-1}, {0x4E6,0x4E6,0x4E7,0x4E6,1,-1},
{0x4E7,0x4E6,0x4E7,0x4E6,1,-1}, {0x4E8,0x4E8,0x4E9,0x4E8,1,-1}, {0x4E9,0x4E8,0x4E9,0x4E8,1,-1}, {0x4EA,0x4EA,0x4EB,0x4EA,1,-1},
{0x4EB,0x4EA,0x4EB,0x4EA,1,-1}, {0x4EC,0x4EC,0x4ED,0x4EC,1,-1}, {0x4ED,0x4EC,0x4ED,0x4EC,1,-1}, {0x4EE,0x4EE,0x4EF,0x4EE,1,-1},
{0x4EF,0x4EE,0x4EF,0x4EE,1,-1}, {0x4F0,0x4F0,0x4F1,0x4F0,1,-1}, {0x4F1,0x4F0,0x4F1,0x4F0,1,-1}, {0x4F2,0x4F2,0x4F3,0x4F2,1,-1},
{0x4F3,0x4F2,0x4F3,0x4F2,1,-1}, {0x4F4,0x4F4,0x4F5,0x4F4,1,-1}, {0x4F5,0x4F4,0x4F5,0x4F4,1,-1}, {0x4F8,0x4F8,0x4F9,0x4F8,1,-1},
{0x4F9,0x4F8,0x4F9,0x4F8,1,-1}, {0x531,0x531,0x561,0x531,1,-1}, {0x532,0x532,0x562,0x532,1,-1}, {0x533,0x533,0x563,0x533,1,-1},
{0x534,0x534,0x564,0x534,1,-1}, {0x535,0x535,0x565,0x535,1,-1}, {0x536,0x536,0x566,0x536,1,-1}, {0x537,0x537,0x567,0x537,1,-1},
{0x538,0x538,0x568,0x538,1,-1}, {0x539,0x539,0x569,0x539,1,-1}, {0x53A,0x53A,0x56A,0x53A,1,-1}, {0x53B,0x53B,0x56B,0x53B,1,-1},
{0x53C,0x53C,0x56C,0x53C,1,-1}, {0x53D,0x53D,0x56D,0x53D,1,-1}, {0x53E,0x53E,0x56E,0x53E,1,-1}, {0x53F,0x53F,0x56F,0x53F,1,-1},
{0x540,0x540,0x570,0x540,1,-1}, {0x541,0x541,0x571,0x541,1,-1}, {0x542,0x542,0x572,0x542,1,-1}, {0x543,0x543,0x573,0x543,1,-1},
{0x544,0x544,0x574,0x544,1,-1}, {0x545,0x545,0x575,0x545,1,-1}, {0x546,0x546,0x576,0x546,1,-1}, {0x547,0x547,0x577,0x547,1,-1},
{0x548,0x548,0x578,0x548,1,-1}, {0x549,0x549,0x579,0x549,1,-1}, {0x54A,0x54A,0x57A,0x54A,1,-1}, {0x54B,0x54B,0x57B,0x54B,1,-1},
{0x54C,0x54C,0x57C,0x54C,1,-1}, {0x54D,0x54D,0x57D,0x54D,1,-1}, {0x54E,0x54E,0x57E,0x54E,1,-1}, {0x54F,0x54F,0x57F,0x54F,1,-1},
{0x550,0x550,0x580,0x550,1,-1}, {0x551,0x551,0x581,0x551,1,-1}, {0x552,0x552,0x582,0x552,1,-1}, {0x553,0x553,0x583,0x553,1,-1},
{0x554,0x554,0x584,0x554,1,-1}, {0x555,0x555,0x585,0x555,1,-1}, {0x556,0x556,0x586,0x556,1,-1}, {0x561,0x531,0x561,0x531,1,-1},
{0x562,0x532,0x562,0x532,1,-1}, {0x563,0x533,0x563,0x533,1,-1}, {0x564,0x534,0x564,0x534,1,-1}, {0x565,0x535,0x565,0x535,1,-1},
{0x566,0x536,0x566,0x536,1,-1}, {0x567,0x537,0x567,0x537,1,-1}, {0x568,0x538,0x568,0x538,1,-1}, {0x569,0x539,0x569,0x539,1,-1},
{0x56A,0x53A,0x56A,0x53A,1,-1}, {0x56B,0x53B,0x56B,0x53B,1,-1}, {0x56C,0x53C,0x56C,0x53C,1,-1}, {0x56D,0x53D,0x56D,0x53D,1,-1},
{0x56E,0x53E,0x56E,0x53E,1,-1}, {0x56F,0x53F,0x56F,0x53F,1,-1}, {0x570,0x540,0x570,0x540,1,-1}, {0x571,0x541,0x571,0x541,1,-1},
{0x572,0x542,0x572,0x542,1,-1}, {0x573,0x543,0x573,0x543,1,-1}, {0x574,0x544,0x574,0x544,1,-1}, {0x575,0x545,0x575,0x545,1,-1},
{0x576,0x546,0x576,0x546,1,-1}, {0x577,0x547,0x577,0x547,1,-1}, {0x578,0x548,0x578,0x548,1,-1}, {0x579,0x549,0x579,0x549,1,-1},
{0x57A,0x54A,0x57A,0x54A,1,-1}, {0x57B,0x54B,0x57B,0x54B,1,-1}, {0x57C,0x54C,0x57C,0x54C,1,-1}, {0x57D,0x54D,0x57D,0x54D,1,-1},
{0x57E,0x54E,0x57E,0x54E,1,-1}, {0x57F,0x54F,0x57F,0x54F,1,-1}, {0x580,0x550,0x580,0x550,1,-1}, {0x581,0x551,0x581,0x551,1,-1},
{0x582,0x552,0x582,0x552,1,-1}, {0x583,0x553,0x583,0x553,1,-1}, {0x584,0x554,0x584,0x554,1,-1}, {0x585,0x555,0x585,0x555,1,-1},
{0x586,0x556,0x586,0x556,1,-1}, {0x587,0x587,0x587,0x587,1,-1}, {0x660,0x660,0x660,0x660,0,0}, {0x661,0x661,0x661,0x661,0,1},
{0x662,0x662,0x662,0x662,0,2}, {0x663,0x663,0x663,0x663,0,3}, {0x664,0x664,0x664,0x664,0,4}, {0x665,0x665,0x665,0x665,0,5},
{0x666,0x666,0x666,0x666,0,6}, {0x667,0x667,0x667,0x667,0,7}, {0x668,0x668,0x668,0x668,0,8}, {0x669,0x669,0x669,0x669,0,9},
{0x6F0,0x6F0,0x6F0,0x6F0,0,0}, {0x6F1,0x6F1,0x6F1,0x6F1,0,1}, {0x6F2,0x6F2,0x6F2,0x6F2,0,2}, {0x6F3,0x6F3,0x6F3,0x6F3,0,3},
{0x6F4,0x6F4,0x6F4,0x6F4,0,4}, {0x6F5,0x6F5,0x6F5,0x6F5,0,5}, {0x6F6,0x6F6,0x6F6,0x6F6,0,6}, {0x6F7,0x6F7,0x6F7,0x6F7,0,7},
{0x6F8,0x6F8,0x6F8,0x6F8,0,8}, {0x6F9,0x6F9,0x6F9,0x6F9,0,9}, {0x966,0x966,0x966,0x966,0,0}, {0x967,0x967,0x967,0x967,0,1},
{0x968,0x968,0x968,0x968,0,2}, {0x969,0x969,0x969,0x969,0,3}, {0x96A,0x96A,0x96A,0x96A,0,4}, {0x96B,0x96B,0x96B,0x96B,0,5},
{0x96C,0x96C,0x96C,0x96C,0,6}, {0x96D,0x96D,0x96D,0x96D,0,7}, {0x96E,0x96E,0x96E,0x96E,0,8}, {0x96F,0x96F,0x96F,0x96F,0,9},
{0x9E6,0x9E6,0x9E6,0x9E6,0,0}, {0x9E7,0x9E7,0x9E7,0x9E7,0,1}, {0x9E8,0x9E8,0x9E8,0x9E8,0,2}, {0x9E9,0x9E9,0x9E9,0x9E9,0,3},
{0x9EA,0x9EA,0x9EA,0x9EA,0,4}, {0x9EB,0x9EB,0x9EB,0x9EB,0,5}, {0x9EC,0x9EC,0x9EC,0x9EC,0,6}, {0x9ED,0x9ED,0x9ED,0x9ED,0,7},
{0x9EE,0x9EE,0x9EE,0x9EE,0,8}, {0x9EF,0x9EF,0x9EF,0x9EF,0,9}, {0xA66,0xA66,0xA66,0xA66,0,0}, {0xA67,0xA67,0xA67,0xA67,0,1},
{0xA68,0xA68,0xA68,0xA68,0,2}, {0xA69,0xA69,0xA69,0xA69,0,3}, {0xA6A,0xA6A,0xA6A,0xA6A,0,4}, {0xA6B,0xA6B,0xA6B,0xA6B,0,5},
{0xA6C,0xA6C,0xA6C,0xA6C,0,6}, {0xA6D,0xA6D,0xA6D,0xA6D,0,7}, {0xA6E,0xA6E,0xA6E,0xA6E,0,8}, {0xA6F,0xA6F,0xA6F,0xA6F,0,9},
{0xAE7,0xAE7,0xAE7,0xAE7,0,1}, {0xAE8,0xAE8,0xAE8,0xAE8,0,2}, {0xAE9,0xAE9,0xAE9,0xAE9,0,3}, {0xAEA,0xAEA,0xAEA,0xAEA,0,4},
{0xAEB,0xAEB,0xAEB,0xAEB,0,5}, {0xAEC,0xAEC,0xAEC,0xAEC,0,6}, {0xAED,0xAED,0xAED,0xAED,0,7}, {0xAEE,0xAEE,0xAEE,0xAEE,0,8},
{0xAEF,0xAEF,0xAEF,0xAEF,0,9}, {0xB66,0xB66,0xB66,0xB66,0,0}, {0xB67,0xB67,0xB67,0xB67,0,1}, {0xB68,0xB68,0xB68,0xB68,0,2},
{0xB69,0xB69,0xB69,0xB69,0,3}, {0xB6A,0xB6A,0xB6A,0xB6A,0,4}, {0xB6B,0xB6B,0xB6B,0xB6B,0,5}, {0xB6C,0xB6C,0xB6C,0xB6C,0,6},
{0xB6D,0xB6D,0xB6D,0xB6D,0,7}, {0xB6E,0xB6E,0xB6E,0xB6E,0,8}, {0xB6F,0xB6F,0xB6F,0xB6F,0,9}, {0xBE6,0xBE6,0xBE6,0xBE6,0,0},
{0xBE7,0xBE7,0xBE7,0xBE7,0,1}, {0xBE8,0xBE8,0xBE8,0xBE8,0,2}, {0xBE9,0xBE9,0xBE9,0xBE9,0,3}, {0xBEA,0xBEA,0xBEA,0xBEA,0,4},
{0xBEB,0xBEB,0xBEB,0xBEB,0,5}, {0xBEC,0xBEC,0xBEC,0xBEC,0,6}, {0xBED,0xBED,0xBED,0xBED,0,7}, {0xBEE,0xBEE,0xBEE,0xBEE,0,8},
{0xBEF,0xBEF,0xBEF,0xBEF,0,9}, {0xC66,0xC66,0xC66,0xC66,0,0}, {0xC67,0xC67,0xC67,0xC67,0,1}, {0xC68,0xC68,0xC68,0xC68,0,2},
{0xC69,0xC69,0xC69,0xC69,0,3}, {0xC6A,0xC6A,0xC6A,0xC6A,0,4}, {0xC6B,0xC6B,0xC6B,0xC6B,0,5}, {0xC6C,0xC6C,0xC6C,0xC6C,0,6},
{0xC6D,0xC6D,0xC6D,0xC6D,0,7}, {0xC6E,0xC6E,0xC6E,0xC6E,0,8}, {0xC6F,0xC6F,0xC6F,0xC6F,0,9}, {0xCE6,0xCE6,0xCE6,0xCE6,0,0},
{0xCE7,0xCE7,0xCE7,0xCE7,0,1}, {0xCE8,0xCE8,0xCE8,0xCE8,0,2}, {0xCE9,0xCE9,0xCE9,0xCE9,0,3}, {0xCEA,0xCEA,0xCEA,0xCEA,0,4},
{0xCEB,0xCEB,0xCEB,0xCEB,0,5}, {0xCEC,0xCEC,0xCEC,0xCEC,0,6}, {0xCED,0xCED,0xCED,0xCED,0,7}, {0xCEE,0xCEE,0xCEE,0xCEE,0,8},
{0xCEF,0xCEF,0xCEF,0xCEF,0,9}, {0xD66,0xD66,0xD66,0xD66,0,0}, {0xD67,0xD67,0xD67,0xD67,0,1}, {0xD68,0xD68,0xD68,0xD68,0,2},
{0xD69,0xD69,0xD69,0xD69,0,3}, {0xD6A,0xD6A,0xD6A,0xD6A,0,4}, {0xD6B,0xD6B,0xD6B,0xD6B,0,5}, {0xD6C,0xD6C,0xD6C,0xD6C,0,6},
{0xD6D,0xD6D,0xD6D,0xD6D,0,7}, {0xD6E,0xD6E,0xD6E,0xD6E,0,8}, {0xD6F,0xD6F,0xD6F,0xD6F,0,9}, {0xE50,0xE50,0xE50,0xE50,0,0},
{0xE51,0xE51,0xE51,0xE51,0,1}, {0xE52,0xE52,0xE52,0xE52,0,2}, {0xE53,0xE53,0xE53,0xE53,0,3}, {0xE54,0xE54,0xE54,0xE54,0,4},
{0xE55,0xE55,0xE55,0xE55,0,5}, {0xE56,0xE56,0xE56,0xE56,0,6}, {0xE57,0xE57,0xE57,0xE57,0,7}, {0xE58,0xE58,0xE58,0xE58,0,8},
{0xE59,0xE59,0xE59,0xE59,0,9}, {0xED0,0xED0,0xED0,0xED0,0,0}, {0xED1,0xED1,0xED1,0xED1,0,1}, {0xED2,0xED2,0xED2,0xED2,0,2},
{0xED3,0xED3,0xED3,0xED3,0,3}, {0xED4,0xED4,0xED4,0xED4,0,4}, {0xED5,0xED5,0xED5,0xED5,0,5}, {0xED6,0xED6,0xED6,0xED6,0,6},
{0xED7,0xED7,0xED7,0xED7,0,7}, {0xED8,0xED8,0xED8,0xED8,0,8}, {0xED9,0xED9,0xED9,0xED9,0,9}, {0xF20,0xF20,0xF20,0xF20,0,0},
{0xF21,0xF21,0xF21,0xF21,0,1}, {0xF22,0xF22,0xF22,0xF22,0,2}, {0xF23,0xF23,0xF23,0xF23,0,3}, {0xF24,0xF24,0xF24,0xF24,0,4},
{0xF25,0xF25,0xF25,0xF25,0,5}, {0xF26,0xF26,0xF26,0xF26,0,6}, {0xF27,0xF27,0xF27,0xF27,0,7}, {0xF28,0xF28,0xF28,0xF28,0,8},
{0xF29,0xF29,0xF29,0xF29,0,9}, {0x1040,0x1040,0x1040,0x1040,0,0}, {0x1041,0x1041,0x1041,0x1041,0,1}, {0x1042,0x1042,0x1042,0x1042,0,2},
{0x1043,0x1043,0x1043,0x1043,0,3}, {0x1044,0x1044,0x1044,0x1044,0,4}, {0x1045,0x1045,0x1045,0x1045,0,5}, {0x1046,0x1046,0x1046,0x1046,0,6},
{0x1047,0x1047,0x1047,0x1047,0,7}, {0x1048,0x1048,0x1048,0x1048,0,8}, {0x1049,0x1049,0x1049,0x1049,0,9}, {0x10A0,0x10A0,0x10A0,0x10A0,1,-1},
{0x10A1,0x10A1,0x10A1,0x10A1,1,-1}, {0x10A2,0x10A2,0x10A2,0x10A2,1,-1}, {0x10A3,0x10A3,0x10A3,0x10A3,1,-1}, {0x10A4,0x10A4,0x10A4,0x10A4,1,-1},
{0x10A5,0x10A5,0x10A5,0x10A5,1,-1}, {0x10A6,0x10A6,0x10A6,0x10A6,1,-1}, {0x10A7,0x10A7,0x10A7,0x10A7,1,-1}, {0x10A8,0x10A8,0x10A8,0x10A8,1,-1},
{0x10A9,0x10A9,0x10A9,0x10A9,1,-1}, {0x10AA,0x10AA,0x10AA,0x10AA,1,-1}, {0x10AB,0x10AB,0x10AB,0x10AB,1,-1}, {0x10AC,0x10AC,0x10AC,0x10AC,1,-1},
{0x10AD,0x10AD,0x10AD,0x10AD,1,-1}, {0x10AE,0x10AE,0x10AE,0x10AE,1,-1}, {0x10AF,0x10AF,0x10AF,0x10AF,1,-1}, {0x10B0,0x10B0,0x10B0,0x10B0,1,-1},
{0x10B1,0x10B1,0x10B1,0x10B1,1,-1}, {0x10B2,0x10B2,0x10B2,0x10B2,1,-1}, {0x10B3,0x10B3,0x10B3,0x10B3,1,-1}, {0x10B4,0x10B4,0x10B4,0x10B4,1,-1},
{0x10B5,0x10B5,0x10B5,0x10B5,1,-1}, {0x10B6,0x10B6,0x10B6,0x10B6,1,-1}, {0x10B7,0x10B7,0x10B7,0x10B7,1,-1}, {0x10B8,0x10B8,0x10B8,0x10B8,1,-1},
{0x10B9,0x10B9,0x10B9,0x10B9,1,-1}, {0x10BA,0x10BA,0x10BA,0x10BA,1,-1}, {0x10BB,0x10BB,0x10BB,0x10BB,1,-1}, {0x10BC,0x10BC,0x10BC,0x10BC,1,-1},
{0x10BD,0x10BD,0x10BD,0x10BD,1,-1}, {0x10BE,0x10BE,0x10BE,0x10BE,1,-1}, {0x10BF,0x10BF,0x10BF,0x10BF,1,-1}, {0x10C0,0x10C0,0x10C0,0x10C0,1,-1},
{0x10C1,0x10C1,0x10C1,0x10C1,1,-1}, {0x10C2,0x10C2,0x10C2,0x10C2,1,-1}, {0x10C3,0x10C3,0x10C3,0x10C3,1,-1}, {0x10C4,0x10C4,0x10C4,0x10C4,1,-1},
{0x10C5,0x10C5,0x10C5,0x10C5,1,-1}, {0x1369,0x1369,0x1369,0x1369,0,1}, {0x136A,0x136A,0x136A,0x136A,0,2}, {0x136B,0x136B,0x136B,0x136B,0,3},
{0x136C,0x136C,0x136C,0x136C,0,4}, {0x136D,0x136D,0x136D,0x136D,0,5}, {0x136E,0x136E,0x136E,0x136E,0,6}, {0x136F,0x136F,0x136F,0x136F,0,7},
{0x1370,0x1370,0x1370,0x1370,0,8}, {0x1371,0x1371,0x1371,0x1371,0,9}, {0x17E0,0x17E0,0x17E0,0x17E0,0,0}, {0x17E1,0x17E1,0x17E1,0x17E1,0,1},
{0x17E2,0x17E2,0x17E2,0x17E2,0,2}, {0x17E3,0x17E3,0x17E3,0x17E3,0,3}, {0x17E4,0x17E4,0x17E4,0x17E4,0,4}, {0x17E5,0x17E5,0x17E5,0x17E5,0,5},
{0x17E6,0x17E6,0x17E6,0x17E6,0,6}, {0x17E7,0x17E7,0x17E7,0x17E7,0,7}, {0x17E8,0x17E8,0x17E8,0x17E8,0,8}, {0x17E9,0x17E9,0x17E9,0x17E9,0,9},
{0x1810,0x1810,0x1810,0x1810,0,0}, {0x1811,0x1811,0x1811,0x1811,0,1}, {0x1812,0x1812,0x1812,0x1812,0,2}, {0x1813,0x1813,0x1813,0x1813,0,3},
{0x1814,0x1814,0x1814,0x1814,0,4}, {0x1815,0x1815,0x1815,0x1815,0,5}, {0x1816,0x1816,0x1816,0x1816,0,6}, {0x1817,0x1817,0x1817,0x1817,0,7},
{0x1818,0x1818,0x1818,0x1818,0,8}, {0x1819,0x1819,0x1819,0x1819,0,9}, {0x1E00,0x1E00,0x1E01,0x1E00,1,-1}, {0x1E01,0x1E00,0x1E01,0x1E00,1,-1},
{0x1E02,0x1E02,0x1E03,0x1E02,1,-1}, {0x1E03,0x1E02,0x1E03,0x1E02,1,-1}, {0x1E04,0x1E04,0x1E05,0x1E04,1,-1}, {0x1E05,0x1E04,0x1E05,0x1E04,1,-1},
{0x1E06,0x1E06,0x1E07,0x1E06,1,-1}, {0x1E07,0x1E06,0x1E07,0x1E06,1,-1}, {0x1E08,0x1E08,0x1E09,0x1E08,1,-1}, {0x1E09,0x1E08,0x1E09,0x1E08,1,-1},
{0x1E0A,0x1E0A,0x1E0B,0x1E0A,1,-1}, {0x1E0B,0x1E0A,0x1E0B,0x1E0A,1,-1}, {0x1E0C,0x1E0C,0x1E0D,0x1E0C,1,-1}, {0x1E0D,0x1E0C,0x1E0D,0x1E0C,1,-1},
{0x1E0E,0x1E0E,0x1E0F,0x1E0E,1,-1}, {0x1E0F,0x1E0E,0x1E0F,0x1E0E,1,-1}, {0x1E10,0x1E10,0x1E11,0x1E10,1,-1}, {0x1E11,0x1E10,0x1E11,0x1E10,1,-1},
{0x1E12,0x1E12,0x1E13,0x1E12,1,-1}, {0x1E13,0x1E12,0x1E13,0x1E12,1,-1}, {0x1E14,0x1E14,0x1E15,0x1E14,1,-1}, {0x1E15,0x1E14,0x1E15,0x1E14,1,-1},
{0x1E16,0x1E16,0x1E17,0x1E16,1,-1}, {0x1E17,0x1E16,0x1E17,0x1E16,1,-1}, {0x1E18,0x1E18,0x1E19,0x1E18,1,-1}, {0x1E19,0x1E18,0x1E19,0x1E18,1,-1},
{0x1E1A,0x1E1A,0x1E1B,0x1E1A,1,-1}, {0x1E1B,0x1E1A,0x1E1B,0x1E1A,1,-1}, {0x1E1C,0x1E1C,0x1E1D,0x1E1C,1,-1}, {0x1E1D,0x1E1C,0x1E1D,0x1E1C,1,-1},
{0x1E1E,0x1E1E,0x1E1F,0x1E1E,1,-1}, {0x1E1F,0x1E1E,0x1E1F,0x1E1E,1,-1}, {0x1E20,0x1E20,0x1E21,0x1E20,1,-1}, {0x1E21,0x1E20,0x1E21,0x1E20,1,-1},
{0x1E22,0x1E22,0x1E23,0x1E22,1,-1}, {0x1E23,0x1E22,0x1E23,0x1E22,1,-1}, {0x1E24,0x1E24,0x1E25,0x1E24,1,-1}, {0x1E25,0x1E24,0x1E25,0x1E24,1,-1},
{0x1E26,0x1E26,0x1E27,0x1E26,1,-1}, {0x1E27,0x1E26,0x1E27,0x1E26,1,-1}, {0x1E28,0x1E28,0x1E29,0x1E28,1,-1}, {0x1E29,0x1E28,0x1E29,0x1E28,1,-1},
{0x1E2A,0x1E2A,0x1E2B,0x1E2A,1,-1}, {0x1E2B,0x1E2A,0x1E2B,0x1E2A,1,-1}, {0x1E2C,0x1E2C,0x1E2D,0x1E2C,1,-1}, {0x1E2D,0x1E2C,0x1E2D,0x1E2C,1,-1},
{0x1E2E,0x1E2E,0x1E2F,0x1E2E,1,-1}, {0x1E2F,0x1E2E,0x1E2F,0x1E2E,1,-1}, {0x1E30,0x1E30,0x1E31,0x1E30,1,-1}, {0x1E31,0x1E30,0x1E31,0x1E30,1,-1},
{0x1E32,0x1E32,0x1E33,0x1E32,1,-1}, {0x1E33,0x1E32,0x1E33,0x1E32,1,-1}, {0x1E34,0x1E34,0x1E35,0x1E34,1,-1}, {0x1E35,0x1E34,0x1E35,0x1E34,1,-1},
{0x1E36,0x1E36,0x1E37,0x1E36,1,-1}, {0x1E37,0x1E36,0x1E37,0x1E36,1,-1}, {0x1E38,0x1E38,0x1E39,0x1E38,1,-1}, {0x1E39,0x1E38,0x1E39,0x1E38,1,-1},
{0x1E3A,0x1E3A,0x1E3B,0x1E3A,1,-1}, {0x1E3B,0x1E3A,0x1E3B,0x1E3A,1,-1}, {0x1E3C,0x1E3C,0x1E3D,0x1E3C,1,-1}, {0x1E3D,0x1E3C,0x1E3D,0x1E3C,1,-1},
{0x1E3E,0x1E3E,0x1E3F,0x1E3E,1,-1}, {0x1E3F,0x1E3E,0x1E3F,0x1E3E,1,-1}, {0x1E40,0x1E40,0x1E41,0x1E40,1,-1}, {0x1E41,0x1E40,0x1E41,0x1E40,1,-1},
{0x1E42,0x1E42,0x1E43,0x1E42,1,-1}, {0x1E43,0x1E42,0x1E43,0x1E42,1,-1}, {0x1E44,0x1E44,0x1E45,0x1E44,1,-1}, {0x1E45,0x1E44,0x1E45,0x1E44,1,-1},
{0x1E46,0x1E46,0x1E47,0x1E46,1,-1}, {0x1E47,0x1E46,0x1E47,0x1E46,1,-1}, {0x1E48,0x1E48,0x1E49,0x1E48,1,-1}, {0x1E49,0x1E48,0x1E49,0x1E48,1,-1},
{0x1E4A,0x1E4A,0x1E4B,0x1E4A,1,-1}, {0x1E4B,0x1E4A,0x1E4B,0x1E4A,1,-1}, {0x1E4C,0x1E4C,0x1E4D,0x1E4C,1,-1}, {0x1E4D,0x1E4C,0x1E4D,0x1E4C,1,-1},
{0x1E4E,0x1E4E,0x1E4F,0x1E4E,1,-1}, {0x1E4F,0x1E4E,0x1E4F,0x1E4E,1,-1}, {0x1E50,0x1E50,0x1E51,0x1E50,1,-1}, {0x1E51,0x1E50,0x1E51,0x1E50,1,-1},
{0x1E52,0x1E52,0x1E53,0x1E52,1,-1}, {0x1E53,0x1E52,0x1E53,0x1E52,1,-1}, {0x1E54,0x1E54,0x1E55,0x1E54,1,-1}, {0x1E55,0x1E54,0x1E55,0x1E54,1,-1},
{0x1E56,0x1E56,0x1E57,0x1E56,1,-1}, {0x1E57,0x1E56,0x1E57,0x1E56,1,-1}, {0x1E58,0x1E58,0x1E59,0x1E58,1,-1}, {0x1E59,0x1E58,0x1E59,0x1E58,1,-1},
{0x1E5A,0x1E5A,0x1E5B,0x1E5A,1,-1}, {0x1E5B,0x1E5A,0x1E5B,0x1E5A,1,-1}, {0x1E5C,0x1E5C,0x1E5D,0x1E5C,1,-1}, {0x1E5D,0x1E5C,0x1E5D,0x1E5C,1,-1},
{0x1E5E,0x1E5E,0x1E5F,0x1E5E,1,-1}, {0x1E5F,0x1E5E,0x1E5F,0x1E5E,1,-1}, {0x1E60,0x1E60,0x1E61,0x1E60,1,-1}, {0x1E61,0x1E60,0x1E61,0x1E60,1,-1},
{0x1E62,0x1E62,0x1E63,0x1E62,1,-1}, {0x1E63,0x1E62,0x1E63,0x1E62,1,-1}, {0x1E64,0x1E64,0x1E65,0x1E64,1,-1}, {0x1E65,0x1E64,0x1E65,0x1E64,1,-1},
{0x1E66,0x1E66,0x1E67,0x1E66,1,-1}, {0x1E67,0x1E66,0x1E67,0x1E66,1,-1}, {0x1E68,0x1E68,0x1E69,0x1E68,1,-1}, {0x1E69,0x1E68,0x1E69,0x1E68,1,-1},
{0x1E6A,0x1E6A,0x1E6B,0x1E6A,1,-1}, {0x1E6B,0x1E6A,0x1E6B,0x1E6A,1,-1}, {0x1E6C,0x1E6C,0x1E6D,0x1E6C,1,-1}, {0x1E6D,0x1E6C,0x1E6D,0x1E6C,1,-1},
{0x1E6E,0x1E6E,0x1E6F,0x1E6E,1,-1}, {0x1E6F,0x1E6E,0x1E6F,0x1E6E,1,-1}, {0x1E70,0x1E70,0x1E71,0x1E70,1,-1}, {0x1E71,0x1E70,0x1E71,0x1E70,1,-1},
{0x1E72,0x1E72,0x1E73,0x1E72,1,-1}, {0x1E73,0x1E72,0x1E73,0x1E72,1,-1}, {0x1E74,0x1E74,0x1E75,0x1E74,1,-1}, {0x1E75,0x1E74,0x1E75,0x1E74,1,-1},
{0x1E76,0x1E76,0x1E77,0x1E76,1,-1}, {0x1E77,0x1E76,0x1E77,0x1E76,1,-1}, {0x1E78,0x1E78,0x1E79,0x1E78,1,-1}, {0x1E79,0x1E78,0x1E79,0x1E78,1,-1},
{0x1E7A,0x1E7A,0x1E7B,0x1E7A,1,-1}, {0x1E7B,0x1E7A,0x1E7B,0x1E7A,1,-1}, {0x1E7C,0x1E7C,0x1E7D,0x1E7C,1,-1}, {0x1E7D,0x1E7C,0x1E7D,0x1E7C,1,-1},
{0x1E7E,0x1E7E,0x1E7F,0x1E7E,1,-1}, {0x1E7F,0x1E7E,0x1E7F,0x1E7E,1,-1}, {0x1E80,0x1E80,0x1E81,0x1E80,1,-1}, {0x1E81,0x1E80,0x1E81,0x1E80,1,-1},
{0x1E82,0x1E82,0x1E83,0x1E82,1,-1}, {0x1E83,0x1E82,0x1E83,0x1E82,1,-1}, {0x1E84,0x1E84,0x1E85,0x1E84,1,-1}, {0x1E85,0x1E84,0x1E85,0x1E84,1,-1},
{0x1E86,0x1E86,0x1E87,0x1E86,1,-1}, {0x1E87,0x1E86,0x1E87,0x1E86,1,-1}, {0x1E88,0x1E88,0x1E89,0x1E88,1,-1}, {0x1E89,0x1E88,0x1E89,0x1E88,1,-1},
{0x1E8A,0x1E8A,0x1E8B,0x1E8A,1,-1}, {0x1E8B,0x1E8A,0x1E8B,0x1E8A,1,-1}, {0x1E8C,0x1E8C,0x1E8D,0x1E8C,1,-1}, {0x1E8D,0x1E8C,0x1E8D,0x1E8C,1,-1},
{0x1E8E,0x1E8E,0x1E8F,0x1E8E,1,-1}, {0x1E8F,0x1E8E,0x1E8F,0x1E8E,1,-1}, {0x1E90,0x1E90,0x1E91,0x1E90,1,-1}, {0x1E91,0x1E90,0x1E91,0x1E90,1,-1},
{0x1E92,0x1E92,0x1E93,0x1E92,1,-1}, {0x1E93,0x1E92,0x1E93,0x1E92,1,-1}, {0x1E94,0x1E94,0x1E95,0x1E94,1,-1}, {0x1E95,0x1E94,0x1E95,0x1E94,1,-1},
{0x1E96,0x1E96,0x1E96,0x1E96,1,-1}, {0x1E97,0x1E97,0x1E97,0x1E97,1,-1}, {0x1E98,0x1E98,0x1E98,0x1E98,1,-1}, {0x1E99,0x1E99,0x1E99,0x1E99,1,-1},
{0x1E9A,0x1E9A,0x1E9A,0x1E9A,1,-1}, {0x1E9B,0x1E60,0x1E9B,0x1E60,1,-1}, {0x1EA0,0x1EA0,0x1EA1,0x1EA0,1,-1}, {0x1EA1,0x1EA0,0x1EA1,0x1EA0,1,-1},
{0x1EA2,0x1EA2,0x1EA3,0x1EA2,1,-1}, {0x1EA3,0x1EA2,0x1EA3,0x1EA2,1,-1}, {0x1EA4,0x1EA4,0x1EA5,0x1EA4,1,-1}, {0x1EA5,0x1EA4,0x1EA5,0x1EA4,1,-1},
{0x1EA6,0x1EA6,0x1EA7,0x1EA6,1,-1}, {0x1EA7,0x1EA6,0x1EA7,0x1EA6,1,-1}, {0x1EA8,0x1EA8,0x1EA9,0x1EA8,1,-1}, {0x1EA9,0x1EA8,0x1EA9,0x1EA8,1,-1},
{0x1EAA,0x1EAA,0x1EAB,0x1EAA,1,-1}, {0x1EAB,0x1EAA,0x1EAB,0x1EAA,1,-1}, {0x1EAC,0x1EAC,0x1EAD,0x1EAC,1,-1}, {0x1EAD,0x1EAC,0x1EAD,0x1EAC,1,-1},
{0x1EAE,0x1EAE,0x1EAF,0x1EAE,1,-1}, {0x1EAF,0x1EAE,0x1EAF,0x1EAE,1,-1}, {0x1EB0,0x1EB0,0x1EB1,0x1EB0,1,-1}, {0x1EB1,0x1EB0,0x1EB1,0x1EB0,1,-1},
{0x1EB2,0x1EB2,0x1EB3,0x1EB2,1,-1}, {0x1EB3,0x1EB2,0x1EB3,0x1EB2,1,-1}, {0x1EB4,0x1EB4,0x1EB5,0x1EB4,1,-1}, {0x1EB5,0x1EB4,0x1EB5,0x1EB4,1,-1},
{0x1EB6,0x1EB6,0x1EB7,0x1EB6,1,-1}, {0x1EB7,0x1EB6,0x1EB7,0x1EB6,1,-1}, {0x1EB8,0x1EB8,0x1EB9,0x1EB8,1,-1}, {0x1EB9,0x1EB8,0x1EB9,0x1EB8,1,-1},
{0x1EBA,0x1EBA,0x1EBB,0x1EBA,1,-1}, {0x1EBB,0x1EBA,0x1EBB,0x1EBA,1,-1}, {0x1EBC,0x1EBC,0x1EBD,0x1EBC,1,-1}, {0x1EBD,0x1EBC,0x1EBD,0x1EBC,1,-1},
{0x1EBE,0x1EBE,0x1EBF,0x1EBE,1,-1}, {0x1EBF,0x1EBE,0x1EBF,0x1EBE,1,-1}, {0x1EC0,0x1EC0,0x1EC1,0x1EC0,1,-1}, {0x1EC1,0x1EC0,0x1EC1,0x1EC0,1,-1},
{0x1EC2,0x1EC2,0x1EC3,0x1EC2,1,-1}, {0x1EC3,0x1EC2,0x1EC3,0x1EC2,1,-1}, {0x1EC4,0x1EC4,0x1EC5,0x1EC4,1,-1}, {0x1EC5,0x1EC4,0x1EC5,0x1EC4,1,-1},
{0x1EC6,0x1EC6,0x1EC7,0x1EC6,1,-1}, {0x1EC7,0x1EC6,0x1EC7,0x1EC6,1,-1}, {0x1EC8,0x1EC8,0x1EC9,0x1EC8,1,-1}, {0x1EC9,0x1EC8,0x1EC9,0x1EC8,1,-1},
{0x1ECA,0x1ECA,0x1ECB,0x1ECA,1,-1}, {0x1ECB,0x1ECA,0x1ECB,0x1ECA,1,-1}, {0x1ECC,0x1ECC,0x1ECD,0x1ECC,1,-1}, {0x1ECD,0x1ECC,0x1ECD,0x1ECC,1,-1},
{0x1ECE,0x1ECE,0x1ECF,0x1ECE,1,-1}, {0x1ECF,0x1ECE,0x1ECF,0x1ECE,1,-1}, {0x1ED0,0x1ED0,0x1ED1,0x1ED0,1,-1}, {0x1ED1,0x1ED0,0x1ED1,0x1ED0,1,-1},
{0x1ED2,0x1ED2,0x1ED3,0x1ED2,1,-1}, {0x1ED3,0x1ED2,0x1ED3,0x1ED2,1,-1}, {0x1ED4,0x1ED4,0x1ED5,0x1ED4,1,-1}, {0x1ED5,0x1ED4,0x1ED5,0x1ED4,1,-1},
{0x1ED6,0x1ED6,0x1ED7,0x1ED6,1,-1}, {0x1ED7,0x1ED6,0x1ED7,0x1ED6,1,-1}, {0x1ED8,0x1ED8,0x1ED9,0x1ED8,1,-1}, {0x1ED9,0x1ED8,0x1ED9,0x1ED8,1,-1},
{0x1EDA,0x1EDA,0x1EDB,0x1EDA,1,-1}, {0x1EDB,0x1EDA,0x1EDB,0x1EDA,1,-1}, {0x1EDC,0x1EDC,0x1EDD,0x1EDC,1,-1}, {0x1EDD,0x1EDC,0x1EDD,0x1EDC,1,-1},
{0x1EDE,0x1EDE,0x1EDF,0x1EDE,1,-1}, {0x1EDF,0x1EDE,0x1EDF,0x1EDE,1,-1}, {0x1EE0,0x1EE0,0x1EE1,0x1EE0,1,-1}, {0x1EE1,0x1EE0,0x1EE1,0x1EE0,1,-1},
{0x1EE2,0x1EE2,0x1EE3,0x1EE2,1,-1}, {0x1EE3,0x1EE2,0x1EE3,0x1EE2,1,-1}, {0x1EE4,0x1EE4,0x1EE5,0x1EE4,1,-1}, {0x1EE5,0x1EE4,0x1EE5,0x1EE4,1,-1},
{0x1EE6,0x1EE6,0x1EE7,0x1EE6,1,-1}, {0x1EE7,0x1EE6,0x1EE7,0x1EE6,1,-1}, {0x1EE8,0x1EE8,0x1EE9,0x1EE8,1,-1}, {0x1EE9,0x1EE8,0x1EE9,0x1EE8,1,-1},
{0x1EEA,0x1EEA,0x1EEB,0x1EEA,1,-1}, {0x1EEB,0x1EEA,0x1EEB,0x1EEA,1,-1}, {0x1EEC,0x1EEC,0x1EED,0x1EEC,1,-1}, {0x1EED,0x1EEC,0x1EED,0x1EEC,1,-1},
{0x1EEE,0x1EEE,0x1EEF,0x1EEE,1,-1}, {0x1EEF,0x1EEE,0x1EEF,0x1EEE,1,-1}, {0x1EF0,0x1EF0,0x1EF1,0x1EF0,1,-1}, {0x1EF1,0x1EF0,0x1EF1,0x1EF0,1,-1},
{0x1EF2,0x1EF2,0x1EF3,0x1EF2,1,-1}, {0x1EF3,0x1EF2,0x1EF3,0x1EF2,1,-1}, {0x1EF4,0x1EF4,0x1EF5,0x1EF4,1,-1}, {0x1EF5,0x1EF4,0x1EF5,0x1EF4,1,-1},
{0x1EF6,0x1EF6,0x1EF7,0x1EF6,1,-1}, {0x1EF7,0x1EF6,0x1EF7,0x1EF6,1,-1}, {0x1EF8,0x1EF8,0x1EF9,0x1EF8,1,-1}, {0x1EF9,0x1EF8,0x1EF9,0x1EF8,1,-1},
{0x1F00,0x1F08,0x1F00,0x1F08,1,-1}, {0x1F01,0x1F09,0x1F01,0x1F09,1,-1}, {0x1F02,0x1F0A,0x1F02,0x1F0A,1,-1}, {0x1F03,0x1F0B,0x1F03,0x1F0B,1,-1},
{0x1F04,0x1F0C,0x1F04,0x1F0C,1,-1}, {0x1F05,0x1F0D,0x1F05,0x1F0D,1,-1}, {0x1F06,0x1F0E,0x1F06,0x1F0E,1,-1}, {0x1F07,0x1F0F,0x1F07,0x1F0F,1,-1},
{0x1F08,0x1F08,0x1F00,0x1F08,1,-1}, {0x1F09,0x1F09,0x1F01,0x1F09,1,-1}, {0x1F0A,0x1F0A,0x1F02,0x1F0A,1,-1}, {0x1F0B,0x1F0B,0x1F03,0x1F0B,1,-1},
{0x1F0C,0x1F0C,0x1F04,0x1F0C,1,-1}, {0x1F0D,0x1F0D,0x1F05,0x1F0D,1,-1}, {0x1F0E,0x1F0E,0x1F06,0x1F0E,1,-1}, {0x1F0F,0x1F0F,0x1F07,0x1F0F,1,-1},
{0x1F10,0x1F18,0x1F10,0x1F18,1,-1}, {0x1F11,0x1F19,0x1F11,0x1F19,1,-1}, {0x1F12,0x1F1A,0x1F12,0x1F1A,1,-1}, {0x1F13,0x1F1B,0x1F13,0x1F1B,1,-1},
{0x1F14,0x1F1C,0x1F14,0x1F1C,1,-1}, {0x1F15,0x1F1D,0x1F15,0x1F1D,1,-1}, {0x1F18,0x1F18,0x1F10,0x1F18,1,-1}, {0x1F19,0x1F19,0x1F11,0x1F19,1,-1},
{0x1F1A,0x1F1A,0x1F12,0x1F1A,1,-1}, {0x1F1B,0x1F1B,0x1F13,0x1F1B,1,-1}, {0x1F1C,0x1F1C,0x1F14,0x1F1C,1,-1}, {0x1F1D,0x1F1D,0x1F15,0x1F1D,1,-1},
{0x1F20,0x1F28,0x1F20,0x1F28,1,-1}, {0x1F21,0x1F29,0x1F21,0x1F29,1,-1}, {0x1F22,0x1F2A,0x1F22,0x1F2A,1,-1}, {0x1F23,0x1F2B,0x1F23,0x1F2B,1,-1},
{0x1F24,0x1F2C,0x1F24,0x1F2C,1,-1}, {0x1F25,0x1F2D,0x1F25,0x1F2D,1,-1}, {0x1F26,0x1F2E,0x1F26,0x1F2E,1,-1}, {0x1F27,0x1F2F,0x1F27,0x1F2F,1,-1},
{0x1F28,0x1F28,0x1F20,0x1F28,1,-1}, {0x1F29,0x1F29,0x1F21,0x1F29,1,-1}, {0x1F2A,0x1F2A,0x1F22,0x1F2A,1,-1}, {0x1F2B,0x1F2B,0x1F23,0x1F2B,1,-1},
{0x1F2C,0x1F2C,0x1F24,0x1F2C,1,-1}, {0x1F2D,0x1F2D,0x1F25,0x1F2D,1,-1}, {0x1F2E,0x1F2E,0x1F26,0x1F2E,1,-1}, {0x1F2F,0x1F2F,0x1F27,0x1F2F,1,-1},
{0x1F30,0x1F38,0x1F30,0x1F38,1,-1}, {0x1F31,0x1F39,0x1F31,0x1F39,1,-1}, {0x1F32,0x1F3A,0x1F32,0x1F3A,1,-1}, {0x1F33,0x1F3B,0x1F33,0x1F3B,1,-1},
{0x1F34,0x1F3C,0x1F34,0x1F3C,1,-1}, {0x1F35,0x1F3D,0x1F35,0x1F3D,1,-1}, {0x1F36,0x1F3E,0x1F36,0x1F3E,1,-1}, {0x1F37,0x1F3F,0x1F37,0x1F3F,1,-1},
{0x1F38,0x1F38,0x1F30,0x1F38,1,-1}, {0x1F39,0x1F39,0x1F31,0x1F39,1,-1}, {0x1F3A,0x1F3A,0x1F32,0x1F3A,1,-1}, {0x1F3B,0x1F3B,0x1F33,0x1F3B,1,-1},
{0x1F3C,0x1F3C,0x1F34,0x1F3C,1,-1}, {0x1F3D,0x1F3D,0x1F35,0x1F3D,1,-1}, {0x1F3E,0x1F3E,0x1F36,0x1F3E,1,-1}, {0x1F3F,0x1F3F,0x1F37,0x1F3F,1,-1},
{0x1F40,0x1F48,0x1F40,0x1F48,1,-1}, {0x1F41,0x1F49,0x1F41,0x1F49,1,-1}, {0x1F42,0x1F4A,0x1F42,0x1F4A,1,-1}, {0x1F43,0x1F4B,0x1F43,0x1F4B,1,-1},
{0x1F44,0x1F4C,0x1F44,0x1F4C,1,-1}, {0x1F45,0x1F4D,0x1F45,0x1F4D,1,-1}, {0x1F48,0x1F48,0x1F40,0x1F48,1,-1}, {0x1F49,0x1F49,0x1F41,0x1F49,1,-1},
{0x1F4A,0x1F4A,0x1F42,0x1F4A,1,-1}, {0x1F4B,0x1F4B,0x1F43,0x1F4B,1,-1}, {0x1F4C,0x1F4C,0x1F44,0x1F4C,1,-1}, {0x1F4D,0x1F4D,0x1F45,0x1F4D,1,-1},
{0x1F50,0x1F50,0x1F50,0x1F50,1,-1}, {0x1F51,0x1F59,0x1F51,0x1F59,1,-1}, {0x1F52,0x1F52,0x1F52,0x1F52,1,-1}, {0x1F53,0x1F5B,0x1F53,0x1F5B,1,-1},
{0x1F54,0x1F54,0x1F54,0x1F54,1,-1}, {0x1F55,0x1F5D,0x1F55,0x1F5D,1,-1}, {0x1F56,0x1F56,0x1F56,0x1F56,1,-1}, {0x1F57,0x1F5F,0x1F57,0x1F5F,1,-1},
{0x1F59,0x1F59,0x1F51,0x1F59,1,-1}, {0x1F5B,0x1F5B,0x1F53,0x1F5B,1,-1}, {0x1F5D,0x1F5D,0x1F55,0x1F5D,1,-1}, {0x1F5F,0x1F5F,0x1F57,0x1F5F,1,-1},
{0x1F60,0x1F68,0x1F60,0x1F68,1,-1}, {0x1F61,0x1F69,0x1F61,0x1F69,1,-1}, {0x1F62,0x1F6A,0x1F62,0x1F6A,1,-1}, {0x1F63,0x1F6B,0x1F63,0x1F6B,1,-1},
{0x1F64,0x1F6C,0x1F64,0x1F6C,1,-1}, {0x1F65,0x1F6D,0x1F65,0x1F6D,1,-1}, {0x1F66,0x1F6E,0x1F66,0x1F6E,1,-1}, {0x1F67,0x1F6F,0x1F67,0x1F6F,1,-1},
{0x1F68,0x1F68,0x1F60,0x1F68,1,-1}, {0x1F69,0x1F69,0x1F61,0x1F69,1,-1}, {0x1F6A,0x1F6A,0x1F62,0x1F6A,1,-1}, {0x1F6B,0x1F6B,0x1F63,0x1F6B,1,-1},
{0x1F6C,0x1F6C,0x1F64,0x1F6C,1,-1}, {0x1F6D,0x1F6D,0x1F65,0x1F6D,1,-1}, {0x1F6E,0x1F6E,0x1F66,0x1F6E,1,-1}, {0x1F6F,0x1F6F,0x1F67,0x1F6F,1,-1},
{0x1F70,0x1FBA,0x1F70,0x1FBA,1,-1}, {0x1F71,0x1FBB,0x1F71,0x1FBB,1,-1}, {0x1F72,0x1FC8,0x1F72,0x1FC8,1,-1}, {0x1F73,0x1FC9,0x1F73,0x1FC9,1,-1},
{0x1F74,0x1FCA,0x1F74,0x1FCA,1,-1}, {0x1F75,0x1FCB,0x1F75,0x1FCB,1,-1}, {0x1F76,0x1FDA,0x1F76,0x1FDA,1,-1}, {0x1F77,0x1FDB,0x1F77,0x1FDB,1,-1},
{0x1F78,0x1FF8,0x1F78,0x1FF8,1,-1}, {0x1F79,0x1FF9,0x1F79,0x1FF9,1,-1}, {0x1F7A,0x1FEA,0x1F7A,0x1FEA,1,-1}, {0x1F7B,0x1FEB,0x1F7B,0x1FEB,1,-1},
{0x1F7C,0x1FFA,0x1F7C,0x1FFA,1,-1}, {0x1F7D,0x1FFB,0x1F7D,0x1FFB,1,-1}, {0x1F80,0x1F88,0x1F80,0x1F88,1,-1}, {0x1F81,0x1F89,0x1F81,0x1F89,1,-1},
{0x1F82,0x1F8A,0x1F82,0x1F8A,1,-1}, {0x1F83,0x1F8B,0x1F83,0x1F8B,1,-1}, {0x1F84,0x1F8C,0x1F84,0x1F8C,1,-1}, {0x1F85,0x1F8D,0x1F85,0x1F8D,1,-1},
{0x1F86,0x1F8E,0x1F86,0x1F8E,1,-1}, {0x1F87,0x1F8F,0x1F87,0x1F8F,1,-1}, {0x1F88,0x1F88,0x1F80,0x1F88,1,-1}, {0x1F89,0x1F89,0x1F81,0x1F89,1,-1},
{0x1F8A,0x1F8A,0x1F82,0x1F8A,1,-1}, {0x1F8B,0x1F8B,0x1F83,0x1F8B,1,-1}, {0x1F8C,0x1F8C,0x1F84,0x1F8C,1,-1}, {0x1F8D,0x1F8D,0x1F85,0x1F8D,1,-1},
{0x1F8E,0x1F8E,0x1F86,0x1F8E,1,-1}, {0x1F8F,0x1F8F,0x1F87,0x1F8F,1,-1}, {0x1F90,0x1F98,0x1F90,0x1F98,1,-1}, {0x1F91,0x1F99,0x1F91,0x1F99,1,-1},
{0x1F92,0x1F9A,0x1F92,0x1F9A,1,-1}, {0x1F93,0x1F9B,0x1F93,0x1F9B,1,-1}, {0x1F94,0x1F9C,0x1F94,0x1F9C,1,-1}, {0x1F95,0x1F9D,0x1F95,0x1F9D,1,-1},
{0x1F96,0x1F9E,0x1F96,0x1F9E,1,-1}, {0x1F97,0x1F9F,0x1F97,0x1F9F,1,-1}, {0x1F98,0x1F98,0x1F90,0x1F98,1,-1}, {0x1F99,0x1F99,0x1F91,0x1F99,1,-1},
{0x1F9A,0x1F9A,0x1F92,0x1F9A,1,-1}, {0x1F9B,0x1F9B,0x1F93,0x1F9B,1,-1}, {0x1F9C,0x1F9C,0x1F94,0x1F9C,1,-1}, {0x1F9D,0x1F9D,0x1F95,0x1F9D,1,-1},
{0x1F9E,0x1F9E,0x1F96,0x1F9E,1,-1}, {0x1F9F,0x1F9F,0x1F97,0x1F9F,1,-1}, {0x1FA0,0x1FA8,0x1FA0,0x1FA8,1,-1}, {0x1FA1,0x1FA9,0x1FA1,0x1FA9,1,-1},
{0x1FA2,0x1FAA,0x1FA2,0x1FAA,1,-1}, {0x1FA3,0x1FAB,0x1FA3,0x1FAB,1,-1}, {0x1FA4,0x1FAC,0x1FA4,0x1FAC,1,-1}, {0x1FA5,0x1FAD,0x1FA5,0x1FAD,1,-1},
{0x1FA6,0x1FAE,0x1FA6,0x1FAE,1,-1}, {0x1FA7,0x1FAF,0x1FA7,0x1FAF,1,-1}, {0x1FA8,0x1FA8,0x1FA0,0x1FA8,1,-1}, {0x1FA9,0x1FA9,0x1FA1,0x1FA9,1,-1},
{0x1FAA,0x1FAA,0x1FA2,0x1FAA,1,-1}, {0x1FAB,0x1FAB,0x1FA3,0x1FAB,1,-1}, {0x1FAC,0x1FAC,0x1FA4,0x1FAC,1,-1}, {0x1FAD,0x1FAD,0x1FA5,0x1FAD,1,-1},
{0x1FAE,0x1FAE,0x1FA6,0x1FAE,1,-1}, {0x1FAF,0x1FAF,0x1FA7,0x1FAF,1,-1}, {0x1FB0,0x1FB8,0x1FB0,0x1FB8,1,-1}, {0x1FB1,0x1FB9,0x1FB1,0x1FB9,1,-1},
{0x1FB2,0x1FB2,0x1FB2,0x1FB2,1,-1}, {0x1FB3,0x1FBC,0x1FB3,0x1FBC,1,-1}, {0x1FB4,0x1FB4,0x1FB4,0x1FB4,1,-1}, {0x1FB6,0x1FB6,0x1FB6,0x1FB6,1,-1},
{0x1FB7,0x1FB7,0x1FB7,0x1FB7,1,-1}, {0x1FB8,0x1FB8,0x1FB0,0x1FB8,1,-1}, {0x1FB9,0x1FB9,0x1FB1,0x1FB9,1,-1}, {0x1FBA,0x1FBA,0x1F70,0x1FBA,1,-1},
{0x1FBB,0x1FBB,0x1F71,0x1FBB,1,-1}, {0x1FBC,0x1FBC,0x1FB3,0x1FBC,1,-1}, {0x1FBE,0x399,0x1FBE,0x399,1,-1}, {0x1FC2,0x1FC2,0x1FC2,0x1FC2,1,-1},
{0x1FC3,0x1FCC,0x1FC3,0x1FCC,1,-1}, {0x1FC4,0x1FC4,0x1FC4,0x1FC4,1,-1}, {0x1FC6,0x1FC6,0x1FC6,0x1FC6,1,-1}, {0x1FC7,0x1FC7,0x1FC7,0x1FC7,1,-1},
{0x1FC8,0x1FC8,0x1F72,0x1FC8,1,-1}, {0x1FC9,0x1FC9,0x1F73,0x1FC9,1,-1}, {0x1FCA,0x1FCA,0x1F74,0x1FCA,1,-1}, {0x1FCB,0x1FCB,0x1F75,0x1FCB,1,-1},
{0x1FCC,0x1FCC,0x1FC3,0x1FCC,1,-1}, {0x1FD0,0x1FD8,0x1FD0,0x1FD8,1,-1}, {0x1FD1,0x1FD9,0x1FD1,0x1FD9,1,-1}, {0x1FD2,0x1FD2,0x1FD2,0x1FD2,1,-1},
{0x1FD3,0x1FD3,0x1FD3,0x1FD3,1,-1}, {0x1FD6,0x1FD6,0x1FD6,0x1FD6,1,-1}, {0x1FD7,0x1FD7,0x1FD7,0x1FD7,1,-1}, {0x1FD8,0x1FD8,0x1FD0,0x1FD8,1,-1},
{0x1FD9,0x1FD9,0x1FD1,0x1FD9,1,-1}, {0x1FDA,0x1FDA,0x1F76,0x1FDA,1,-1}, {0x1FDB,0x1FDB,0x1F77,0x1FDB,1,-1}, {0x1FE0,0x1FE8,0x1FE0,0x1FE8,1,-1},
{0x1FE1,0x1FE9,0x1FE1,0x1FE9,1,-1}, {0x1FE2,0x1FE2,0x1FE2,0x1FE2,1,-1}, {0x1FE3,0x1FE3,0x1FE3,0x1FE3,1,-1}, {0x1FE4,0x1FE4,0x1FE4,0x1FE4,1,-1},
{0x1FE5,0x1FEC,0x1FE5,0x1FEC,1,-1}, {0x1FE6,0x1FE6,0x1FE6,0x1FE6,1,-1}, {0x1FE7,0x1FE7,0x1FE7,0x1FE7,1,-1}, {0x1FE8,0x1FE8,0x1FE0,0x1FE8,1,-1},
{0x1FE9,0x1FE9,0x1FE1,0x1FE9,1,-1}, {0x1FEA,0x1FEA,0x1F7A,0x1FEA,1,-1}, {0x1FEB,0x1FEB,0x1F7B,0x1FEB,1,-1}, {0x1FEC,0x1FEC,0x1FE5,0x1FEC,1,-1},
{0x1FF2,0x1FF2,0x1FF2,0x1FF2,1,-1}, {0x1FF3,0x1FFC,0x1FF3,0x1FFC,1,-1}, {0x1FF4,0x1FF4,0x1FF4,0x1FF4,1,-1}, {0x1FF6,0x1FF6,0x1FF6,0x1FF6,1,-1},
{0x1FF7,0x1FF7,0x1FF7,0x1FF7,1,-1}, {0x1FF8,0x1FF8,0x1F78,0x1FF8,1,-1}, {0x1FF9,0x1FF9,0x1F79,0x1FF9,1,-1}, {0x1FFA,0x1FFA,0x1F7C,0x1FFA,1,-1},
{0x1FFB,0x1FFB,0x1F7D,0x1FFB,1,-1}, {0x1FFC,0x1FFC,0x1FF3,0x1FFC,1,-1}, {0x207F,0x207F,0x207F,0x207F,1,-1}, {0x2102,0x2102,0x2102,0x2102,1,-1},
{0x2107,0x2107,0x2107,0x2107,1,-1}, {0x210A,0x210A,0x210A,0x210A,1,-1}, {0x210B,0x210B,0x210B,0x210B,1,-1}, {0x210C,0x210C,0x210C,0x210C,1,-1},
{0x210D,0x210D,0x210D,0x210D,1,-1}, {0x210E,0x210E,0x210E,0x210E,1,-1}, {0x210F,0x210F,0x210F,0x210F,1,-1}, {0x2110,0x2110,0x2110,0x2110,1,-1},
{0x2111,0x2111,0x2111,0x2111,1,-1}, {0x2112,0x2112,0x2112,0x2112,1,-1}, {0x2113,0x2113,0x2113,0x2113,1,-1}, {0x2115,0x2115,0x2115,0x2115,1,-1},
{0x2119,0x2119,0x2119,0x2119,1,-1}, {0x211A,0x211A,0x211A,0x211A,1,-1}, {0x211B,0x211B,0x211B,0x211B,1,-1}, {0x211C,0x211C,0x211C,0x211C,1,-1},
{0x211D,0x211D,0x211D,0x211D,1,-1}, {0x2124,0x2124,0x2124,0x2124,1,-1}, {0x2126,0x2126,0x3C9,0x2126,1,-1}, {0x2128,0x2128,0x2128,0x2128,1,-1},
{0x212A,0x212A,0x6B,0x212A,1,-1}, {0x212B,0x212B,0xE5,0x212B,1,-1}, {0x212C,0x212C,0x212C,0x212C,1,-1}, {0x212D,0x212D,0x212D,0x212D,1,-1},
{0x212F,0x212F,0x212F,0x212F,1,-1}, {0x2130,0x2130,0x2130,0x2130,1,-1}, {0x2131,0x2131,0x2131,0x2131,1,-1}, {0x2133,0x2133,0x2133,0x2133,1,-1},
{0x2134,0x2134,0x2134,0x2134,1,-1}, {0x2139,0x2139,0x2139,0x2139,1,-1}, {0x2160,0x2160,0x2170,0x2160,1,-1}, {0x2161,0x2161,0x2171,0x2161,1,-1},
{0x2162,0x2162,0x2172,0x2162,1,-1}, {0x2163,0x2163,0x2173,0x2163,1,-1}, {0x2164,0x2164,0x2174,0x2164,1,-1}, {0x2165,0x2165,0x2175,0x2165,1,-1},
{0x2166,0x2166,0x2176,0x2166,1,-1}, {0x2167,0x2167,0x2177,0x2167,1,-1}, {0x2168,0x2168,0x2178,0x2168,1,-1}, {0x2169,0x2169,0x2179,0x2169,1,-1},
{0x216A,0x216A,0x217A,0x216A,1,-1}, {0x216B,0x216B,0x217B,0x216B,1,-1}, {0x216C,0x216C,0x217C,0x216C,1,-1}, {0x216D,0x216D,0x217D,0x216D,1,-1},
{0x216E,0x216E,0x217E,0x216E,1,-1}, {0x216F,0x216F,0x217F,0x216F,1,-1}, {0x2170,0x2160,0x2170,0x2160,1,-1}, {0x2171,0x2161,0x2171,0x2161,1,-1},
{0x2172,0x2162,0x2172,0x2162,1,-1}, {0x2173,0x2163,0x2173,0x2163,1,-1}, {0x2174,0x2164,0x2174,0x2164,1,-1}, {0x2175,0x2165,0x2175,0x2165,1,-1},
{0x2176,0x2166,0x2176,0x2166,1,-1}, {0x2177,0x2167,0x2177,0x2167,1,-1}, {0x2178,0x2168,0x2178,0x2168,1,-1}, {0x2179,0x2169,0x2179,0x2169,1,-1},
{0x217A,0x216A,0x217A,0x216A,1,-1}, {0x217B,0x216B,0x217B,0x216B,1,-1}, {0x217C,0x216C,0x217C,0x216C,1,-1}, {0x217D,0x216D,0x217D,0x216D,1,-1},
{0x217E,0x216E,0x217E,0x216E,1,-1}, {0x217F,0x216F,0x217F,0x216F,1,-1}, {0x24B6,0x24B6,0x24D0,0x24B6,1,-1}, {0x24B7,0x24B7,0x24D1,0x24B7,1,-1},
{0x24B8,0x24B8,0x24D2,0x24B8,1,-1}, {0x24B9,0x24B9,0x24D3,0x24B9,1,-1}, {0x24BA,0x24BA,0x24D4,0x24BA,1,-1}, {0x24BB,0x24BB,0x24D5,0x24BB,1,-1},
{0x24BC,0x24BC,0x24D6,0x24BC,1,-1}, {0x24BD,0x24BD,0x24D7,0x24BD,1,-1}, {0x24BE,0x24BE,0x24D8,0x24BE,1,-1}, {0x24BF,0x24BF,0x24D9,0x24BF,1,-1},
{0x24C0,0x24C0,0x24DA,0x24C0,1,-1}, {0x24C1,0x24C1,0x24DB,0x24C1,1,-1}, {0x24C2,0x24C2,0x24DC,0x24C2,1,-1}, {0x24C3,0x24C3,0x24DD,0x24C3,1,-1},
{0x24C4,0x24C4,0x24DE,0x24C4,1,-1}, {0x24C5,0x24C5,0x24DF,0x24C5,1,-1}, {0x24C6,0x24C6,0x24E0,0x24C6,1,-1}, {0x24C7,0x24C7,0x24E1,0x24C7,1,-1},
{0x24C8,0x24C8,0x24E2,0x24C8,1,-1}, {0x24C9,0x24C9,0x24E3,0x24C9,1,-1}, {0x24CA,0x24CA,0x24E4,0x24CA,1,-1}, {0x24CB,0x24CB,0x24E5,0x24CB,1,-1},
{0x24CC,0x24CC,0x24E6,0x24CC,1,-1}, {0x24CD,0x24CD,0x24E7,0x24CD,1,-1}, {0x24CE,0x24CE,0x24E8,0x24CE,1,-1}, {0x24CF,0x24CF,0x24E9,0x24CF,1,-1},
{0x24D0,0x24B6,0x24D0,0x24B6,1,-1}, {0x24D1,0x24B7,0x24D1,0x24B7,1,-1}, {0x24D2,0x24B8,0x24D2,0x24B8,1,-1}, {0x24D3,0x24B9,0x24D3,0x24B9,1,-1},
{0x24D4,0x24BA,0x24D4,0x24BA,1,-1}, {0x24D5,0x24BB,0x24D5,0x24BB,1,-1}, {0x24D6,0x24BC,0x24D6,0x24BC,1,-1}, {0x24D7,0x24BD,0x24D7,0x24BD,1,-1},
{0x24D8,0x24BE,0x24D8,0x24BE,1,-1}, {0x24D9,0x24BF,0x24D9,0x24BF,1,-1}, {0x24DA,0x24C0,0x24DA,0x24C0,1,-1}, {0x24DB,0x24C1,0x24DB,0x24C1,1,-1},
{0x24DC,0x24C2,0x24DC,0x24C2,1,-1}, {0x24DD,0x24C3,0x24DD,0x24C3,1,-1}, {0x24DE,0x24C4,0x24DE,0x24C4,1,-1}, {0x24DF,0x24C5,0x24DF,0x24C5,1,-1},
{0x24E0,0x24C6,0x24E0,0x24C6,1,-1}, {0x24E1,0x24C7,0x24E1,0x24C7,1,-1}, {0x24E2,0x24C8,0x24E2,0x24C8,1,-1}, {0x24E3,0x24C9,0x24E3,0x24C9,1,-1},
{0x24E4,0x24CA,0x24E4,0x24CA,1,-1}, {0x24E5,0x24CB,0x24E5,0x24CB,1,-1}, {0x24E6,0x24CC,0x24E6,0x24CC,1,-1}, {0x24E7,0x24CD,0x24E7,0x24CD,1,-1},
{0x24E8,0x24CE,0x24E8,0x24CE,1,-1}, {0x24E9,0x24CF,0x24E9,0x24CF,1,-1}, {0x3007,0x3007,0x3007,0x3007,0,0}, {0x3021,0x3021,0x3021,0x3021,0,1},
{0x3022,0x3022,0x3022,0x3022,0,2}, {0x3023,0x3023,0x3023,0x3023,0,3}, {0x3024,0x3024,0x3024,0x3024,0,4}, {0x3025,0x3025,0x3025,0x3025,0,5},
{0x3026,0x3026,0x3026,0x3026,0,6}, {0x3027,0x3027,0x3027,0x3027,0,7}, {0x3028,0x3028,0x3028,0x3028,0,8}, {0x3029,0x3029,0x3029,0x3029,0,9},
{0xFB00,0xFB00,0xFB00,0xFB00,1,-1}, {0xFB01,0xFB01,0xFB01,0xFB01,1,-1}, {0xFB02,0xFB02,0xFB02,0xFB02,1,-1}, {0xFB03,0xFB03,0xFB03,0xFB03,1,-1},
{0xFB04,0xFB04,0xFB04,0xFB04,1,-1}, {0xFB05,0xFB05,0xFB05,0xFB05,1,-1}, {0xFB06,0xFB06,0xFB06,0xFB06,1,-1}, {0xFB13,0xFB13,0xFB13,0xFB13,1,-1},
{0xFB14,0xFB14,0xFB14,0xFB14,1,-1}, {0xFB15,0xFB15,0xFB15,0xFB15,1,-1}, {0xFB16,0xFB16,0xFB16,0xFB16,1,-1}, {0xFB17,0xFB17,0xFB17,0xFB17,1,-1},
{0xFF10,0xFF10,0xFF10,0xFF10,0,0}, {0xFF11,0xFF11,0xFF11,0xFF11,0,1}, {0xFF12,0xFF12,0xFF12,0xFF12,0,2}, {0xFF13,0xFF13,0xFF13,0xFF13,0,3},
{0xFF14,0xFF14,0xFF14,0xFF14,0,4}, {0xFF15,0xFF15,0xFF15,0xFF15,0,5}, {0xFF16,0xFF16,0xFF16,0xFF16,0,6}, {0xFF17,0xFF17,0xFF17,0xFF17,0,7},
{0xFF18,0xFF18,0xFF18,0xFF18,0,8}, {0xFF19,0xFF19,0xFF19,0xFF19,0,9}, {0xFF21,0xFF21,0xFF41,0xFF21,1,-1}, {0xFF22,0xFF22,0xFF42,0xFF22,1,-1},
{0xFF23,0xFF23,0xFF43,0xFF23,1,-1}, {0xFF24,0xFF24,0xFF44,0xFF24,1,-1}, {0xFF25,0xFF25,0xFF45,0xFF25,1,-1}, {0xFF26,0xFF26,0xFF46,0xFF26,1,-1},
{0xFF27,0xFF27,0xFF47,0xFF27,1,-1}, {0xFF28,0xFF28,0xFF48,0xFF28,1,-1}, {0xFF29,0xFF29,0xFF49,0xFF29,1,-1}, {0xFF2A,0xFF2A,0xFF4A,0xFF2A,1,-1},
{0xFF2B,0xFF2B,0xFF4B,0xFF2B,1,-1}, {0xFF2C,0xFF2C,0xFF4C,0xFF2C,1,-1}, {0xFF2D,0xFF2D,0xFF4D,0xFF2D,1,-1}, {0xFF2E,0xFF2E,0xFF4E,0xFF2E,1,-1},
{0xFF2F,0xFF2F,0xFF4F,0xFF2F,1,-1}, {0xFF30,0xFF30,0xFF50,0xFF30,1,-1}, {0xFF31,0xFF31,0xFF51,0xFF31,1,-1}, {0xFF32,0xFF32,0xFF52,0xFF32,1,-1},
{0xFF33,0xFF33,0xFF53,0xFF33,1,-1}, {0xFF34,0xFF34,0xFF54,0xFF34,1,-1}, {0xFF35,0xFF35,0xFF55,0xFF35,1,-1}, {0xFF36,0xFF36,0xFF56,0xFF36,1,-1},
{0xFF37,0xFF37,0xFF57,0xFF37,1,-1}, {0xFF38,0xFF38,0xFF58,0xFF38,1,-1}, {0xFF39,0xFF39,0xFF59,0xFF39,1,-1}, {0xFF3A,0xFF3A,0xFF5A,0xFF3A,1,-1},
{0xFF41,0xFF21,0xFF41,0xFF21,1,-1}, {0xFF42,0xFF22,0xFF42,0xFF22,1,-1}, {0xFF43,0xFF23,0xFF43,0xFF23,1,-1}, {0xFF44,0xFF24,0xFF44,0xFF24,1,-1},
{0xFF45,0xFF25,0xFF45,0xFF25,1,-1}, {0xFF46,0xFF26,0xFF46,0xFF26,1,-1}, {0xFF47,0xFF27,0xFF47,0xFF27,1,-1}, {0xFF48,0xFF28,0xFF48,0xFF28,1,-1},
{0xFF49,0xFF29,0xFF49,0xFF29,1,-1}, {0xFF4A,0xFF2A,0xFF4A,0xFF2A,1,-1}, {0xFF4B,0xFF2B,0xFF4B,0xFF2B,1,-1}, {0xFF4C,0xFF2C,0xFF4C,0xFF2C,1,-1},
{0xFF4D,0xFF2D,0xFF4D,0xFF2D,1,-1}, {0xFF4E,0xFF2E,0xFF4E,0xFF2E,1,-1}, {0xFF4F,0xFF2F,0xFF4F,0xFF2F,1,-1}, {0xFF50,0xFF30,0xFF50,0xFF30,1,-1},
{0xFF51,0xFF31,0xFF51,0xFF31,1,-1}, {0xFF52,0xFF32,0xFF52,0xFF32,1,-1}, {0xFF53,0xFF33,0xFF53,0xFF33,1,-1}, {0xFF54,0xFF34,0xFF54,0xFF34,1,-1},
{0xFF55,0xFF35,0xFF55,0xFF35,1,-1}, {0xFF56,0xFF36,0xFF56,0xFF36,1,-1}, {0xFF57,0xFF37,0xFF57,0xFF37,1,-1}, {0xFF58,0xFF38,0xFF58,0xFF38,1,-1},
{0xFF59,0xFF39,0xFF59,0xFF39,1,-1}, {0xFF5A,0xFF3A,0xFF5A,0xFF3A,1,-1},
};
