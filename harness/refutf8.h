#pragma once
// Independent reference for the library's documented UTF-8 scheme (1..6 bytes, illegal bytes escaped as 0x800000xx)
#include	<cstdint>
#include	<string>
#include	<vector>
#include	<sstream>

namespace ref {
typedef uint32_t U;

inline bool is_escape(U v) { return v >= 0x80000000u && v <= 0x800000FFu; }

// Number of bytes needed to hold v's bits
inline int utf8_len(U v)
{
	if (v < 0x80u) return 1;
	if (v < 0x800u) return 2;
	if (v < 0x10000u) return 3;
	if (v < 0x200000u) return 4;
	if (v < 0x4000000u) return 5;
	return 6;
}

inline std::string encode(U v)
{
	std::string	s;
	if (v == 0xFFFFFFFFu || is_escape(v)) return std::string(1, (char)(v & 0xFF));
	int	n = utf8_len(v);
	if (n == 1) return std::string(1, (char)v);
	static const int lead[] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC };
	s.resize(n);
	uint64_t w = v;
	for (int i = n-1; i > 0; i--) { s[i] = (char)(0x80 | (w % 64)); w /= 64; }
	s[0] = (char)(lead[n] | w);
	return s;
}

struct Step { U value; int len; };
// Decode at p; the data must be NUL terminated
inline Step decode(const unsigned char* p)
{
	int	c = p[0], n;
	U	v;
	if (c < 0x80) return { (U)c, 1 };
	else if (c < 0xC0) n = 0, v = 0;
	else if (c < 0xE0) n = 2, v = c - 0xC0;
	else if (c < 0xF0) n = 3, v = c - 0xE0;
	else if (c < 0xF8) n = 4, v = c - 0xF0;
	else if (c < 0xFC) n = 5, v = c - 0xF8;
	else n = 6, v = c - 0xFC;
	if (!n) return { 0x80000000u | c, 1 };
	for (int i = 1; i < n; i++)
	{
		if (p[i] < 0x80 || p[i] >= 0xC0) return { 0x80000000u | (U)c, 1 };
		v = v*64 + (p[i] - 0x80);
	}
	return { v, n };
}

inline std::string enc(const std::vector<U>& v) { std::string s; for (U u : v) s += encode(u); return s; }
inline std::vector<U> dec(const std::string& s)
{
	std::vector<U> r;
	const unsigned char* p = (const unsigned char*)s.c_str();
	const unsigned char* e = p + s.size();
	while (p < e) { Step t = decode(p); r.push_back(t.value); p += t.len; }
	return r;
}
inline std::string show(const std::string& s)
{
	std::string r = "\"";
	for (unsigned char c : s)
	{
		char b[8];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c >= 0x20 && c < 0x7F) r += c;
		else { snprintf(b, sizeof b, "\\x%02X", c); r += b; }
	}
	return r + "\"";
}
inline std::string show(const std::vector<U>& v) { return show(enc(v)); }
inline std::string hex(U v) { char b[16]; snprintf(b, sizeof b, "U+%X", v); return b; }
}
