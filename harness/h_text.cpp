// M01: bounded mixed variable.  U01, U02: UTF-8 conversion and scanning.
#include "pbt.h"
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <wchar.h>
#include "templates/static_mixed_var.h"
#include "utf8/utf8_util.h"
#include "utf8/utf8_mixed_var.h"
#include <memory>
using namespace CubicleSoft;
using pbt::Src; using pbt::u64; using pbt::quote; using UTF8::Util;
typedef std::vector<std::uint32_t> CPs;

namespace
{
	bool isComb(std::uint32_t c) { return (c >= 0x300 && c <= 0x36F) || (c >= 0x1DC0 && c <= 0x1DFF) || (c >= 0x20D0 && c <= 0x20FF) || (c >= 0xFE20 && c <= 0xFE2F); }
	// A character the library is willing to carry: no surrogates, no non-characters.
	bool isChar(std::uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF) && !(c >= 0xFDD0 && c <= 0xFDEF) && (c & 0xFFFE) != 0xFFFE; }
	std::string enc(std::uint32_t c, unsigned force = 0)
	{
		std::string r; unsigned n = force ? force : c <= 0x7F ? 1 : c <= 0x7FF ? 2 : c <= 0xFFFF ? 3 : 4;
		switch (n) { case 1: r += (char)c; break; case 2: r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 0x3F)); break;
			case 3: r += (char)(0xE0 | (c >> 12)); r += (char)(0x80 | ((c >> 6) & 0x3F)); r += (char)(0x80 | (c & 0x3F)); break;
			default: r += (char)(0xF0 | (c >> 18)); r += (char)(0x80 | ((c >> 12) & 0x3F)); r += (char)(0x80 | ((c >> 6) & 0x3F)); r += (char)(0x80 | (c & 0x3F)); }
		return r;
	}
	std::string encAll(const CPs &v) { std::string r; for (auto c : v) r += enc(c); return r; }
	std::string hex(const CPs &v) { std::string r = "["; char b[16]; for (size_t i = 0; i < v.size() && i < 60; i++) { snprintf(b, sizeof b, i ? " %X" : "%X", v[i]); r += b; } return r + "]"; }
	std::uint32_t genCP(Src &s, bool nul)
	{
		std::uint32_t c;
		switch (s.weighted({ 8, 4, 3, 3, 3, 2, 1 }))
		{
			case 0: c = 'a' + (std::uint32_t)s.draw(3); break;
			case 1: c = (std::uint32_t)s.range(0x80, 0x7FF); break;
			case 2: c = (std::uint32_t)s.range(0x800, 0xFFFF); break;
			case 3: c = (std::uint32_t)s.range(0x10000, 0x10FFFF); break;
			case 4: { static const std::uint32_t t[] = { 0x301, 0x300, 0x36F, 0x1DC0, 0x1DFF, 0x20D0, 0x20FF, 0xFE20, 0xFE2F }; c = t[s.draw(8)]; break; }
			case 5: { static const std::uint32_t t[] = { 0x7F, 0x80, 0x7FF, 0x800, 0xFFFD, 0x10000, 0x10FFFD, 0xD7FF, 0xE000, 0x2FF, 0x370, 0x1DBF, 0x1E00, 0x20CF, 0x2100, 0xFE1F, 0xFE30, 0xFDCF, 0xFDF0 }; c = t[s.draw(18)]; break; }
			default: c = (std::uint32_t)s.range(nul ? 0 : 1, 0x7F); break;
		}
		return c;
	}
	// Text the library carries losslessly: characters only, not starting with a combining mark.
	CPs genText(Src &s, size_t max, bool nul = false)
	{
		CPs v; for (size_t n = s.len(max); n; n--) { std::uint32_t c = genCP(s, nul); if (!isChar(c) || (v.empty() && isComb(c))) c = 'z'; v.push_back(c); }
		return v;
	}
	template <class T> struct Arr { T *p; size_t n; Arr(size_t k) : p((T *)malloc(k * sizeof(T))), n(k) { memset((void *)p, 0x5A, k * sizeof(T)); } template <class V> Arr(const V &v) : Arr((size_t)v.size()) { for (size_t i = 0; i < n; i++) p[i] = (T)v[i]; } ~Arr() { free(p); } Arr(const Arr &) = delete; };

	// Reference reading of a source: what it means, character by character, with the position after each.
	struct Item { std::uint32_t c; size_t end; bool odd; };
	template <class T> std::vector<Item> read(const T *p, size_t n, unsigned w)
	{
		std::vector<Item> r;
		for (size_t x = 0; x < n; )
		{
			std::uint32_t c = (std::uint32_t)p[x];
			if (w == 4) { x++; r.push_back({ c, x, false }); continue; }
			if (w == 2) { if (c >= 0xD800 && c <= 0xDBFF && x + 1 < n && p[x + 1] >= 0xDC00 && p[x + 1] <= 0xDFFF) { c = ((c - 0xD800) << 10 | (p[x + 1] - 0xDC00)) + 0x10000; x += 2; } else x++; r.push_back({ c, x, false }); continue; }
			auto cont = [&](size_t k) { for (size_t i = 1; i <= k; i++) if (x + i >= n || (p[x + i] & 0xC0) != 0x80) return false; return true; };
			unsigned k = c <= 0x7F ? 0 : (c & 0xE0) == 0xC0 ? 1 : (c & 0xF0) == 0xE0 ? 2 : (c & 0xF8) == 0xF0 ? 3 : 9;
			if (k == 9 || !cont(k)) { x++; r.push_back({ 0xFFFFFFFF, x, false }); continue; }
			if (k) { c &= 0x3F >> k; for (unsigned i = 1; i <= k; i++) c = c << 6 | (p[x + i] & 0x3F); }
			x += k + 1;
			bool odd = (k == 1 && c < 0x80) || (k == 2 && c < 0x800) || (k == 3 && c < 0x10000);      // Overlong.
			r.push_back({ c, x, odd });
		}
		return r;
	}
	bool validUTF8(const std::string &x)
	{
		for (auto &i : read((const std::uint8_t *)x.data(), x.size(), 1)) if (i.odd || !isChar(i.c)) return false;
		return true;
	}

	// Sources with every kind of damage.
	template <class T> std::vector<T> genSrc(Src &s, unsigned w, bool &clean)
	{
		std::vector<T> v; clean = true;
		for (size_t n = s.len(14); n; n--)
		{
			std::uint32_t c = genCP(s, true);
			if (s.chance(20))
			{
				static const std::uint32_t bad[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFDD0, 0xFDEF, 0xFFFE, 0xFFFF, 0x1FFFE, 0x10FFFF, 0x110000, 0x1FFFFF };
				c = bad[s.draw(11)];
				if (w == 4 && s.chance(30)) c = (std::uint32_t)s.u64any();
			}
			if (w == 4) v.push_back((T)c);
			else if (w == 2) { if (c > 0x10FFFF) c = 0xD801; if (c > 0xFFFF) { c -= 0x10000; v.push_back((T)(0xD800 + (c >> 10))); v.push_back((T)(0xDC00 + (c & 0x3FF))); } else v.push_back((T)c); }
			else { std::string e = enc(c, s.chance(8) && c <= 0xFFFF ? (unsigned)s.uni(c <= 0x7F ? 1 : c <= 0x7FF ? 2 : 3, 4) : 0); if (s.chance(12)) e.resize(s.draw(e.size())); else if (s.chance(8)) e[s.draw(e.size() - 1)] = (char)s.draw(255); for (char x : e) v.push_back((T)(std::uint8_t)x); }
		}
		return v;
	}

	// Large cases: a generated unit repeated to a size around a power of two, or any size.
	size_t bigSize(Src &s) { static const size_t t[] = { 256, 1024, 4096, 8192, 32768, 65536 }; return s.chance(60) ? t[s.draw(5)] - 3 + (size_t)s.draw(6) : (size_t)s.draw(70000); }
	template <class V> void enlarge(Src &s, V &v) { if (v.empty()) v.push_back('e'); size_t n = bigSize(s); V head = v; s.note("repeated %zu times", n / v.size() + 1); while (v.size() < n) v.insert(v.end(), head.begin(), head.end()); }

	template <class T> void toCase(Src &s, bool big = false)
	{
		unsigned w = sizeof(T); bool clean; std::vector<T> v = genSrc<T>(s, w, clean); if (big) enlarge(s, v);
		CPs raw(v.begin(), v.end()); s.note("source (%u-byte units) %s", w, hex(raw).c_str());
		Arr<T> src(v); std::vector<Item> it = read(src.p, src.n, w);
		bool odd = false; for (auto &i : it) if (i.odd) odd = true;
		std::string full; bool dropped = false; for (auto &i : it) { if (i.c == 0xFFFFFFFF || !isChar(i.c) || (full.empty() && isComb(i.c))) { dropped = true; continue; } full += enc(i.c); }
		// Size query, then the conversion into a buffer of any size.
		size_t need = 777; Util::ConvertToUTF8(src.p, src.n, w, NULL, need);
		size_t cap = s.chance(50) ? full.size() : s.range(0, full.size() + 4); Arr<std::uint8_t> d(cap); size_t got = cap, last = (size_t)-9; bool wantLast = s.flip();
		Util::ConvertToUTF8(src.p, src.n, w, d.p, got, wantLast ? &last : NULL);
		CHECK(s, got <= cap, "wrote %zu bytes into %zu", got, cap); std::string out((char *)d.p, got);
		s.note("into %zu bytes: %s", cap, quote(out).c_str());
		CHECK(s, validUTF8(out), "the result is not valid UTF-8");
		if (odd) return;
		CHECK(s, need == full.size(), "size query says %zu bytes, %zu are needed", need, full.size());
		std::string want; size_t end = (size_t)-9; for (auto &i : it) { if (i.c == 0xFFFFFFFF || !isChar(i.c) || (want.empty() && isComb(i.c))) continue; if (want.size() + enc(i.c).size() > cap) break; want += enc(i.c); end = i.end; }
		CHECK(s, out == want, "result %s, expected %s", quote(out).c_str(), quote(want).c_str());
		if (wantLast) CHECK(s, last == end, "the position after the last written character is %zu, expected %zu", last, end);
		// Cleaning is idempotent.
		Arr<std::uint8_t> c1(out); Arr<std::uint8_t> c2(out.size()); size_t g2 = out.size(); Util::ConvertToUTF8(c1.p, c1.n, 1, c2.p, g2);
		CHECK(s, std::string((char *)c2.p, g2) == out, "converting the result again changes it");
		if (dropped && out.size() >= 2) s.nontrivial(); else if (out.size() < full.size()) s.nontrivial();
		for (auto c : want) if ((unsigned char)c >= 0x80) { s.nontrivial(); break; }
	}

	template <class T> std::vector<T> units(const CPs &v)
	{
		std::vector<T> r; for (auto c : v) { if (sizeof(T) == 1) for (char x : enc(c)) r.push_back((T)(std::uint8_t)x); else if (sizeof(T) == 2 && c > 0xFFFF) { r.push_back((T)(0xD800 + ((c - 0x10000) >> 10))); r.push_back((T)(0xDC00 + ((c - 0x10000) & 0x3FF))); } else r.push_back((T)c); }
		return r;
	}
	size_t allocN; void *countAlloc(void *m, size_t n) { *(size_t *)m += n; allocN++; return malloc(n); }

	template <class T> void fromCase(Src &s, bool big = false)
	{
		unsigned w = sizeof(T); bool damaged = s.chance(40), clean; CPs text; std::vector<std::uint8_t> v; if (damaged) v = genSrc<std::uint8_t>(s, 1, clean); else { text = genText(s, 20, true); std::string e = encAll(text); v.assign(e.begin(), e.end()); }
		if (big) enlarge(s, v);
		s.note("source %s to %u-byte units", quote(std::string(v.begin(), v.end())).c_str(), w);
		Arr<std::uint8_t> src(v); std::vector<Item> it = read(src.p, src.n, 1); bool odd = false, stop = false; CPs keep; size_t sure = (size_t)-1; for (auto &i : it) { if (i.odd) odd = true; if (i.c == 0xFFFFFFFF) continue; if (!isChar(i.c) || (keep.empty() && isComb(i.c))) { if (!stop) sure = keep.size(); stop = true; continue; } keep.push_back(i.c); }
		std::vector<T> full = units<T>(keep);
		size_t cap = s.chance(50) ? full.size() : s.range(0, full.size() + 3); Arr<T> d(cap); size_t got = cap;
		Util::ConvertFromUTF8(src.p, src.n, d.p, got, w);
		CHECK(s, got <= cap, "wrote %zu units into %zu", got, cap); std::vector<T> out(d.p, d.p + got);
		s.note("into %zu units: %s", cap, hex(CPs(out.begin(), out.end())).c_str());
		std::vector<Item> back = read(d.p, got, w); for (auto &i : back) CHECK(s, isChar(i.c) && !i.odd, "the result is not well formed");
		if (odd) return;
		// Kept characters, in order, from the start; all that fit when nothing had to be refused.
		CPs want; size_t used = 0, nsure = sure < keep.size() ? sure : keep.size();
		for (auto c : keep) { size_t k = units<T>(CPs(1, c)).size(); if (used + k > cap) break; used += k; want.push_back(c); }
		CPs g; for (auto &i : back) g.push_back(i.c);
		CHECK(s, g.size() <= want.size() && std::equal(g.begin(), g.end(), want.begin()), "result %s is not a prefix of %s", hex(g).c_str(), hex(want).c_str());
		CHECK(s, g.size() >= (want.size() < nsure ? want.size() : nsure), "result %s, expected %s", hex(g).c_str(), hex(want).c_str());
		// The size query agrees with the conversion.
		size_t need = s.flip() ? 0 : (size_t)s.draw(99999); Util::ConvertFromUTF8(src.p, src.n, NULL, need, w); Arr<T> d2(need); size_t g2 = need; Util::ConvertFromUTF8(src.p, src.n, d2.p, g2, w);
		CHECK(s, g2 == need, "size query says %zu units, the conversion writes %zu", need, g2);
		if (!stop) CHECK(s, need == full.size(), "size query says %zu units, %zu are needed", need, full.size());
		if (keep.size() >= 2 && full.size() != v.size()) s.nontrivial();
	}

	// Zero-terminated, allocating conversions.
	template <class T> void allocCase(Src &s, bool big = false)
	{
		unsigned w = sizeof(T); CPs text = genText(s, 16); if (big) enlarge(s, text); std::vector<T> u = units<T>(text); u.push_back(0); Arr<T> src(u); s.note("text %s in %u-byte units", hex(text).c_str(), w);
		std::string e = encAll(text); size_t last = 0, mgr = 0; bool alt = s.flip(); allocN = 0;
		char *r = alt ? Util::ConvertToUTF8(src.p, w, s.flip() ? &last : NULL, &mgr, countAlloc) : Util::ConvertToUTF8(src.p, w);
		CHECK(s, r, "no result"); bool ok = !memcmp(r, e.c_str(), e.size() + 1); std::string got(ok ? r : ""); if (alt) { CHECK(s, allocN == 1 && mgr >= e.size() + 1, "custom allocator not used"); free(r); } else delete[] (std::uint8_t *)r;
		CHECK(s, ok, "converted text differs");
		std::string z = e; z.push_back(0); Arr<char> zs(z); mgr = 0; allocN = 0;
		T *b = (T *)(alt ? Util::ConvertFromUTF8(zs.p, w, &mgr, countAlloc) : Util::ConvertFromUTF8(zs.p, w));
		CHECK(s, b, "no result"); ok = !memcmp(b, u.data(), u.size() * sizeof(T)); if (alt) { CHECK(s, allocN == 1, "custom allocator not used"); free(b); } else delete[] b;
		CHECK(s, ok, "text does not survive the round trip");
		CHECK(s, !Util::ConvertToUTF8(src.p, 3) && !Util::ConvertFromUTF8(zs.p, 3), "an unsupported unit width was accepted");
		if (text.size() >= 2 && e.size() != text.size()) s.nontrivial();
	}
}

PROP(U01, to_utf8_from_utf8, 3, "UTF-8 sources with truncated, stray, overlong and forbidden sequences into buffers of every size; non-trivial = multi-byte output, or something dropped or cut") { toCase<std::uint8_t>(s); }
PROP(U01, to_utf8_from_utf16, 2, "UTF-16 sources with lone surrogates; non-trivial as above") { toCase<std::uint16_t>(s); }
PROP(U01, to_utf8_from_utf32, 2, "UTF-32 sources with arbitrary values; non-trivial as above") { toCase<std::uint32_t>(s); }
PROP(U01, from_utf8, 3, "UTF-8 sources (valid and damaged) to each width into buffers of every size; non-trivial = two or more characters, at least one multi-byte") { switch (s.draw(2)) { case 0: fromCase<std::uint8_t>(s); break; case 1: fromCase<std::uint16_t>(s); break; default: fromCase<std::uint32_t>(s); } }
PROP(U01, allocating_round_trip, 2, "zero-terminated text through both allocating conversions and back; non-trivial = two or more characters, at least one multi-byte") { switch (s.draw(2)) { case 0: allocCase<std::uint8_t>(s); break; case 1: allocCase<std::uint16_t>(s); break; default: allocCase<std::uint32_t>(s); } }

PROP(U01, conversion_large, 1, "sources of up to 70000 units made by repeating a generated piece, through every conversion; non-trivial as above")
{
	switch (s.draw(8)) { case 0: toCase<std::uint8_t>(s, true); break; case 1: toCase<std::uint16_t>(s, true); break; case 2: toCase<std::uint32_t>(s, true); break; case 3: fromCase<std::uint8_t>(s, true); break; case 4: fromCase<std::uint16_t>(s, true); break; case 5: fromCase<std::uint32_t>(s, true); break; case 6: allocCase<std::uint8_t>(s, true); break; case 7: allocCase<std::uint16_t>(s, true); break; default: allocCase<std::uint32_t>(s, true); }
}

static void scanCase(Src &s, bool big);
PROP(U02, scanning, 4, "zero-terminated UTF-8 strings with combining marks and damage; non-trivial = a combining mark or a multi-byte character is visited") { scanCase(s, false); }
PROP(U02, scanning_large, 1, "strings of up to 70000 bytes made by repeating a generated piece; non-trivial as above") { scanCase(s, true); }
void scanCase(Src &s, bool big)
{
	std::vector<std::uint8_t> v; bool clean;
	if (s.chance(30)) v = genSrc<std::uint8_t>(s, 1, clean); else { CPs t; for (size_t n = s.len(14); n; n--) { std::uint32_t c = genCP(s, false); if (!isChar(c)) c = 'q'; t.push_back(c); } std::string e = encAll(t); v.assign(e.begin(), e.end()); }
	if (big) enlarge(s, v);
	for (auto &c : v) if (!c) c = 'n';
	v.push_back(0); Arr<char> str(v); std::string text(str.p, v.size() - 1); s.note("string %s", quote(text).c_str());
	std::vector<Item> it = read((const std::uint8_t *)str.p, text.size(), 1); bool odd = false; std::vector<Item> ok; std::vector<size_t> at; size_t pos = 0;
	for (auto &i : it) { if (i.odd || (i.c != 0xFFFFFFFF && !isChar(i.c))) odd = true; if (i.c == 0xFFFFFFFF || (ok.empty() && isComb(i.c))) break; ok.push_back(i); at.push_back(pos); pos = i.end; }
	// Walk.
	std::uint32_t cp = 0, nx = 0; size_t p = 0, sz = 0; bool comb = false; size_t k = 0, nonComb = 0;
	while (Util::NextCodePoint(cp, nx, str.p, p, sz, comb))
	{
		CHECK(s, k <= text.size(), "more characters than bytes"); CHECK(s, p <= text.size(), "position %zu is outside the string", p);
		if (!odd) { CHECK(s, k < ok.size(), "character %zu (%X) after the end of the readable text", k, cp); CHECK(s, cp == ok[k].c, "character %zu is %X, expected %X", k, cp, ok[k].c); bool nc = k + 1 < ok.size() && isComb(ok[k + 1].c); CHECK(s, comb == nc, "combining flag of character %zu is %d", k, comb); if (k + 1 < ok.size()) CHECK(s, nx == ok[k + 1].c, "look-ahead is %X, expected %X", nx, ok[k + 1].c); else CHECK(s, nx == 0, "look-ahead is %X after the last character", nx);
			size_t wp = k + 1 < ok.size() ? ok[k + 1].end : ok[k].end; CHECK(s, p == wp, "position %zu after character %zu, expected %zu", p, k, wp); CHECK(s, sz == text.size(), "size %zu, expected %zu", sz, text.size()); }
		k++;
	}
	size_t len = Util::strlen(str.p);
	std::uint32_t f = ok.size() && s.flip() ? ok[s.draw(ok.size() - 1)].c : genCP(s, false); bool allow = s.flip(); size_t rp = 12345; bool found = Util::FindCodePoint(rp, f, str.p, allow);
	s.note("find %X (combining %d): %d at %zu; length %zu", f, allow, found, rp, len);
	CHECK(s, !found || rp < text.size(), "found at %zu, outside the string", rp);
	char ac = 0; std::string ascii, wantA; p = 0; while (Util::NextASCIICodePoint(ac, nx, str.p, p, sz)) { ascii += ac; CHECK(s, ascii.size() <= text.size(), "too many ASCII characters"); }
	for (char c : ascii) CHECK(s, (unsigned char)c <= 0x7F, "a non-ASCII character was returned");
	CHECK(s, Util::IsCombiningCodePoint(f) == isComb(f), "IsCombiningCodePoint(%X)", f);
	if (odd) return;
	CHECK(s, k == ok.size(), "%zu characters visited, expected %zu", k, ok.size());
	for (size_t i = 0; i < ok.size(); i++) if (!isComb(ok[i].c)) nonComb++;
	CHECK(s, len == nonComb, "length %zu, expected %zu", len, nonComb);
	size_t want = (size_t)-1; for (size_t i = 0; i < ok.size() && want == (size_t)-1; i++) if (ok[i].c == f && (allow || (!isComb(f) && !(i + 1 < ok.size() && isComb(ok[i + 1].c))))) want = at[i];
	CHECK(s, found == (want != (size_t)-1), "FindCodePoint(%X) returned %d", f, found); if (found) CHECK(s, rp == want, "FindCodePoint(%X) reports position %zu, expected %zu", f, rp, want);
	for (size_t i = 0; i < ok.size(); i++) if (ok[i].c <= 0x7F && !(i + 1 < ok.size() && isComb(ok[i + 1].c))) wantA += (char)ok[i].c;
	CHECK(s, ascii == wantA, "ASCII characters %s, expected %s", quote(ascii).c_str(), quote(wantA).c_str());
	for (auto &i : ok) if (i.c >= 0x80) { s.nontrivial(); break; }
}

namespace
{
	std::string radixStr(u64 v, unsigned r) { std::string t; do { unsigned d = (unsigned)(v % r); t.insert(t.begin(), (char)(d < 10 ? '0' + d : 'A' + d - 10)); v /= r; } while (v); return t; }
	double genDouble(Src &s) { switch (s.weighted({ 4, 3, 1, 1 })) { case 0: return (double)s.irange(-100000, 100000) / (double)s.uni(1, 64); case 1: { u64 b = s.u64any(); double d; memcpy(&d, &b, 8); return d; } case 2: { static const double t[] = { 0.0, -0.0, 1e308, 5e-324, -2.2250738585072014e-308, 1.0 / 3, 1e21, 123456789012345680.0 }; return t[s.draw(7)]; } default: return (double)s.irange(-5, 5); } }
	std::string fmtD(double d, int p) { std::vector<char> b(2000); snprintf(b.data(), b.size(), "%1.*g", p, d); return b.data(); }

	template <size_t N> void mixedCase(Src &s)
	{
		typedef UTF8::UTF8MixedVar<char[N]> V;
		// Heap object of exactly this size with a canary after it.
		struct H { V v; unsigned char can[64]; };
		std::unique_ptr<H> h((H *)::operator new(sizeof(H))); struct Del { std::unique_ptr<H> &x; ~Del() { ::operator delete((void *)x.release()); } } del{ h };
		memset((void *)h.get(), 0x77, sizeof(H)); new (&h->v) V; V &x = h->v; CHECK(s, x.GetSize() == 0 && x.GetStr()[0] == '\0' && x.IsNone() && x.GetInt() == 0 && x.GetDouble() == 0.0, "a new variable is not empty");
		struct M { StaticMixedVarModes mode; std::int64_t i; double d; std::string t; } m = { MV_None, 0, 0.0, "" };
		const size_t cap = N - 1; size_t cut = 0; s.note("capacity %zu", cap);
		auto put = [&](const std::string &a) { size_t room = cap - m.t.size(); if (a.size() > room) cut++; m.t += a.substr(0, room); };
		auto pre = [&](const std::string &a) { if (m.t.size() + a.size() <= cap) m.t = a + m.t; else cut++; };
		auto utf = [&](const CPs &c, size_t room) { std::string r; for (auto q : c) { if (!isChar(q) || (r.empty() && isComb(q))) continue; if (r.size() + enc(q).size() > room) break; r += enc(q); } return r; };
		unsigned n = 1 + (unsigned)s.len(14);
		for (unsigned k = 0; k < n; k++)
		{
			unsigned op = s.weighted({ 3, 3, 4, 4, 3, 3, 2, 2, 2, 2, 2, 2, 3, 2, 2, 2, 2, 2, 2, 3, 3 });
			std::string t; if (op <= 5) { size_t room = cap - m.t.size(); size_t want = s.chance(40) ? room + (size_t)s.draw(2) - (room ? s.draw(1) : 0) : s.len(N + 4 < 600 ? N + 4 : 600); if (want > 2 * N + 8) want = 2 * N + 8; if (N > 1000 && s.chance(40)) want = bigSize(s); if (want <= 700) t = s.bytes(want, op % 2 ? NULL : "abc/"); else { std::string head = s.bytes(1 + s.draw(12), op % 2 ? NULL : "abc/"); while (t.size() < want) t += head; t.resize(want); } }
			std::string z = t; z.push_back('\0'); Arr<char> tz(z), td(t);
			std::int64_t iv = s.i64any(); u64 uv = s.u64any(); unsigned rad = s.chance(50) ? 10 : s.chance(30) ? 2 : (unsigned)s.uni(2, 36); if (rad == 2 && s.chance(30)) { iv = INT64_MIN + (std::int64_t)s.draw(1); uv = UINT64_MAX; } double dv = 0; int prec = 16;
			if (op == 13 || op == 14 || op == 18) { dv = genDouble(s); prec = s.chance(40) ? 16 : (int)s.range(1, s.chance(20) ? 800 : 40); }
			CPs cps; std::vector<wchar_t> ws; if (op >= 19) { for (size_t q = s.len(N + 3 > 40 ? 40 : N + 3); q; q--) cps.push_back(genCP(s, false)); for (auto c : cps) ws.push_back((wchar_t)c); }
			switch (op)
			{
				case 0: x.SetStr(tz.p); m.mode = MV_Str; m.t.clear(); put(t.c_str()); s.note("SetStr %s", quote(t).c_str()); break;
				case 1: x.SetData(td.p, td.n); m.mode = MV_Str; m.t.clear(); put(t); s.note("SetData %s", quote(t).c_str()); break;
				case 2: case 3: case 4: case 5: if (m.t.size() && s.chance(12))
				{
					// Its own text, or a part of it.
					size_t off = s.draw(m.t.size() - 1), z = s.range(0, m.t.size() - off); std::string own = m.t.substr(off, z), rest = m.t.c_str() + off; s.note("%s itself from %zu, %zu bytes", op < 4 ? "append" : "prepend", off, z);
					if (op == 2) { x.AppendStr(x.GetStr() + off); put(rest); } else if (op == 3) { x.AppendData(x.GetStr() + off, z); put(own); } else if (op == 4) { x.PrependStr(x.GetStr() + off); pre(rest); } else { x.PrependData(x.GetStr() + off, z); pre(own); }
					break;
				}
				switch (op)
				{
				case 2: x.AppendStr(tz.p); put(t.c_str()); s.note("AppendStr %s", quote(t).c_str()); break;
				case 3: x.AppendData(td.p, td.n); put(t); s.note("AppendData %s", quote(t).c_str()); break;
				case 4: x.PrependStr(tz.p); pre(t.c_str()); s.note("PrependStr %s", quote(t).c_str()); break;
				case 5: x.PrependData(td.p, td.n); pre(t); s.note("PrependData %s", quote(t).c_str()); break;
				}
				break;
				case 6: { char c = (char)s.draw(255); x.AppendChar(c); put(std::string(1, c)); s.note("AppendChar %d", c); break; }
				case 7: { char c = s.flip() && m.t.size() ? m.t.back() : 'a'; x.AppendMissingChar(c); if (m.t.empty() || m.t.back() != c) put(std::string(1, c)); s.note("AppendMissingChar %d", c); break; }
				case 8: { char c = s.flip() && m.t.size() ? m.t.back() : 'a'; bool r = x.RemoveTrailingChar(c), e = m.t.size() && m.t.back() == c; if (e) m.t.pop_back(); s.note("RemoveTrailingChar %d", c); CHECK(s, r == e, "RemoveTrailingChar returned %d", r); break; }
				case 9: { size_t z2 = s.range(0, m.t.size()); if (s.chance(20)) { size_t big = N + s.draw(3); x.SetSize(big); s.note("SetSize %zu (too big)", big); } else { x.SetSize(z2); m.t.resize(z2); s.note("SetSize %zu", z2); } break; }
				case 10: if (rad == 10 && s.flip()) x.AppendInt(iv); else x.AppendInt(iv, rad); put((iv < 0 ? "-" : "") + radixStr(iv < 0 ? 0 - (u64)iv : (u64)iv, rad)); s.note("AppendInt %lld radix %u", (long long)iv, rad); break;
				case 11: if (rad == 10 && s.flip()) x.AppendUInt(uv); else x.AppendUInt(uv, rad); put(radixStr(uv, rad)); s.note("AppendUInt %llu radix %u", (unsigned long long)uv, rad); break;
				case 12: { bool sg = s.flip(); if (sg) { if (rad == 10 && iv % 3) x.PrependInt(iv); else x.PrependInt(iv, rad); pre((iv < 0 ? "-" : "") + radixStr(iv < 0 ? 0 - (u64)iv : (u64)iv, rad)); s.note("PrependInt %lld radix %u", (long long)iv, rad); } else { if (rad == 10 && uv % 3) x.PrependUInt(uv); else x.PrependUInt(uv, rad); pre(radixStr(uv, rad)); s.note("PrependUInt %llu radix %u", (unsigned long long)uv, rad); } break; }
				case 13: if (prec == 16 && s.flip()) x.AppendDouble(dv); else x.AppendDouble(dv, (size_t)prec); put(fmtD(dv, prec)); s.note("AppendDouble %g precision %d", dv, prec); break;
				case 14: if (prec == 16 && s.flip()) x.PrependDouble(dv); else x.PrependDouble(dv, (size_t)prec); pre(fmtD(dv, prec)); s.note("PrependDouble %g precision %d", dv, prec); break;
				case 15: { bool b = s.flip(); x.SetBool(b); m.mode = MV_Bool; m.i = b; s.note("SetBool %d", b); break; }
				case 16: x.SetInt(iv); m.mode = MV_Int; m.i = iv; s.note("SetInt %lld", (long long)iv); break;
				case 17: x.SetUInt(uv); m.mode = MV_UInt; m.i = (std::int64_t)uv; s.note("SetUInt %llu", (unsigned long long)uv); break;
				case 18: x.SetDouble(dv); m.mode = MV_Double; m.d = dv; s.note("SetDouble %g", dv); break;
				case 19: { bool zt = s.flip(); if (zt || s.chance(30)) ws.push_back(0); Arr<wchar_t> w(ws); if (zt) x.SetUTF8(w.p); else x.SetUTF8(w.p, w.n); m.mode = MV_Str; m.t.clear(); std::string e = utf(cps, cap); if (e.size() < utf(cps, 100000).size()) cut++; m.t = e; s.note("SetUTF8 %s", hex(cps).c_str()); break; }
				default: { ws.push_back(0); Arr<wchar_t> w(ws); x.AppendUTF8(w.p); std::string e = utf(cps, cap - m.t.size()); if (e.size() < utf(cps, 100000).size()) cut++; m.t += e; s.note("AppendUTF8 %s", hex(cps).c_str()); break; }
			}
			for (unsigned char c : h->can) CHECK(s, c == 0x77, "memory after the variable was overwritten");
			CHECK(s, x.GetMaxSize() == N, "GetMaxSize()"); CHECK(s, x.GetSize() <= cap, "size %zu exceeds the capacity %zu", x.GetSize(), cap);
			CHECK(s, x.GetSize() == m.t.size() && !memcmp(x.GetStr(), m.t.data(), m.t.size()), "content %s, expected %s", quote(std::string(x.GetStr(), x.GetSize())).c_str(), quote(m.t).c_str());
			CHECK(s, x.GetStr()[x.GetSize()] == '\0', "the string is not terminated");
			CHECK(s, x.IsNone() == (m.mode == MV_None) && x.IsBool() == (m.mode == MV_Bool) && x.IsInt() == (m.mode == MV_Int) && x.IsUInt() == (m.mode == MV_UInt) && x.IsDouble() == (m.mode == MV_Double) && x.IsStr() == (m.mode == MV_Str), "wrong type");
			CHECK(s, x.GetInt() == m.i && x.GetUInt() == (u64)m.i && x.GetBool() == (m.i != 0), "wrong integer value"); CHECK(s, !memcmp(&m.d, &x.MxDouble, 8), "wrong double value");
		}
		if (m.t.size() && validUTF8(m.t)) { std::vector<Item> it = read((const std::uint8_t *)m.t.data(), m.t.size(), 1); if (!isComb(it[0].c) && it[0].c) { Arr<wchar_t> out(it.size() + 1); size_t on = out.n; x.ConvertFromUTF8(out.p, on); CHECK(s, on == it.size() + 1 && out.p[it.size()] == 0, "ConvertFromUTF8 gives %zu units, expected %zu", on, it.size() + 1); for (size_t q = 0; q < it.size(); q++) CHECK(s, (std::uint32_t)out.p[q] == it[q].c, "ConvertFromUTF8 unit %zu differs", q); } }
		if (cut) s.nontrivial();
	}
}
#define MRULE "operation histories on a variable with a fixed capacity, checked against an unbounded string model cut at the capacity; non-trivial = at least one operation that did not fit"
PROP(M01, mixed_tiny, 2, MRULE) { switch (s.draw(3)) { case 0: mixedCase<1>(s); break; case 1: mixedCase<2>(s); break; case 2: mixedCase<3>(s); break; default: mixedCase<5>(s); } }
PROP(M01, mixed_small, 3, MRULE) { switch (s.draw(2)) { case 0: mixedCase<8>(s); break; case 1: mixedCase<17>(s); break; default: mixedCase<33>(s); } }
PROP(M01, mixed_large, 2, MRULE) { if (s.flip()) mixedCase<100>(s); else mixedCase<300>(s); }
PROP(M01, mixed_huge, 1, MRULE) { if (s.flip()) mixedCase<8192>(s); else mixedCase<66000>(s); }
PROP(M01, int_to_string, 1, "integers in every radix into buffers of every size; non-trivial = the digits fit exactly or are one short")
{
	typedef StaticMixedVar<char[8]> V; bool sg = s.flip(); u64 v = s.u64any(); unsigned r = s.chance(30) ? 10 : (unsigned)s.uni(2, 36); std::string e = sg && (std::int64_t)v < 0 ? "-" + radixStr(0 - v, r) : radixStr(v, r);
	size_t n = s.chance(60) ? e.size() + s.draw(2) : s.range(0, 70); Arr<char> b(n); bool ok = r == 10 && s.flip() ? (sg ? V::IntToString(b.p, n, (std::int64_t)v) : V::IntToString(b.p, n, v)) : sg ? V::IntToString(b.p, n, (std::int64_t)v, r) : V::IntToString(b.p, n, v, r);
	s.note("%s %llu radix %u into %zu: %d", sg ? "int" : "uint", (unsigned long long)v, r, n, ok);
	CHECK(s, ok == (n >= e.size() + 1), "returned %d for %zu bytes, %zu needed", ok, n, e.size() + 1); if (ok) CHECK(s, !strcmp(b.p, e.c_str()), "got %s, expected %s", quote(b.p).c_str(), e.c_str());
	if (n == e.size() || n == e.size() + 1) s.nontrivial();
}
