// C01, C02: integer and file size formatting.
#include "pbt.h"
#include "convert/convert_int.h"
#include <memory>
using namespace CubicleSoft;
using pbt::Src; using pbt::u64; using pbt::quote;
typedef unsigned __int128 u128;

namespace
{
	std::string group(std::string digits, char sep)
	{
		if (!sep) return digits;
		std::string r; size_t n = digits.size();
		for (size_t i = 0; i < n; i++) { if (i && (n - i) % 3 == 0) r += sep; r += digits[i]; }
		return r;
	}
	std::string refInt(u64 n, char sep, unsigned radix)
	{
		std::string r;
		do { r.insert(r.begin(), "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[n % radix]); n /= radix; } while (n);
		return group(r, sep);
	}
	char genSep(Src &s) { static const char o[] = { '\0', ',', '.', ' ', '_', '\'', '0', '-' }; return s.chance(10) ? (char)s.range(1, 255) : o[s.draw(7)]; }

	std::string refSize(u64 n, size_t frac, char nsep, char dsep, char usep, const std::string &unit)
	{
		static const char L[] = { 0, 'K', 'M', 'G', 'T', 'P', 'E' };
		int k = 0;
		// Browser format: next unit as soon as the number would need 4 digits (K starts at 1024); strict: exact powers.
		for (int i = 1; i <= 6; i++)
		{
			u128 thr = (u128)1 << (10 * i);
			if (frac && i > 1) thr = (u128)1000 << (10 * (i - 1));
			if ((u128)n >= thr) k = i;
		}
		u128 div = (u128)1 << (10 * k);
		std::string r = group(refInt((u64)(n / div), 0, 10), nsep);
		if (frac && k >= 2)
		{
			r += dsep;
			u128 rem = (u128)n % div;
			for (size_t i = 0; i < frac; i++) { rem *= 10; r += (char)('0' + (int)(rem / div)); rem %= div; }
		}
		if (usep) r += usep;
		if (k) { r += L[k]; r += 'B'; } else r += unit;
		return r;
	}
	u64 genSize(Src &s)
	{
		switch (s.draw(3))
		{
			case 0: return s.u64any();
			case 1: { u64 m = s.uni(0, 6), b = 1ULL << (10 * m); u64 k = s.range(0, 1030); u128 v = (u128)b * k + s.range(0, 4); v -= 2; return (u64)v; }
			case 2: { u64 m = s.uni(1, 6), b = 1ULL << (10 * m); return b * s.range(0, 16) + s.range(0, b - 1); }
			default: { u64 m = s.uni(0, 5); u64 b = 1000ULL << (10 * m); return b + s.range(0, 4) - 2; }
		}
	}
}

PROP(C01, int_to_string, 10, "random (edge-biased) 64-bit values, signed and unsigned, radix 0..40, any separator, buffer size from 0 to needed+3 allocated exactly; oracle: independent digit generation and round trip.  Non-trivial: value >= radix (more than one digit).")
{
	bool sign = s.flip(); u64 n = s.u64any(); std::int64_t i = (std::int64_t)n; char sep = genSep(s); size_t radix = s.chance(50) ? 10 : s.uni(0, 40);
	bool valid = radix >= 2 && radix <= 36;
	std::string ref;
	if (valid) ref = sign && i < 0 ? "-" + refInt(0 - n, sep, (unsigned)radix) : refInt(n, sep, (unsigned)radix);
	size_t sz;
	switch (s.draw(2)) { case 0: sz = ref.size() + s.uni(0, 4); sz -= sz >= 2 ? 2 : sz; break; case 1: sz = s.range(0, 120); break; default: sz = ref.size() + 1; break; }
	s.note("ToString(size %zu, %s %lld, separator %d, radix %zu) expecting %s", sz, sign ? "signed" : "unsigned", (long long)i, sep, radix, quote(ref).c_str());
	std::unique_ptr<char[]> b(new char[sz]);
	bool ok = sign ? Convert::Int::ToString(b.get(), sz, i, sep, radix) : Convert::Int::ToString(b.get(), sz, n, sep, radix);
	if (!valid) { CHECK(s, !ok, "radix %zu accepted", radix); return; }
	CHECK(s, ok == (sz >= ref.size() + 1), "%s for %zu characters in a %zu byte buffer", ok ? "succeeded" : "failed", ref.size(), sz);
	if (ok) CHECK(s, strnlen(b.get(), sz) < sz && ref == b.get(), "got %s, expected %s", quote(std::string(b.get(), strnlen(b.get(), sz))).c_str(), quote(ref).c_str());
	if (n >= radix) s.nontrivial();
}

PROP(C01, int_defaults, 3, "default arguments: plain decimal text parses back to the value.  Non-trivial: |value| > 9.")
{
	u64 n = s.u64any(); char b[32]; char e[32];
	if (s.flip()) { CHECK(s, Convert::Int::ToString(b, sizeof b, n), "failed"); snprintf(e, sizeof e, "%llu", (unsigned long long)n); s.note("unsigned %s", e); }
	else { CHECK(s, Convert::Int::ToString(b, sizeof b, (std::int64_t)n), "failed"); snprintf(e, sizeof e, "%lld", (long long)n); s.note("signed %s", e); }
	CHECK(s, !strcmp(b, e), "got %s expected %s", b, e);
	if (n > 9) s.nontrivial();
}

PROP(C02, filesize_absurd_fraction, 1, "sizes with an enormous number of fraction digits (up to the largest size_t) in exactly allocated buffers: refused without writing outside the buffer.  Non-trivial: a unit above KB was chosen.")
{
	u64 n = genSize(s); size_t sz = s.range(0, 60), frac = s.flip() ? (size_t)0 - s.range(1, 80) : s.flip() ? ((size_t)1 << s.range(7, 63)) - s.range(0, 3) : 61 + s.range(0, 5000);
	std::unique_ptr<char[]> b(new char[sz]); s.note("ToFilesizeString(size %zu, %llu, frac %zu)", sz, (unsigned long long)n, frac);
	bool ok = Convert::Int::ToFilesizeString(b.get(), sz, n, frac);
	if (n >= 1024000) { CHECK(s, !ok, "succeeded although %zu fraction digits do not fit in %zu bytes", frac, sz); s.nontrivial(); }
	else if (ok) CHECK(s, refSize(n, frac, 0, '.', ' ', "bytes") == b.get(), "got %s", b.get());
}

PROP(C02, filesize_string, 10, "random sizes (unit boundaries, 1000*2^k boundaries, random), fraction digits 0..20, separators, byte unit text, buffer sizes around the exact need; oracle: 128-bit exact truncated decimal expansion.  Non-trivial: a unit above bytes was chosen.")
{
	bool sign = s.flip(); u64 n = genSize(s); std::int64_t i = (std::int64_t)n;
	size_t frac = s.chance(40) ? 2 : s.chance(30) ? 0 : s.range(0, 20);
	char ns = s.chance(50) ? 0 : genSep(s), ds = s.chance(50) ? '.' : (char)s.range(1, 255), us = s.chance(60) ? ' ' : genSep(s);
	std::string unit = s.chance(50) ? "bytes" : s.str(9, "abBytesO ");
	std::string ref = sign && i < 0 ? "-" + refSize(0 - n, frac, ns, ds, us, unit) : refSize(n, frac, ns, ds, us, unit);
	// The function asks for room for the unit text whatever unit is chosen.
	size_t floor_ = (sign && i < 0 ? 1 : 0) + 5 + unit.size();
	size_t sz = s.flip() ? s.range(0, 60) : std::max(ref.size() + 1, floor_) + s.uni(0, 4) - 2;
	s.note("ToFilesizeString(size %zu, %s %lld, frac %zu, numsep %d, decsep %d, unitsep %d, unit %s) expecting %s", sz, sign ? "signed" : "unsigned", (long long)i, frac, ns, ds, us, quote(unit).c_str(), quote(ref).c_str());
	std::unique_ptr<char[]> b(new char[sz]);
	bool ok = sign ? Convert::Int::ToFilesizeString(b.get(), sz, i, frac, ns, ds, us, unit.c_str()) : Convert::Int::ToFilesizeString(b.get(), sz, n, frac, ns, ds, us, unit.c_str());
	if (sz < ref.size() + 1) CHECK(s, !ok, "succeeded for %zu characters in a %zu byte buffer", ref.size(), sz);
	if (sz >= ref.size() + 1 && sz >= floor_) CHECK(s, ok, "failed for %zu characters in a %zu byte buffer", ref.size(), sz);
	if (ok) CHECK(s, strnlen(b.get(), sz) < sz && ref == b.get(), "got %s, expected %s", quote(std::string(b.get(), strnlen(b.get(), sz))).c_str(), quote(ref).c_str());
	if (n >= 1024) s.nontrivial();
}

PROP(C02, filesize_defaults, 4, "default arguments on random sizes.  Non-trivial: size >= 1024.")
{
	u64 n = genSize(s); char b[64]; std::string ref;
	s.note("%llu", (unsigned long long)n);
	if (s.flip()) { ref = refSize(n, 2, 0, '.', ' ', "bytes"); CHECK(s, Convert::Int::ToFilesizeString(b, sizeof b, n), "failed"); }
	else { std::int64_t i = (std::int64_t)n; ref = i < 0 ? "-" + refSize(0 - n, 2, 0, '.', ' ', "bytes") : refSize(n, 2, 0, '.', ' ', "bytes"); CHECK(s, Convert::Int::ToFilesizeString(b, sizeof b, i), "failed"); }
	CHECK(s, ref == b, "got %s expected %s", b, ref.c_str());
	if (n >= 1024) s.nontrivial();
}
