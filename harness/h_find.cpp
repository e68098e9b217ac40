// S01, S02: pattern search and replacement against a naive reference.
#include "pbt.h"
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include "templates/fast_find_replace.h"
#include <functional>
#include <map>
#include <memory>
using namespace CubicleSoft;
using pbt::Src; using pbt::u64;

namespace
{
	// An element type with a custom ==: 'junk' takes no part in equality.
	struct Elem
	{
		std::uint8_t v, junk;
		Elem(int x = 0, int j = 0) : v((std::uint8_t)x), junk((std::uint8_t)j) {}
		bool operator==(const Elem &o) const { return v == o.v; }
		bool operator!=(const Elem &o) const { return v != o.v; }
		explicit operator bool() const { return v != 0; }
	};

	// The extra elements after the result are constructed, which shows for objects only.
	inline bool isNew(const Elem &e) { return e.v == 0 && e.junk == 0; }
	template <class T> bool isNew(const T &) { return true; }

	long allocLive; bool allocBad; void *allocMgr; std::map<void *, void *> allocOwner; // Two managers: every block goes back to its own.
	struct Alloc
	{
		static void *malloc(void *m, size_t n) { if (m != allocMgr) allocBad = true; allocLive++; void *p = ::malloc(n ? n : 1); allocOwner[p] = m; return p; }
		static void *realloc(void *m, void *p, size_t n) { if (p && allocOwner[p] != m) allocBad = true; void *q = malloc(m, n); if (p) { memcpy(q, p, szs(p) < n ? szs(p) : n); free(m, p); } return q; }
		static void free(void *m, void *p) { if (!p) return; if (!allocOwner.count(p) || allocOwner[p] != m) allocBad = true; allocOwner.erase(p); allocLive--; ::free(p); }
		static size_t szs(void *p);
	};
	extern "C" size_t malloc_usable_size(void *);
	size_t Alloc::szs(void *p) { return malloc_usable_size(p); }

	template <class T> struct Ty;
	template <> struct Ty<char> { static char mk(unsigned c, Src &) { return (char)("aAbBcCdDeEfF\0\xff\x80z"[c]); } static unsigned id(char c) { return (unsigned char)c; } };
	template <> struct Ty<std::uint32_t> { static std::uint32_t mk(unsigned c, Src &) { static const std::uint32_t t[] = { 1, 0x01000000, 0x100, 0x10001, 2, 3, 0xFFFFFFFF, 7, 8, 9, 10, 11, 12, 13, 14, 15 }; return t[c]; } static unsigned id(std::uint32_t c) { return c; } };
	template <> struct Ty<std::uint16_t> { static std::uint16_t mk(unsigned c, Src &) { static const std::uint16_t t[] = { 1, 0x100, 0x101, 2, 0x200, 0xFFFF, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 }; return t[c]; } static unsigned id(std::uint16_t c) { return c; } };
	template <> struct Ty<Elem> { static Elem mk(unsigned c, Src &s) { return Elem((int)c + 1, (int)s.draw(1)); } static unsigned id(const Elem &c) { return c.v * 256 + c.junk; } };

	bool csEq(const char &a, const char &b) { return a == b; }
	bool ciEq(const char &a, const char &b) { auto l = [](char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }; return l(a) == l(b); }
	bool mod3(const std::uint32_t &a, const std::uint32_t &b) { return a % 3 == b % 3; }

	// Exact-size heap copy: one element too many either way is seen by ASan.
	template <class T> struct Arr { T *p; size_t n; Arr(const std::vector<T> &v) : p((T *)malloc(v.size() * sizeof(T))), n(v.size()) { if (n) memcpy((void *)p, v.data(), n * sizeof(T)); } ~Arr() { free(p); } Arr(const Arr &) = delete; };

	template <class T> std::string show(const T *p, size_t n) { std::string r = "["; char b[16]; for (size_t i = 0; i < n && i < 80; i++) { snprintf(b, sizeof b, i ? " %x" : "%x", Ty<T>::id(p[i])); r += b; } return r + (n > 80 ? "...]" : "]") + "x" + std::to_string(n); }

	template <class T> std::vector<T> genText(Src &s, size_t n, unsigned alpha)
	{
		std::vector<T> v;
		if (n > 200) { u64 x = s.draw(1000), per = s.flip() ? n : s.range(n > 1100 ? n / 3 : 1, n); for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; v.push_back(i >= per ? v[i - per] : Ty<T>::mk((unsigned)((x >> 33) % alpha), s)); } return v; }
		switch (s.weighted({ 4, 3, 2 }))
		{
			case 0: for (size_t i = 0; i < n; i++) v.push_back(Ty<T>::mk((unsigned)s.draw(alpha - 1), s)); break;
			case 1: { std::vector<T> u; size_t k = 1 + s.len(8); for (size_t i = 0; i < k; i++) u.push_back(Ty<T>::mk((unsigned)s.draw(alpha - 1), s)); for (size_t i = 0; i < n; i++) v.push_back(u[i % k]); break; }
			default: { T c = Ty<T>::mk((unsigned)s.draw(alpha - 1), s); for (size_t i = 0; i < n; i++) v.push_back(c); for (size_t k = s.len(4); k && n; k--) v[s.draw(n - 1)] = Ty<T>::mk((unsigned)s.draw(alpha - 1), s); break; }
		}
		return v;
	}
	bool bigMode = false; // Large data or patterns.
	template <class T> struct Case { std::vector<T> pat, data; };
	template <class T> Case<T> gen(Src &s)
	{
		Case<T> c; unsigned alpha = (unsigned)s.uni(1, 16);
		size_t pn = 0;
		switch (s.weighted({ 5, 4, 5, 5, 3, 1 })) { case 0: pn = s.uni(1, 4); break; case 1: pn = s.uni(5, 9); break; case 2: pn = s.uni(10, 14); break; case 3: pn = s.uni(15, 60); break; case 4: pn = s.draw(3); break; default: pn = s.range(1020, 1035); break; }
		if (bigMode)
		{
			alpha = (unsigned)s.uni(4, 16); bool bp = s.flip(); if (bp) pn = s.flip() ? 65530 + s.uni(0, 12) : s.flip() ? 250 + s.uni(0, 12) : s.range(61, 30000); else if (!pn || pn > 100) pn = 3;
			c.pat = genText<T>(s, pn, alpha); size_t left = s.range(1, 5);
			while (left-- && c.data.size() < 250000) switch (s.weighted({ 3, 3, 2, 2 }))
			{
				case 0: { auto t = genText<T>(s, s.chance(40) ? 65500 + s.uni(0, 60) : s.range(0, 70000), alpha); c.data.insert(c.data.end(), t.begin(), t.end()); break; }
				case 1: for (size_t k = bp ? 1 : s.range(1, 65540 / pn); k; k--) c.data.insert(c.data.end(), c.pat.begin(), c.pat.end()); break;
				case 2: { auto t = c.pat; t[s.flip() ? pn - 1 : s.draw(pn - 1)] = Ty<T>::mk((unsigned)s.draw(alpha - 1), s); c.data.insert(c.data.end(), t.begin(), t.end()); break; }
				default: { size_t b = s.draw(pn - 1); c.data.insert(c.data.end(), c.pat.begin(), c.pat.begin() + b); break; }
			}
			return c;
		}
		c.pat = genText<T>(s, pn, alpha);
		// Data: noise, whole patterns, near misses and prefixes of the pattern.
		unsigned parts = (unsigned)s.len(12);
		for (unsigned i = 0; i < parts; i++)
		{
			switch (s.weighted({ 4, 4, 3, 2 }))
			{
				case 0: { auto t = genText<T>(s, s.len(20), alpha); c.data.insert(c.data.end(), t.begin(), t.end()); break; }
				case 1: c.data.insert(c.data.end(), c.pat.begin(), c.pat.end()); break;
				case 2: { auto t = c.pat; if (pn) t[s.draw(pn - 1)] = Ty<T>::mk((unsigned)s.draw(alpha - 1), s); c.data.insert(c.data.end(), t.begin(), t.end()); break; }
				default: if (pn) { size_t a = s.draw(pn - 1), b = s.draw(pn - 1); if (a > b) std::swap(a, b); c.data.insert(c.data.end(), c.pat.begin() + a, c.pat.begin() + b); } break;
			}
		}
		return c;
	}
	template <class T, class EQ> size_t naive(const T *d, size_t n, size_t from, const T *p, size_t pn, EQ eq)
	{
		if (!pn) return (size_t)-1;
		for (size_t i = from; i + pn <= n; i++) { size_t k = 0; while (k < pn && eq(p[k], d[i + k])) k++; if (k == pn) return i; }
		return (size_t)-1;
	}

	// One driver for the four class families.
	template <class T> struct Plain
	{
		typedef FastFind<T> F; typedef FastReplace<T> R; static const bool memc = true;
		static bool eq(const T &a, const T &b) { return a == b; }
		static void setp(F &f, const T *p, size_t n) { f.SetPattern(p, n); }
		static void setpr(R &f, const T *p, size_t n) { f.SetPattern(p, n); }
		static const T *next(F &f, bool m) { return f.FindNext(m); }
		static const T *nextr(R &f, bool m) { return f.FindNext(m); }
		static size_t all(T *&r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn, size_t lim, size_t gr, size_t ex, bool m) { return R::ReplaceAll(r, rs, d, dn, p, pn, w, wn, lim, gr, ex, m); }
		static size_t stat(T *r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn, size_t lim, bool m) { return R::StaticReplaceAll(r, rs, d, dn, p, pn, w, wn, lim, 16, 1, m); }
		static size_t allDef(T *&r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn) { return R::ReplaceAll(r, rs, d, dn, p, pn, w, wn); }
		static size_t statDef(T *r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn) { return R::StaticReplaceAll(r, rs, d, dn, p, pn, w, wn); }
		static void fr(T *p) { delete[] (char *)p; }
	};
	template <class T> struct WithAlloc
	{
		typedef FastFindAlloc<T, Alloc> F; typedef FastReplaceAlloc<T, Alloc> R; static const bool memc = true;
		static bool eq(const T &a, const T &b) { return a == b; }
		static void setp(F &f, const T *p, size_t n) { f.SetPattern(p, n, (Alloc *)allocMgr); }
		static void setpr(R &f, const T *p, size_t n) { f.SetPattern(p, n, (Alloc *)allocMgr); }
		static const T *next(F &f, bool m) { return f.FindNext(m); }
		static const T *nextr(R &f, bool m) { return f.FindNext(m); }
		static size_t all(T *&r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn, size_t lim, size_t gr, size_t ex, bool m) { return R::ReplaceAll(r, rs, d, dn, p, pn, w, wn, (Alloc *)allocMgr, lim, gr, ex, m); }
		static size_t stat(T *r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn, size_t lim, bool m) { return R::StaticReplaceAll(r, rs, d, dn, p, pn, w, wn, (Alloc *)allocMgr, lim, 16, 1, m); }
		static size_t allDef(T *&r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn) { return R::ReplaceAll(r, rs, d, dn, p, pn, w, wn, (Alloc *)allocMgr); }
		static size_t statDef(T *r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn) { return R::StaticReplaceAll(r, rs, d, dn, p, pn, w, wn, (Alloc *)allocMgr); }
		static void fr(T *p) { Alloc::free(allocOwner.count(p) ? allocOwner[p] : NULL, p); }
	};
	template <class T, bool (*EQ)(const T &, const T &)> struct WithCompare
	{
		typedef bool (*E)(const T &, const T &);
		typedef FastFindCompare<T, E> F; typedef FastReplaceCompare<T, E> R; static const bool memc = false;
		static bool eq(const T &a, const T &b) { return EQ(a, b); }
		static void setp(F &f, const T *p, size_t n) { f.SetPattern(p, n, EQ); }
		static void setpr(R &f, const T *p, size_t n) { f.SetPattern(p, n, EQ); }
		static const T *next(F &f, bool) { return f.FindNext(EQ); }
		static const T *nextr(R &f, bool) { return f.FindNext(EQ); }
		static size_t all(T *&r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn, size_t lim, size_t gr, size_t ex, bool) { return R::ReplaceAll(r, rs, d, dn, p, pn, w, wn, EQ, lim, gr, ex); }
		static size_t stat(T *r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn, size_t lim, bool) { return R::StaticReplaceAll(r, rs, d, dn, p, pn, w, wn, EQ, lim, 16, 1); }
		static size_t allDef(T *&r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn) { return R::ReplaceAll(r, rs, d, dn, p, pn, w, wn, EQ); }
		static size_t statDef(T *r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn) { return R::StaticReplaceAll(r, rs, d, dn, p, pn, w, wn, EQ); }
		static void fr(T *p) { delete[] (char *)p; }
	};
	template <class T, bool (*EQ)(const T &, const T &)> struct WithBoth
	{
		typedef bool (*E)(const T &, const T &);
		typedef FastFindAllocCompare<T, Alloc, E> F; typedef FastReplaceAllocCompare<T, Alloc, E> R; static const bool memc = false;
		static bool eq(const T &a, const T &b) { return EQ(a, b); }
		static void setp(F &f, const T *p, size_t n) { f.SetPattern(p, n, (Alloc *)allocMgr, EQ); }
		static void setpr(R &f, const T *p, size_t n) { f.SetPattern(p, n, (Alloc *)allocMgr, EQ); }
		static const T *next(F &f, bool) { return f.FindNext(EQ); }
		static const T *nextr(R &f, bool) { return f.FindNext(EQ); }
		static size_t all(T *&r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn, size_t lim, size_t gr, size_t ex, bool) { return R::ReplaceAll(r, rs, d, dn, p, pn, w, wn, (Alloc *)allocMgr, EQ, lim, gr, ex); }
		static size_t stat(T *r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn, size_t lim, bool) { return R::StaticReplaceAll(r, rs, d, dn, p, pn, w, wn, (Alloc *)allocMgr, EQ, lim, 16, 1); }
		static size_t allDef(T *&r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn) { return R::ReplaceAll(r, rs, d, dn, p, pn, w, wn, (Alloc *)allocMgr, EQ); }
		static size_t statDef(T *r, size_t &rs, const T *d, size_t dn, const T *p, size_t pn, const T *w, size_t wn) { return R::StaticReplaceAll(r, rs, d, dn, p, pn, w, wn, (Alloc *)allocMgr, EQ); }
		static void fr(T *p) { Alloc::free(allocOwner.count(p) ? allocOwner[p] : NULL, p); }
	};

	struct Guard
	{
		Src &s; long n, a;
		Guard(Src &s_) : s(s_), n(pbt::liveNew), a(allocLive) { allocBad = false; allocMgr = (void *)&allocBad; allocOwner.clear(); }
		void done() { CHECK(s, !allocBad, "the custom allocator was called with a wrong manager"); CHECK(s, pbt::liveNew == n && allocLive == a, "allocations leaked (new %ld, custom %ld)", pbt::liveNew - n, allocLive - a); }
	};

	template <class T, class V> void findCase(Src &s, const char *name)
	{
		Guard g(s); bool interesting = false;
		{
			typename V::F f; unsigned rounds = 1 + (unsigned)s.len(3); s.note("%s", name);
			std::vector<std::unique_ptr<Arr<T>>> keep; Arr<T> *pat = NULL;
			for (unsigned r = 0; r < rounds; r++)
			{
				Case<T> c = gen<T>(s);
				if (!pat || s.chance(70)) { keep.emplace_back(new Arr<T>(c.pat)); pat = keep.back().get(); V::setp(f, pat->p, pat->n); s.note("pattern %s", show(pat->p, pat->n).c_str()); if (s.chance(20)) CHECK(s, !V::next(f, V::memc && !std::is_same<T, Elem>::value), "a match was found with no data set since the pattern was"); }
				keep.emplace_back(new Arr<T>(c.data)); Arr<T> &d = *keep.back();
				f.SetData(d.p, d.n); s.note("data %s", show(d.p, d.n).c_str());
				bool memc = V::memc && sizeof(T) != sizeof(Elem) ? !s.flip() : false; if (std::is_same<T, Elem>::value) memc = false;
				size_t at = 0, hits = 0; unsigned stop = s.chance(20) ? (unsigned)s.draw(3) : 0xFFFFFFFF;
				for (unsigned k = 0; k < stop; k++)
				{
					const T *got = V::next(f, memc); size_t want = naive(d.p, d.n, at, pat->p, pat->n, V::eq);
					if (want == (size_t)-1) { CHECK(s, !got, "found a match at %zu where there is none", (size_t)(got - d.p)); CHECK(s, !V::next(f, memc), "a match was found after the end"); break; }
					CHECK(s, got, "missed the match at %zu", want); CHECK(s, got == d.p + want, "found a match at %zu, expected %zu", (size_t)(got - d.p), want);
					hits++; at = want + 1;
					if (s.flip()) { size_t ex = s.chance(30) ? s.len(6) : 0; bool past = s.chance(10); if (!past && want + pat->n + ex > d.n) ex = d.n - want - pat->n; const T *p = f.SkipMatch(ex); at = want + pat->n + ex; s.note("skip %zu", ex); CHECK(s, at > d.n || p == d.p + at, "SkipMatch went to %zu, expected %zu", (size_t)(p - d.p), at); }
				}
				if (hits && pat->n >= 2) interesting = true;
			}
		}
		g.done();
		if (interesting) s.nontrivial();
	}

	template <class T> bool same(const T *a, const std::vector<T> &b) { return b.empty() || !memcmp((const void *)a, (const void *)b.data(), b.size() * sizeof(T)); }

	template <class T, class V> void replaceCase(Src &s, const char *name)
	{
		Guard g(s); bool interesting = false;
		{
			Case<T> c = gen<T>(s); std::vector<T> w = genText<T>(s, s.weighted({ 3, 2, 1 }) == 0 ? s.len(8) : s.flip() ? c.pat.size() : s.len(60), (unsigned)s.uni(1, 16));
			Arr<T> pat(c.pat), d(c.data), wi(w); bool memc = V::memc && !std::is_same<T, Elem>::value ? !s.flip() : false;
			size_t lim = s.chance(40) ? s.range(0, 6) : (size_t)-1;
			s.note("%s pattern %s data %s with %s limit %zd", name, show(pat.p, pat.n).c_str(), show(d.p, d.n).c_str(), show(wi.p, wi.n).c_str(), (ssize_t)lim);
			std::vector<T> want; size_t num = 0, at = 0; std::vector<size_t> ends;
			while (num < lim) { size_t p = naive(d.p, d.n, at, pat.p, pat.n, V::eq); if (p == (size_t)-1) break; want.insert(want.end(), d.p + at, d.p + p); want.insert(want.end(), w.begin(), w.end()); at = p + pat.n; num++; ends.push_back(want.size()); }
			want.insert(want.end(), d.p + at, d.p + d.n);
			switch (s.weighted({ 4, 4, 2, 4 }))
			{
				case 0:
				{
					size_t gr = s.chance(50) ? s.range(0, 64) : 1024, ex = s.range(0, 4); T *r = NULL; size_t rs = 12345;
					size_t got = V::all(r, rs, d.p, d.n, pat.p, pat.n, wi.p, wi.n, lim, gr, ex, memc);
					s.note("ReplaceAll growth %zu extra %zu -> %zu, %s", gr, ex, got, show(r, rs < 1000000 ? rs : 0).c_str());
					CHECK(s, r, "no result"); CHECK(s, got == num, "%zu replacements reported, expected %zu", got, num);
					CHECK(s, rs == want.size() && same(r, want), "result differs: %s, expected %s", show(r, rs).c_str(), show(want.data(), want.size()).c_str());
					for (size_t i = 0; i < ex; i++) r[rs + i] = T();
					V::fr(r);
					break;
				}
				case 1:
				{
					size_t cap = s.chance(60) ? want.size() + s.draw(3) : s.range(0, want.size()); Arr<T> out(std::vector<T>(cap, T())); size_t rs = cap;
					size_t got = V::stat(out.p, rs, d.p, d.n, pat.p, pat.n, wi.p, wi.n, lim, memc);
					s.note("StaticReplaceAll into %zu -> %zu, %s", cap, got, show(out.p, rs <= cap ? rs : 0).c_str());
					if (cap >= want.size()) { CHECK(s, got == num, "%zu replacements reported, expected %zu", got, num); CHECK(s, rs == want.size() && same(out.p, want), "result differs: %s, expected %s", show(out.p, rs <= cap ? rs : cap).c_str(), show(want.data(), want.size()).c_str()); }
					else { size_t whole = 0; while (whole < ends.size() && ends[whole] <= cap) whole++; CHECK(s, rs == cap, "%zu of %zu elements used", rs, cap); std::vector<T> w2(want.begin(), want.begin() + cap); CHECK(s, same(out.p, w2), "truncated result differs"); CHECK(s, got >= whole && got <= num, "%zu replacements reported, %zu..%zu happened", got, whole, num); }
					break;
				}
				case 2:
				{
					// In place: the result may be written over the data when replacements are no longer than the pattern.
					if (w.size() > c.pat.size()) break;
					size_t rs = d.n; size_t got = V::stat(d.p, rs, d.p, d.n, pat.p, pat.n, wi.p, wi.n, lim, memc);
					s.note("StaticReplaceAll in place -> %zu, %s", got, show(d.p, rs <= d.n ? rs : 0).c_str());
					CHECK(s, got == num && rs == want.size() && same(d.p, want), "in-place result differs: %s, expected %s", show(d.p, rs <= d.n ? rs : d.n).c_str(), show(want.data(), want.size()).c_str());
					break;
				}
				default:
				{
					// Step by step, with different replacements, on one object used several times.
					typename V::R r; std::vector<std::unique_ptr<Arr<T>>> keep; const Arr<T> *cd = &d;
					if (s.chance(70)) r.SetGrowthSize(s.range(0, 40));
					size_t ex = 1; if (s.chance(50)) { ex = s.range(0, 4); r.SetExtraAlloc(ex); }
					V::setpr(r, pat.p, pat.n); unsigned rounds = 1 + (unsigned)s.len(2);
					std::vector<T *> mine;
					for (unsigned k = 0; k < rounds; k++)
					{
						if (k) { Case<T> c2 = gen<T>(s); keep.emplace_back(new Arr<T>(c2.data)); cd = keep.back().get(); s.note("next data %s", show(cd->p, cd->n).c_str()); if (s.flip()) { if (s.flip()) { s.note("other manager"); allocMgr = allocMgr == (void *)&allocBad ? (void *)&allocLive : (void *)&allocBad; } V::setpr(r, pat.p, pat.n); } }
						bool stat = s.chance(25); std::unique_ptr<Arr<T>> buf; size_t cap = (size_t)-1;
						if (stat) { cap = s.range(0, cd->n + 20); buf.reset(new Arr<T>(std::vector<T>(cap, T()))); r.SetData(cd->p, cd->n, buf->p, cap); }
						else r.SetData(cd->p, cd->n);
						std::vector<T> exp; size_t pos = 0; bool full = false;
						for (;;)
						{
							const T *p = V::nextr(r, memc); size_t wp = naive(cd->p, cd->n, pos, pat.p, pat.n, V::eq); size_t upto = wp == (size_t)-1 ? cd->n : wp;
							exp.insert(exp.end(), cd->p + pos, cd->p + upto);
							if (exp.size() > cap) { exp.resize(cap); full = true; CHECK(s, !p, "a match was reported after the buffer filled up"); break; }
							if (wp == (size_t)-1) { CHECK(s, !p, "found a match where there is none"); break; }
							CHECK(s, p == cd->p + wp, "wrong match (expected at %zu)", wp);
							keep.emplace_back(new Arr<T>(genText<T>(s, s.len(30), 16))); const Arr<T> &x = *keep.back(); size_t post = s.chance(30) ? s.len(5) : 0, left = cd->n - wp - pat.n; if (post > left && s.chance(70)) post = left;
							r.Replace(x.p, x.n, post); s.note("replace at %zu with %s, skipping %zu", wp, show(x.p, x.n).c_str(), post);
							exp.insert(exp.end(), x.p, x.p + x.n); pos = wp + pat.n + (post < left ? post : left); if (exp.size() > cap) { exp.resize(cap); full = true; }
							if (full) break;
							interesting = true;
						}
						CHECK(s, r.GetDataSize() == exp.size(), "result size %zu, expected %zu", r.GetDataSize(), exp.size());
						CHECK(s, same(r.GetData(), exp), "result %s, expected %s", show(r.GetData(), exp.size()).c_str(), show(exp.data(), exp.size()).c_str());
						if (!stat) for (size_t i = 0; i < ex; i++) CHECK(s, isNew(r.GetData()[exp.size() + i]), "extra element %zu was not constructed", i);
						if (!stat) for (size_t i = 0; i < ex; i++) r.GetData()[exp.size() + i] = T();
						if (stat ? s.flip() : s.flip()) { T *p = r.DetachData(); s.note("detach"); if (!stat) mine.push_back(p); CHECK(s, same(p, exp), "detached data differs"); }
					}
					for (T *p : mine) V::fr(p);
				}
			}
			if (num && lim != (size_t)-1) interesting = true;
			if (num >= 2) interesting = true;
		}
		g.done();
		if (interesting) s.nontrivial();
	}
}

#define FRULE "pattern (0..1035 elements, small alphabets, periodic shapes) and data assembled from patterns, near misses and fragments, in exact-size buffers; non-trivial = at least one real match of a multi-element pattern"
#define RRULE "pattern/data/replacement triples with limits, growth sizes, static and in-place buffers, and step-by-step use of one object; non-trivial = at least two replacements, or a limit that bites, or a step-by-step replacement"
PROP(S01, find_char, 4, FRULE) { findCase<char, Plain<char>>(s, "char"); }
PROP(S01, find_wide, 2, FRULE) { if (s.flip()) findCase<std::uint32_t, Plain<std::uint32_t>>(s, "uint32"); else findCase<std::uint16_t, WithAlloc<std::uint16_t>>(s, "uint16 alloc"); }
PROP(S01, find_object, 2, FRULE) { findCase<Elem, Plain<Elem>>(s, "object"); }
PROP(S01, find_compare, 3, FRULE) { switch (s.draw(2)) { case 0: findCase<char, WithCompare<char, ciEq>>(s, "case-insensitive"); break; case 1: findCase<std::uint32_t, WithCompare<std::uint32_t, mod3>>(s, "mod 3"); break; default: findCase<char, WithBoth<char, ciEq>>(s, "case-insensitive alloc"); } }
PROP(S01, find_alloc, 2, FRULE) { findCase<char, WithAlloc<char>>(s, "alloc"); }
PROP(S02, replace_char, 5, RRULE) { replaceCase<char, Plain<char>>(s, "char"); }
PROP(S02, replace_wide, 2, RRULE) { if (s.flip()) replaceCase<std::uint32_t, Plain<std::uint32_t>>(s, "uint32"); else replaceCase<std::uint16_t, WithAlloc<std::uint16_t>>(s, "uint16 alloc"); }
PROP(S02, replace_object, 2, RRULE) { replaceCase<Elem, Plain<Elem>>(s, "object"); }
PROP(S02, replace_compare, 3, RRULE) { switch (s.draw(2)) { case 0: replaceCase<char, WithCompare<char, ciEq>>(s, "case-insensitive"); break; case 1: replaceCase<std::uint32_t, WithBoth<std::uint32_t, mod3>>(s, "mod 3 alloc"); break; default: replaceCase<char, WithBoth<char, ciEq>>(s, "case-insensitive alloc"); } }
PROP(S02, replace_alloc, 3, RRULE) { replaceCase<char, WithAlloc<char>>(s, "alloc"); }
// Sizes given as "up to the terminator", and every other argument left to its default.
namespace
{
	template <class T, class V> void terminated(Src &s, const char *name)
	{
		Guard g(s);
		{
			auto zt = [&](const std::string &x) { std::vector<T> v; for (char c : x) v.push_back((T)c); v.push_back(T()); return v; };
			std::string p = s.bytes(s.uni(0, 6), "ab"), w = s.bytes(s.uni(0, 6), "abx"), d; for (unsigned k = (unsigned)s.len(8); k; k--) d += s.flip() ? p : s.bytes(s.uni(0, 4), "ab");
			bool mp = s.chance(75), mw = s.chance(75); s.note("%s pattern %s%s with %s%s in %s", name, pbt::quote(p).c_str(), mp ? "" : " (sized)", pbt::quote(w).c_str(), mw ? "" : " (sized)", pbt::quote(d).c_str());
			std::string want; size_t num = 0, at = 0; if (p.size()) for (size_t x; (x = d.find(p, at)) != std::string::npos; at = x + p.size(), num++) want += d.substr(at, x - at) + w; want += d.substr(at);
			Arr<T> pa(zt(p)), wa(zt(w)), da(std::vector<T>(d.begin(), d.end())); std::vector<T> wv(want.begin(), want.end());
			T *r; size_t rs, got = V::allDef(r, rs, da.p, da.n, pa.p, mp ? (size_t)-1 : p.size(), wa.p, mw ? (size_t)-1 : w.size());
			bool ok = got == num && rs == want.size() && same(r, wv); if (r) { r[rs] = T(); V::fr(r); }      // Room for a terminator by default.
			CHECK(s, ok, "%zu replacements, %zu elements; expected %zu, %s", got, rs, num, pbt::quote(want).c_str());
			Arr<T> out(std::vector<T>(want.size(), T())); rs = want.size(); got = V::statDef(out.p, rs, da.p, da.n, pa.p, mp ? (size_t)-1 : p.size(), wa.p, mw ? (size_t)-1 : w.size());
			CHECK(s, got == num && rs == want.size() && same(out.p, wv), "static: %zu replacements, %zu elements; expected %zu, %s", got, rs, num, pbt::quote(want).c_str());
			if (num) s.nontrivial();
		}
		g.done();
	}
}
PROP(S02, replace_terminated, 2, "zero-terminated patterns and replacements whose sizes are left to be measured, through every class family with default limit and growth; non-trivial = at least one replacement")
{
	switch (s.draw(5)) { case 0: terminated<char, Plain<char>>(s, "char"); break; case 1: terminated<std::uint16_t, Plain<std::uint16_t>>(s, "uint16"); break; case 2: terminated<char, WithAlloc<char>>(s, "char alloc"); break; case 3: terminated<char, WithCompare<char, csEq>>(s, "char compare"); break; case 4: terminated<std::uint32_t, WithAlloc<std::uint32_t>>(s, "uint32 alloc"); break; default: terminated<char, WithBoth<char, csEq>>(s, "char alloc compare"); }
}
#define BRULE "as above with data of up to 250000 and patterns of up to 65542 elements (sizes around 256 and 65536 favoured).  Non-trivial as above"
struct Big { Big() { bigMode = true; } ~Big() { bigMode = false; } };
PROP(S01, find_large, 1, BRULE) { Big b; switch (s.draw(3)) { case 0: findCase<char, Plain<char>>(s, "char"); break; case 1: findCase<std::uint16_t, Plain<std::uint16_t>>(s, "uint16"); break; case 2: findCase<char, WithBoth<char, ciEq>>(s, "case-insensitive alloc"); break; default: findCase<std::uint32_t, WithAlloc<std::uint32_t>>(s, "uint32 alloc"); } }
PROP(S02, replace_large, 1, BRULE) { Big b; switch (s.draw(3)) { case 0: replaceCase<char, Plain<char>>(s, "char"); break; case 1: replaceCase<std::uint16_t, Plain<std::uint16_t>>(s, "uint16"); break; case 2: replaceCase<char, WithBoth<char, ciEq>>(s, "case-insensitive alloc"); break; default: replaceCase<std::uint32_t, WithAlloc<std::uint32_t>>(s, "uint32 alloc"); } }
