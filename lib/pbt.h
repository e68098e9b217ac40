// Property-based testing engine: choice-sequence generation, coverage-guided
// mutation, fork isolation, shrinking, replay.  See DESIGN.md ("The engine").
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>

namespace pbt
{
	typedef std::uint64_t u64;
	struct Failure { std::string msg; };
	struct Discard {};

	struct Src
	{
		// Choices to be replayed, then fresh random ones.
		const u64 *pre; size_t prelen; size_t pos;
		bool fresh;                 // May draw past the prefix (else zeros)
		u64 rng;
		bool verbose;
		std::string text;           // Description of the case (verbose runs only)
		bool trivial; u64 h;        // Non-triviality + content hash
		bool marked;

		u64 rnd();
		u64 draw(u64 max);                         // [0, max], recorded.
		u64 drawTo(u64 max, u64 value);            // recorded with suggested value when fresh
		u64 range(u64 lo, u64 hi);                 // uniform with edge/dictionary bias
		u64 uni(u64 lo, u64 hi) { return lo + draw(hi - lo); }
		std::int64_t irange(std::int64_t lo, std::int64_t hi) { return (std::int64_t)((u64)lo + range(0, (u64)hi - (u64)lo)); }
		bool flip() { return draw(1) != 0; }
		bool chance(unsigned pct);                 // true with pct %, shrinks to false
		size_t len(size_t max);                    // size biased to small
		u64 u64any();                              // any 64-bit, biased to interesting
		std::int64_t i64any() { return (std::int64_t)u64any(); }
		unsigned weighted(const std::vector<unsigned> &w);
		std::string bytes(size_t n, const char *alphabet = NULL);
		std::string str(size_t maxlen, const char *alphabet = NULL) { size_t n = len(maxlen); return bytes(n, alphabet); }

		void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
		void nontrivial(u64 hash = 0) { trivial = false; if (hash) { h = hash; marked = true; } }
		void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
	};
#define CHECK(s, cond, ...) do { if (!(cond)) (s).fail(__VA_ARGS__); } while (0)

	typedef void (*PropFn)(Src &);
	struct Prop { const char *id; const char *name; PropFn fn; unsigned weight; const char *rule; };
	// rule: how cases are made and what makes one non-trivial.
	void reg(const Prop &p);
	struct Reg { Reg(const char *id, const char *name, unsigned weight, PropFn fn, const char *rule) { Prop p = { id, name, fn, weight, rule }; reg(p); } };
#define PROP(id, name, weight, rule) static void prop_##name(pbt::Src &s); static pbt::Reg reg_##name(#id, #name, weight, prop_##name, rule); static void prop_##name(pbt::Src &s)

	int main_(int argc, char **argv);

	u64 hashBytes(const void *p, size_t n, u64 seed = 1469598103934665603ULL);
	inline u64 hashStr(const std::string &x, u64 seed = 1469598103934665603ULL) { return hashBytes(x.data(), x.size(), seed); }
	std::string quote(const std::string &x, size_t maxlen = 200);

	// Live allocations made through operator new / malloc wrappers (per process).
	extern long liveNew; extern thread_local volatile int inNew;
}
#endif
