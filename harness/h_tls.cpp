// T01, T02: thread-local allocator and its mixed variable, on real threads that take turns, with the system allocator counted and made to fail.
#include "pbt.h"
#include <cstdlib>
#include <cerrno>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>
#include <pthread.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "sync/sync_tls.h"
using namespace CubicleSoft;
using pbt::Src; using pbt::u64; using pbt::quote; using Sync::TLS;

namespace
{
	bool armed = false; bool failNext = false; unsigned failHits = 0; long liveBlocks = 0; bool foreign = false;
	void **blockTab; int *blockTag; int curTag = 0; size_t blockN = 0; const size_t BLOCKS = 4096;       // Blocks obtained from the system by the code under test, and for whom.
	void addBlock(void *p) { if (blockN < BLOCKS) { blockTag[blockN] = curTag; blockTab[blockN++] = p; } liveBlocks++; }
	bool delBlock(void *p) { for (size_t i = blockN; i--; ) if (blockTab[i] == p) { blockTab[i] = blockTab[--blockN]; blockTag[i] = blockTag[blockN]; liveBlocks--; return true; } return false; }
	size_t tagged(int tag) { size_t n = 0; for (size_t i = 0; i < blockN; i++) n += blockTag[i] == tag; return n; }
	// Very large blocks: address space whose 2 MB pieces are all the same memory, so that they cost nothing.
	struct Huge { char *p; size_t n; }; Huge huge[8]; int hugeAllow = -1; const size_t HUGE_MIN = (size_t)1 << 30, PIECE = (size_t)4 << 20; bool hugeBroken;
	size_t hugeSize(void *p) { for (Huge &h : huge) if (h.p && h.p == p) return h.n; return 0; }
	void *hugeNew(size_t n)
	{
		if (hugeAllow <= 0 || n > ((size_t)1 << 36)) { errno = ENOMEM; return NULL; }
		hugeAllow--; size_t len = (n + PIECE - 1) / PIECE * PIECE; Huge *e = NULL; for (Huge &h : huge) if (!h.p) { e = &h; break; }
		char *at = (char *)mmap(NULL, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); int fd = (int)syscall(SYS_memfd_create, "verif", 0); bool ok = e && at != (char *)MAP_FAILED && fd >= 0 && !ftruncate(fd, (off_t)PIECE);
		for (size_t i = 0; ok && i < len; i += PIECE) ok = mmap(at + i, PIECE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
		if (fd >= 0) close(fd);
		if (!ok) { if (at != (char *)MAP_FAILED) munmap(at, len); hugeBroken = true; errno = ENOMEM; return NULL; }
		e->p = at; e->n = n; return at;
	}
	bool hugeFree(void *p) { for (Huge &h : huge) if (h.p && h.p == p) { munmap(h.p, (h.n + PIECE - 1) / PIECE * PIECE); h.p = NULL; return true; } return false; }
}
extern "C"
{
	void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *); void *__real_calloc(size_t, size_t);
	void *__wrap_malloc(size_t n) { if (!armed || pbt::inNew) return __real_malloc(n); if (failNext || n > ((size_t)1 << 40)) { failHits++; errno = ENOMEM; return NULL; } if (hugeAllow >= 0 && n >= HUGE_MIN) return hugeNew(n); void *p = __real_malloc(n); if (p) addBlock(p); return p; }
	void *__wrap_calloc(size_t a, size_t b) { if (!armed || pbt::inNew) return __real_calloc(a, b); if (failNext) { failHits++; errno = ENOMEM; return NULL; } void *p = __real_calloc(a, b); if (p) addBlock(p); return p; }
	void *__wrap_realloc(void *q, size_t n) { if (!armed || pbt::inNew) return __real_realloc(q, n); if (failNext || n > ((size_t)1 << 40)) { failHits++; errno = ENOMEM; return NULL; } if (hugeSize(q)) { void *p = hugeNew(n); if (p) { memcpy(p, q, std::min(n, PIECE)); hugeFree(q); } return p; } if (q && !delBlock(q)) foreign = true; void *p = __real_realloc(q, n); if (p) addBlock(p); return p; }
	void __wrap_free(void *p) { if (armed && hugeFree(p)) return; if (armed && !pbt::inNew && p && !delBlock(p)) foreign = true; __real_free(p); }
}
namespace
{
	// Helper threads that run one function at a time for the main thread.
	struct Turn { pthread_t id; pthread_mutex_t m; pthread_cond_t c; std::function<void()> *f; bool quit; };
	Turn turns[2]; bool started[2];
	void *turnMain(void *p)
	{
		Turn *t = (Turn *)p; pthread_mutex_lock(&t->m);
		for (;;) { while (!t->f && !t->quit) pthread_cond_wait(&t->c, &t->m); if (t->quit) break; (*t->f)(); t->f = NULL; pthread_cond_broadcast(&t->c); }
		pthread_mutex_unlock(&t->m); return NULL;
	}
	void on(int th, std::function<void()> f)
	{
		std::function<void()> g = [&] { armed = true; f(); armed = false; };
		if (th == 0) { g(); return; }
		Turn &t = turns[th - 1]; if (!started[th - 1]) { started[th - 1] = true; pthread_mutex_init(&t.m, NULL); pthread_cond_init(&t.c, NULL); t.f = NULL; t.quit = false; pthread_create(&t.id, NULL, turnMain, &t); }
		pthread_mutex_lock(&t.m); t.f = &g; pthread_cond_broadcast(&t.c); while (t.f) pthread_cond_wait(&t.c, &t.m); pthread_mutex_unlock(&t.m);
	}
	void begin() { if (!blockTab) { blockTab = (void **)__real_malloc(BLOCKS * sizeof(void *)); blockTag = (int *)__real_malloc(BLOCKS * sizeof(int)); } curTag = 0; armed = failNext = foreign = false; failHits = 0; liveBlocks = 0; blockN = 0; }
	unsigned char pat(u64 seed, size_t i) { u64 x = (seed + i) * 0x9E3779B97F4A7C15ULL; return (unsigned char)(x >> 56); }
	struct Block { unsigned char *p; size_t n; u64 seed; int th, inst; };
	void fillB(Block &b, size_t from = 0) { size_t n = b.n; if (n > 70000) { for (size_t i = from; i < n; i += (i < 4096 || i > n - 4096 ? 1 : 997)) b.p[i] = pat(b.seed, i); b.p[n - 1] = pat(b.seed, n - 1); } else for (size_t i = from; i < n; i++) b.p[i] = pat(b.seed, i); }
	size_t badAt(const Block &b, size_t n, size_t layout) { for (size_t i = 0; i < n; i += (layout <= 70000 || i < 4096 || i > layout - 4096 ? 1 : 997)) if (b.p[i] != pat(b.seed, i)) return i; return (size_t)-1; }
	size_t genSize(Src &s) { switch (s.weighted({ 6, 4, 3, 2, 1 })) { case 0: return s.uni(0, 40); case 1: { size_t k = (size_t)s.uni(3, 12); return ((size_t)1 << k) + s.uni(0, 2) - 1; } case 2: return s.range(1, 3000); case 3: { size_t k = (size_t)s.uni(12, 17); return ((size_t)1 << k) + s.uni(0, 2) - 1; } default: return s.chance(85) ? s.range(1, 200000) : s.chance(50) ? ~(size_t)0 - s.uni(0, 20) : ((size_t)1 << 63) + s.uni(0, 4) - 2; } }
}

PROP(T01, huge_blocks, 1, "blocks of 2^30 to 2^34 bytes (simulated address space), cached or not: allocated, grown, duplicated, freed and reused; the size requested from the system, the content at the start and the release are checked.  Non-trivial: always.")
{
	begin(); for (Huge &h : huge) h.p = NULL; hugeBroken = false;
	TLS t; size_t bits = s.flip() ? 15 : 40; armed = true; bool r = t.ThreadInit(bits); armed = false; CHECK(s, r, "ThreadInit() failed"); size_t k = 30 + s.draw(4), n = ((size_t)1 << k) + s.draw(2) - 1; if (n < HUGE_MIN) n = HUGE_MIN; s.note("cache limit %zu bits, malloc(%zu)", bits, n);
	struct Off { ~Off() { hugeAllow = -1; armed = false; for (Huge &h : huge) if (h.p) hugeFree(h.p); } } off;
	auto room = [&](void *p) { size_t best = 0; for (Huge &h : huge) if (h.p && (char *)p >= h.p && (char *)p < h.p + h.n) best = (size_t)(h.p + h.n - (char *)p); return best; };
	hugeAllow = 1; armed = true; char *p = (char *)t.malloc(n); armed = false; if (hugeBroken) throw pbt::Discard(); CHECK(s, p != NULL, "malloc(%zu) failed", n); CHECK(s, room(p) >= n, "malloc(%zu) gave room for %zu bytes", n, room(p)); u64 seed = s.draw(1000); for (size_t i = 0; i < 5000; i++) p[i] = (char)pat(seed, i);
	auto same = [&](char *q, const char *what) { for (size_t i = 0; i < 5000; i++) CHECK(s, q[i] == (char)pat(seed, i), "%s lost byte %zu", what, i); };
	bool resized = false; size_t top = n;
	for (unsigned m = 1 + (unsigned)s.draw(2); m; m--) switch (s.weighted({ 3, 3, 2, 2 }))
	{
		case 0:
		{
			size_t z = s.flip() ? std::max(HUGE_MIN, n / 2 + s.draw(3)) : ((size_t)1 << (30 + s.draw(4))) + s.draw(2); bool allow = bits == 15 ? s.chance(70) : top <= ((size_t)1 << 31) && s.chance(15); hugeAllow = allow ? 1 : 0; armed = true; char *q = (char *)t.realloc(p, z); armed = false; if (hugeBroken) throw pbt::Discard(); s.note("realloc(%zu to %zu)%s %s", n, z, allow ? "" : " (system failure)", q ? "ok" : "NULL");
			if (!q) { CHECK(s, !allow, "realloc(%zu) failed", z); same(p, "a failed realloc()"); break; }
			CHECK(s, room(q) >= z, "realloc(%zu) gave room for %zu bytes", z, room(q)); same(q, "realloc()"); p = q; n = z; resized = true; top = std::max(top, n); break;
		}
		case 1:
		{
			bool allow = top <= ((size_t)1 << 31) && s.chance(20); hugeAllow = allow ? 1 : 0; armed = true; char *q = (char *)t.dup_malloc(p, s.flip()); armed = false; if (hugeBroken) throw pbt::Discard(); s.note("dup_malloc(%zu)%s %s", n, allow ? "" : " (system failure)", q ? "ok" : "NULL");
			if (!q) { CHECK(s, !allow, "dup_malloc() of %zu bytes failed", n); same(p, "a failed dup_malloc()"); break; }
			CHECK(s, room(q) >= n, "dup_malloc() of %zu bytes gave room for %zu", n, room(q)); same(q, "dup_malloc()"); CHECK(s, hugeFree(q), "dup_malloc() did not give a block of the system"); p = NULL; m = 1; break;
		}
		case 2: { armed = true; t.free(p, bits == 40); hugeAllow = bits == 40 && !resized ? 0 : 1; char *q = (char *)t.malloc(n); armed = false; if (hugeBroken) throw pbt::Discard(); s.note("free, malloc(%zu) %s", n, q ? "ok" : "NULL"); CHECK(s, q != NULL, "malloc(%zu) failed", n); CHECK(s, room(q) >= n, "malloc(%zu) gave room for %zu bytes", n, room(q)); p = q; for (size_t i = 0; i < 5000; i++) p[i] = (char)pat(seed, i); break; }
		default:
		{
			size_t cls = 30; while (((size_t)1 << cls) < n) cls++;
			size_t nodes = 7, z = 7; bool parked = bits == 40 && !resized; hugeAllow = 1; armed = true; if (parked) t.free(p); bool g = t.GetBucketInfo(cls, nodes, z); armed = false; s.note("%sGetBucketInfo(%zu) %zu %zu", parked ? "free, " : "", cls, nodes, z); CHECK(s, g == (cls < bits), "GetBucketInfo(%zu) returned %d", cls, g);
			if (g) { CHECK(s, !parked || nodes == 1, "GetBucketInfo(%zu) says %zu blocks after a block of %zu bytes was freed", cls, nodes, n); CHECK(s, z == nodes << cls, "GetBucketInfo(%zu) says %zu bytes in %zu blocks", cls, z, nodes); }
			if (parked) { armed = true; hugeAllow = 0; p = (char *)t.malloc(n); armed = false; CHECK(s, p != NULL, "the freed block of %zu bytes was not reused", n); for (size_t i = 0; i < 5000; i++) p[i] = (char)pat(seed, i); }
			break;
		}
	}
	armed = true; if (p) t.free(p); t.ThreadEnd(); armed = false; for (Huge &h : huge) CHECK(s, h.p == NULL, "a block of %zu bytes was not released", h.n); CHECK(s, liveBlocks == 0 && !foreign, "blocks leaked or released twice"); s.nontrivial();
}

#define T01RULE "stateful: start, allocate, reallocate, duplicate, free (cached or not), scoped free, statistics and end over up to three real threads and two allocators with different cache limits; sizes around powers of two up to 200000 and impossible ones; every live block's content and disjointness checked after each call, every system block traced to its release.  Non-trivial: two or more live blocks and a reuse, or a reallocation that moves, or an allocation failure hit."
static void tlsCase(Src &s, bool faults)
{
	begin(); long new0 = pbt::liveNew; bool reuse = false, moved = false; unsigned maxLive = 0; bool hitAny = false;
	{
		unsigned ni = s.chance(30) ? 2 : 1, nt = s.chance(30) ? (unsigned)s.uni(2, 3) : 1; std::unique_ptr<TLS> T[2]; for (unsigned i = 0; i < ni; i++) { armed = true; T[i].reset(new TLS); armed = false; }
		int bits[3][2]; for (auto &r : bits) r[0] = r[1] = -1; std::vector<Block> live; std::set<void *> wasFreed; u64 seed = 1;
		auto verify = [&](const char *after) { for (auto &b : live) { size_t e = badAt(b, b.n, b.n); CHECK(s, e == (size_t)-1, "after %s, byte %zu of a live block of %zu changed", after, e, b.n); } for (auto &a : live) for (auto &b : live) if (&a < &b) CHECK(s, a.p + a.n <= b.p || b.p + b.n <= a.p, "after %s, two live blocks overlap", after); CHECK(s, !foreign, "after %s, a system block was released twice or from its middle", after); if (live.size() > maxLive) maxLive = live.size(); };
		auto init = [&](int th, int in) { curTag = th * 2 + in; int k = s.chance(40) ? -1 : (int)s.uni(0, 18); bool r = false; on(th, [&] { r = k < 0 ? T[in]->ThreadInit() : T[in]->ThreadInit((size_t)k); }); s.note("thread %d allocator %d: ThreadInit(%d) %d", th, in, k, r); CHECK(s, r, "ThreadInit() failed"); if (bits[th][in] < 0) bits[th][in] = k < 0 ? 15 : k; };
		auto endThread = [&](int th, int in) { for (size_t i = 0; i < live.size(); ) if (live[i].th == th && live[i].inst == in) { on(th, [&] { T[in]->free(live[i].p); }); live.erase(live.begin() + i); } else i++; bool r = false; on(th, [&] { r = T[in]->ThreadEnd(); }); s.note("thread %d allocator %d: ThreadEnd() %d", th, in, r); CHECK(s, r == (bits[th][in] >= 0), "ThreadEnd() returned %d", r); CHECK(s, tagged(th * 2 + in) == 0, "%zu blocks of thread %d in allocator %d exist after its ThreadEnd()", tagged(th * 2 + in), th, in); bits[th][in] = -1; };
		if (s.chance(92)) init(0, 0);
		unsigned n = (unsigned)s.uni(2, 30);
		for (unsigned k = 0; k < n; k++)
		{
			int th = nt > 1 ? (int)s.draw(nt - 1) : 0, in = ni > 1 ? (int)s.draw(1) : 0; curTag = th * 2 + in; if (bits[th][in] < 0 && s.chance(85)) init(th, in); bool ok = bits[th][in] >= 0; TLS &t = *T[in]; unsigned hits0 = failHits; bool viaStatic = s.chance(25); long before = liveBlocks;
			switch (s.weighted({ 8, 7, 6, 2, 1, 1, 1 }))
			{
				case 0:
				{
					size_t z = genSize(s); failNext = faults && s.chance(20); void *p = NULL; on(th, [&] { p = viaStatic ? TLS::malloc(&t, z) : t.malloc(z); }); failNext = false; bool hit = failHits != hits0; if (hit) hitAny = true; if (z > ((size_t)1 << 40)) hit = true;
					s.note("thread %d allocator %d: malloc(%zu)%s %s", th, in, z, hit ? " (system failure)" : "", p ? "ok" : "NULL");
					if (!ok || z == 0 || hit) { CHECK(s, p == NULL, "malloc() gave %p for nothing", p); CHECK(s, liveBlocks == before, "a failed malloc() keeps a block"); break; }
					CHECK(s, p != NULL, "malloc(%zu) failed", z); if (wasFreed.erase(p)) reuse = true; Block b = { (unsigned char *)p, z, seed += 1000003, th, in }; fillB(b); live.push_back(b); verify("malloc()"); break;
				}
				case 1:
				{
					if (live.empty()) break; size_t i = s.draw(live.size() - 1); Block &b = live[i]; th = b.th; in = b.inst; curTag = th * 2 + in; TLS &t2 = *T[in]; size_t z = s.chance(60) ? (b.n * 2 + s.uni(0, 3) > 400000 ? 5 : b.n * 2 + s.uni(0, 3) - 1) : genSize(s); bool cache = viaStatic || s.chance(70); failNext = faults && s.chance(25); void *p = NULL; unsigned char *old = b.p; on(th, [&] { p = viaStatic ? TLS::realloc(&t2, old, z) : t2.realloc(old, z, cache); }); failNext = false; bool hit = failHits != hits0; if (hit) hitAny = true; if (z > ((size_t)1 << 40)) { hit = true; CHECK(s, p == NULL, "realloc(%zu) succeeded", z); }
					s.note("thread %d allocator %d: realloc(%zu to %zu, cache %d)%s %s", th, in, b.n, z, cache, hit ? " (system failure)" : "", p ? "ok" : "NULL");
					if (z == 0) { CHECK(s, p == NULL, "realloc() to nothing gave %p", p); live.erase(live.begin() + i); wasFreed.insert(old); verify("realloc()"); break; }
					if (p == NULL) { CHECK(s, hit, "realloc(%zu) failed", z); verify("a failed realloc()"); break; }
					if (p != old) { moved = true; wasFreed.insert(old); } b.p = (unsigned char *)p; size_t keep = std::min(b.n, z), layout = b.n, e = badAt(b, keep, layout); CHECK(s, e == (size_t)-1, "realloc(%zu to %zu) lost byte %zu", layout, z, e); b.n = z; fillB(b); verify("realloc()"); break;
				}
				case 2:
				{
					if (live.empty()) { if (s.flip()) on(th, [&] { t.free(NULL); }); break; } size_t i = s.draw(live.size() - 1); Block b = live[i]; TLS &t2 = *T[b.inst]; bool cache = viaStatic || s.chance(75), scope = s.chance(15);
					on(b.th, [&] { if (scope) { TLS::AutoFree a(&t2, b.p); } else if (viaStatic) TLS::free(&t2, b.p); else t2.free(b.p, cache); }); s.note("thread %d allocator %d: free(%zu, cache %d)%s", b.th, b.inst, b.n, cache, scope ? " by scope" : ""); live.erase(live.begin() + i); wasFreed.insert(b.p);
					if (!cache && !scope) CHECK(s, liveBlocks == before - 1, "an uncached free() kept %ld blocks", liveBlocks - before + 1); else CHECK(s, liveBlocks == before || liveBlocks == before - 1, "free() changed the system blocks by %ld", liveBlocks - before); verify("free()"); break;
				}
				case 3:
				{
					if (live.empty()) { void *p = &s; on(th, [&] { p = t.dup_malloc(NULL); }); CHECK(s, p == NULL, "dup_malloc(NULL)"); break; } size_t i = s.draw(live.size() - 1); Block b = live[i]; curTag = b.th * 2 + b.inst; TLS &t2 = *T[b.inst]; bool cache = s.flip(); failNext = faults && s.chance(25); void *p = NULL; on(b.th, [&] { p = t2.dup_malloc(b.p, cache); }); failNext = false; bool hit = failHits != hits0; if (hit) hitAny = true;
					s.note("thread %d allocator %d: dup_malloc(%zu)%s %s", b.th, b.inst, b.n, hit ? " (system failure)" : "", p ? "ok" : "NULL"); if (!p) { CHECK(s, hit, "dup_malloc() failed"); verify("a failed dup_malloc()"); break; }
					CHECK(s, malloc_usable_size(p) >= b.n, "dup_malloc() of %zu bytes gave %zu", b.n, malloc_usable_size(p)); wasFreed.insert(b.p); Block c = b; c.p = (unsigned char *)p; size_t e = badAt(c, c.n, c.n); CHECK(s, e == (size_t)-1, "dup_malloc() of %zu bytes lost byte %zu", c.n, e); CHECK(s, delBlock(p), "dup_malloc() did not give a block of the system"); __real_free(p); live.erase(live.begin() + i); verify("dup_malloc()"); break;
				}
				case 4: { size_t tot = 0; bool bad = false; for (size_t b = 0; b < 22; b++) { size_t nodes = 77, sz = 77; bool r = false; on(th, [&] { r = t.GetBucketInfo(b, nodes, sz); }); if (r != (ok && (int)b < bits[th][in])) bad = true; if (r) { tot += nodes; if (nodes ? sz < nodes * ((size_t)1 << b) || sz % nodes : sz) bad = true; } } s.note("thread %d allocator %d: statistics, %zu cached", th, in, tot); CHECK(s, !bad, "GetBucketInfo() is wrong"); CHECK(s, tot + live.size() <= (size_t)liveBlocks, "%zu cached and %zu used blocks, but only %ld exist", tot, live.size(), liveBlocks); if (nt == 1 && ni == 1) CHECK(s, tot + live.size() == (size_t)liveBlocks, "%ld blocks exist, %zu are used and %zu cached", liveBlocks, live.size(), tot); break; }
				case 5: if (s.chance(60)) { long l0 = liveBlocks; (void)l0; endThread(th, in); verify("ThreadEnd()"); if (nt == 1 && ni == 1) CHECK(s, liveBlocks == 0, "%ld blocks left after ThreadEnd()", liveBlocks); } break;
				default: init(th, in);
			}
		}
		for (unsigned i = 0; i < ni; i++) for (unsigned th = 0; th < nt; th++) if (bits[th][i] >= 0) { endThread((int)th, (int)i); verify("ThreadEnd()"); }
		CHECK(s, liveBlocks == 0, "%ld blocks leaked", liveBlocks); armed = true; for (auto &x : T) x.reset(); armed = false;
	}
	CHECK(s, pbt::liveNew == new0, "%ld objects leaked", pbt::liveNew - new0);
	if ((maxLive >= 2 && reuse) || moved || hitAny) s.nontrivial();
}
PROP(T01, big_blocks, 1, "blocks of 2^15 to 2^22 bytes with caches of 10 to 24 bits: allocated, grown, shrunk, duplicated, freed to the cache or the system and reused, up to four at a time, every byte compared.  Non-trivial: a block moved or was reused.")
{
	begin(); TLS t; size_t bits = s.flip() ? 15 : 10 + s.draw(14); armed = true; bool r = t.ThreadInit(bits); armed = false; CHECK(s, r, "ThreadInit() failed"); s.note("cache limit %zu bits", bits);
	struct B { unsigned char *p; size_t n; unsigned char c; }; std::vector<B> v; unsigned moved = 0; unsigned char next = 1;
	auto size = [&] { size_t k = 15 + s.weighted({ 4, 4, 4, 4, 3, 2, 1, 1 }); return s.flip() ? ((size_t)1 << k) - 1 + s.draw(2) : ((size_t)1 << k) - s.draw(((size_t)1 << k) / 2 - 1); };
	auto fill = [&](B &b, size_t from) { for (size_t i = from; i < b.n; i += 64) b.p[i] = (unsigned char)(b.c + (i >> 12) * 7); if (b.n > from) b.p[b.n - 1] = (unsigned char)(b.c * 3); };
	auto good = [&](unsigned char *p, const B &b, size_t n, const char *what) { for (size_t i = 0; i < n; i += 64) if (i != b.n - 1) CHECK(s, p[i] == (unsigned char)(b.c + (i >> 12) * 7), "%s: byte %zu of %zu changed", what, i, b.n); if (n == b.n) CHECK(s, p[n - 1] == (unsigned char)(b.c * 3), "%s: the last of %zu bytes changed", what, n); };
	for (unsigned k = 2 + (unsigned)s.draw(8); k; k--)
	{
		unsigned op = v.empty() ? 0 : v.size() > 3 ? 1 + (unsigned)s.draw(2) : s.weighted({ 4, 4, 1, 2 });
		if (op == 0) { B b; b.n = size(); b.c = next++; armed = true; b.p = (unsigned char *)t.malloc(b.n); armed = false; s.note("malloc(%zu)", b.n); CHECK(s, b.p != NULL, "malloc(%zu) failed", b.n); fill(b, 0); v.push_back(b); }
		else
		{
			size_t x = s.draw(v.size() - 1); B &b = v[x];
			if (op == 1) { size_t z = size(); bool cache = s.chance(70); armed = true; unsigned char *q = (unsigned char *)t.realloc(b.p, z, cache); armed = false; s.note("realloc %zu to %zu%s", b.n, z, cache ? "" : ", not cached"); CHECK(s, q != NULL, "realloc(%zu) failed", z); good(q, b, std::min(z, b.n), "realloc()"); if (q != b.p) moved++; b.p = q; b.n = z; b.c = next++; fill(b, 0); }
			else if (op == 2) { bool cache = s.flip(); armed = true; unsigned char *q = (unsigned char *)t.dup_malloc(b.p, cache); armed = false; s.note("dup_malloc of %zu", b.n); CHECK(s, q != NULL, "dup_malloc() failed"); good(q, b, b.n, "dup_malloc()"); armed = true; __wrap_free(q); armed = false; v.erase(v.begin() + x); moved++; }
			else { bool cache = s.chance(70); good(b.p, b, b.n, "free()"); s.note("free of %zu%s", b.n, cache ? "" : ", not cached"); armed = true; t.free(b.p, cache); armed = false; v.erase(v.begin() + x); moved++; }
		}
		for (const B &b : v) good(b.p, b, b.n, "another call");
	}
	armed = true; for (B &b : v) t.free(b.p, s.flip()); t.ThreadEnd(); armed = false; CHECK(s, liveBlocks == 0 && !foreign, "blocks leaked or released twice"); if (moved) s.nontrivial();
}
PROP(T01, allocator_model, 3, T01RULE) { tlsCase(s, false); }
PROP(T01, allocator_faults, 2, T01RULE) { tlsCase(s, true); }

// ---- T02
namespace
{
	std::string digits(u64 v, unsigned r) { std::string t; do { unsigned d = (unsigned)(v % r); t.insert(t.begin(), (char)(d > 9 ? 'A' + d - 10 : '0' + d)); v /= r; } while (v); return t; }
	std::string idigits(std::int64_t v, unsigned r) { return v < 0 ? "-" + digits(0 - (u64)v, r) : digits((u64)v, r); }
	std::string naive(const std::string &d, const std::string &p, const std::string &w, size_t &n) { std::string r; n = 0; for (size_t i = 0; i < d.size(); ) if (!p.empty() && d.compare(i, p.size(), p) == 0) { r += w; i += p.size(); n++; } else r += d[i++]; return r; }
	struct Model { std::string str; bool has; int mode; std::int64_t i; double d; int inst; };
	double genDouble(Src &s) { switch (s.draw(5)) { case 0: return (double)s.i64any(); case 1: return (double)(std::int64_t)s.irange(-1000, 1000) / 8; case 2: { u64 b = s.u64any(); double d; memcpy(&d, &b, 8); return d == d && d - d == 0 ? d : 1.5; } case 3: return 0; case 4: return 1e300; default: return 0.1 * (double)s.uni(0, 100); } }
}
PROP(T02, mixed_var_model, 5, "stateful: set, append, prepend (data, text, signed and unsigned numbers in radix 2 to 36, doubles to any precision), append missing, remove trailing, resize, replace, copy, assign (also between allocators with different cache limits, and to itself) and destroy over three variables against std::string models, contents and lengths crossing every size class.  Non-trivial: a text of nine or more bytes, or a copy or assignment.")
{
	begin(); long new0 = pbt::liveNew; bool copied = false; size_t longest = 0;
	{
		TLS T0, T1; TLS *T[2] = { &T0, &T1 }; armed = true; curTag = 0; T0.ThreadInit(s.flip() ? 15 : (size_t)s.uni(0, 16)); curTag = 1; T1.ThreadInit(s.flip() ? 15 : (size_t)s.uni(0, 16)); armed = false;
		{
			std::unique_ptr<TLS::MixedVar> v[3]; Model m[3]; auto fresh = [&](int i, int in) { armed = true; curTag = in; v[i].reset(new TLS::MixedVar(T[in])); armed = false; m[i] = { "", false, TLS::TMV_None, 0, 0, in }; };
			for (int i = 0; i < 3; i++) fresh(i, s.chance(25) ? 1 : 0);
			auto verify = [&](const char *after)
			{
				for (int i = 0; i < 3; i++)
				{
					TLS::MixedVar &x = *v[i]; Model &w = m[i]; CHECK(s, x.GetSize() == w.str.size(), "after %s, variable %d has size %zu, expected %zu", after, i, x.GetSize(), w.str.size());
					if (w.has) { CHECK(s, x.GetStr() != NULL, "after %s, variable %d has no text", after, i); CHECK(s, !memcmp(x.GetStr(), w.str.data(), w.str.size()) && x.GetStr()[w.str.size()] == 0, "after %s, variable %d is %s, expected %s", after, i, quote(std::string(x.GetStr(), w.str.size() + 1), 80).c_str(), quote(w.str, 80).c_str()); }
					CHECK(s, (int)x.MxMode == w.mode && x.IsNone() == (w.mode == TLS::TMV_None) && x.IsBool() == (w.mode == TLS::TMV_Bool) && x.IsInt() == (w.mode == TLS::TMV_Int) && x.IsUInt() == (w.mode == TLS::TMV_UInt) && x.IsDouble() == (w.mode == TLS::TMV_Double) && x.IsStr() == (w.mode == TLS::TMV_Str), "after %s, variable %d has type %d, expected %d", after, i, (int)x.MxMode, w.mode);
					CHECK(s, x.GetInt() == w.i && x.GetUInt() == (u64)w.i && x.GetBool() == (w.i != 0) && x.GetDouble() == w.d, "after %s, variable %d has another number", after, i); CHECK(s, x.GetTLS() == T[w.inst], "after %s, variable %d has another allocator", after, i); longest = std::max(longest, w.str.size());
				}
				CHECK(s, !foreign, "after %s, a system block was released twice", after);
			};
			auto text = [&](bool nul) { std::string r = s.chance(6) ? std::string(s.range(100, 5000), (char)('a' + s.draw(2))) : s.chance(20) ? s.bytes(s.uni(0, 3)) : s.bytes(s.len(20), "ab/"); if (!nul) for (auto &c : r) if (!c) c = 'n'; return r; };
			unsigned n = (unsigned)s.uni(1, 24);
			for (unsigned k = 0; k < n; k++)
			{
				int i = (int)s.draw(2); TLS::MixedVar &x = *v[i]; Model &w = m[i]; if (w.str.size() > 100000) { fresh(i, w.inst); continue; }
				char what[200]; what[0] = 0; curTag = w.inst;
				#define NOTE(...) do { snprintf(what, sizeof what, __VA_ARGS__); s.note("v%d.%s", i, what); } while (0)
				#define RUN(e) do { armed = true; e; armed = false; } while (0)
				unsigned op = s.weighted({ 3, 5, 4, 4, 4, 3, 2, 2, 2, 3, 4, 3, 4, 1 });
				switch (op)
				{
					case 0: switch (s.draw(3)) { case 0: { bool b = s.flip(); NOTE("SetBool(%d)", b); RUN(x.SetBool(b)); w.mode = TLS::TMV_Bool; w.i = b; break; } case 1: { std::int64_t q = s.i64any(); NOTE("SetInt(%lld)", (long long)q); RUN(x.SetInt(q)); w.mode = TLS::TMV_Int; w.i = q; break; } case 2: { u64 q = s.u64any(); NOTE("SetUInt(%llu)", (unsigned long long)q); RUN(x.SetUInt(q)); w.mode = TLS::TMV_UInt; w.i = (std::int64_t)q; break; } default: { double d = genDouble(s); NOTE("SetDouble(%g)", d); RUN(x.SetDouble(d)); w.mode = TLS::TMV_Double; w.d = d; } } break;
					case 1: case 2: case 3: if (w.has && s.chance(12))
					{
						// Its own text, or a part of it.
						size_t off = s.draw(w.str.size()), z = s.range(0, w.str.size() - off); bool str = s.flip(); std::string own = str ? std::string(w.str.c_str() + off) : w.str.substr(off, z); char *e = x.GetStr() + off; z = own.size(); NOTE("%s%s itself from %zu, %zu bytes", op == 1 ? "Set" : op == 2 ? "Append" : "Prepend", str ? "Str" : "Data", off, z);
						if (op == 1) { RUN(str ? x.SetStr(e) : x.SetData(e, z)); w.str = own; w.mode = TLS::TMV_Str; } else if (op == 2) { RUN(str ? x.AppendStr(e) : x.AppendData(e, z)); w.str += own; } else { RUN(str ? x.PrependStr(e) : x.PrependData(e, z)); w.str = own + w.str; }
						break;
					}
					switch (op)
					{
					case 1: { bool str = s.flip(); std::string t = text(!str); NOTE("%s(%s)", str ? "SetStr" : "SetData", quote(t, 50).c_str()); std::unique_ptr<char[]> e(new char[t.size() + str]); memcpy(e.get(), t.data(), t.size()); if (str) e[t.size()] = 0; RUN(str ? x.SetStr(e.get()) : x.SetData(e.get(), t.size())); w.str = t; w.has = true; w.mode = TLS::TMV_Str; break; }
					case 2: { bool str = s.flip(); std::string t = text(!str); NOTE("%s(%s)", str ? "AppendStr" : "AppendData", quote(t, 50).c_str()); std::unique_ptr<char[]> e(new char[t.size() + str]); memcpy(e.get(), t.data(), t.size()); if (str) e[t.size()] = 0; RUN(str ? x.AppendStr(e.get()) : x.AppendData(e.get(), t.size())); w.str += t; w.has = true; break; }
					case 3: { bool str = s.flip(); std::string t = text(!str); NOTE("%s(%s)", str ? "PrependStr" : "PrependData", quote(t, 50).c_str()); std::unique_ptr<char[]> e(new char[t.size() + str]); memcpy(e.get(), t.data(), t.size()); if (str) e[t.size()] = 0; RUN(str ? x.PrependStr(e.get()) : x.PrependData(e.get(), t.size())); w.str = t + w.str; w.has = true; break; }
					}
					break;
					case 4: { std::int64_t q = s.i64any(); unsigned r = s.flip() ? 10 : s.chance(40) ? 2 : (unsigned)s.uni(2, 36); bool pre = s.flip(), sg = s.flip(), df = r == 10 && s.flip(); NOTE("%s%s(%lld, %u)", pre ? "Prepend" : "Append", sg ? "Int" : "UInt", (long long)q, r); if (df) RUN(pre ? (sg ? x.PrependInt(q) : x.PrependUInt((u64)q)) : (sg ? x.AppendInt(q) : x.AppendUInt((u64)q))); else RUN(pre ? (sg ? x.PrependInt(q, r) : x.PrependUInt((u64)q, r)) : (sg ? x.AppendInt(q, r) : x.AppendUInt((u64)q, r))); std::string t = sg ? idigits(q, r) : digits((u64)q, r); w.str = pre ? t + w.str : w.str + t; w.has = true; break; }
					case 5: { double d = genDouble(s); size_t p = s.flip() ? 16 : s.chance(85) ? s.uni(0, 25) : s.range(0, 700); bool pre = s.flip(), df = p == 16 && s.flip(); NOTE("%sDouble(%g, %zu)", pre ? "Prepend" : "Append", d, p); char b[2000]; snprintf(b, sizeof b, "%1.*g", (int)p, d); if (df) RUN(pre ? x.PrependDouble(d) : x.AppendDouble(d)); else RUN(pre ? x.PrependDouble(d, p) : x.AppendDouble(d, p)); w.str = pre ? b + w.str : w.str + b; w.has = true; break; }
					case 6: { char c = s.flip() ? "ab/"[s.draw(2)] : (char)s.draw(255); NOTE("AppendChar(%d)", c); RUN(x.AppendChar(c)); w.str += c; w.has = true; break; }
					case 7: { char c = s.chance(50) && w.str.size() ? w.str.back() : "ab/"[s.draw(2)]; NOTE("AppendMissingChar(%d)", c); RUN(x.AppendMissingChar(c)); if (w.str.empty() || w.str.back() != c) { w.str += c; w.has = true; } break; }
					case 8: { char c = s.chance(60) && w.str.size() ? w.str.back() : "ab/"[s.draw(2)]; bool r = false; RUN(r = x.RemoveTrailingChar(c)); NOTE("RemoveTrailingChar(%d) %d", c, r); bool want = w.str.size() && w.str.back() == c; CHECK(s, r == want, "RemoveTrailingChar() returned %d", r); if (want) w.str.pop_back(); break; }
					case 9: { size_t z = s.chance(60) ? s.range(0, w.str.size()) : w.str.size() + s.range(0, 40), old = w.str.size(); NOTE("SetSize(%zu)", z); RUN(x.SetSize(z)); CHECK(s, x.GetStr() != NULL && x.GetStr()[z] == 0, "SetSize() did not terminate the text"); CHECK(s, !memcmp(x.GetStr(), w.str.data(), std::min(old, z)), "SetSize() changed the text"); for (size_t q = old; q < z; q++) x.GetStr()[q] = 'f'; w.str.resize(z, 'f'); w.has = true; break; }
					case 10:
					{
						std::string p = s.chance(60) && w.str.size() ? w.str.substr(s.draw(w.str.size() - 1), s.uni(1, 4)) : s.bytes(s.uni(1, 3), "ab/"), r = s.chance(50) ? s.bytes(s.len(12), "ab/x") : p.substr(0, s.draw(p.size())); bool str = s.flip() && p.find('\0') == std::string::npos && r.find('\0') == std::string::npos; NOTE("%s(%s, %s)", str ? "ReplaceStr" : "ReplaceData", quote(p, 40).c_str(), quote(r, 40).c_str()); size_t got = 0, want; std::unique_ptr<char[]> a(new char[p.size() + str]), b(new char[r.size() + str]); memcpy(a.get(), p.data(), p.size()); memcpy(b.get(), r.data(), r.size()); if (str) { a[p.size()] = 0; b[r.size()] = 0; }
						RUN(got = str ? x.ReplaceStr(a.get(), b.get()) : x.ReplaceData(a.get(), p.size(), b.get(), r.size())); w.str = naive(w.str, p, r, want); CHECK(s, got == want, "replaced %zu, expected %zu", got, want); if (x.GetStr()) w.has = true; break;
					}
					case 11: { int j = (int)s.draw(2); if (i == j) { NOTE("= itself"); RUN(x = *v[j]); } else { NOTE("= v%d", j); curTag = m[j].inst; RUN(x = *v[j]); w = m[j]; if (!m[j].has) w.has = false; } copied = true; break; }
					case 12: { int j = (int)s.draw(2); if (i == j) break; NOTE("= copy of v%d", j); curTag = m[j].inst; RUN(v[i].reset(new TLS::MixedVar(*v[j]))); m[i] = m[j]; copied = true; break; }
					default: NOTE("new"); fresh(i, s.chance(25) ? 1 : 0);
				}
				verify(what);
			}
			armed = true; for (auto &x : v) x.reset(); armed = false;
		}
		armed = true; T0.ThreadEnd(); armed = false; CHECK(s, tagged(0) == 0, "%zu blocks of the first allocator exist after its end", tagged(0)); armed = true; T1.ThreadEnd(); armed = false; CHECK(s, !foreign, "a system block was released twice"); CHECK(s, liveBlocks == 0, "%ld blocks leaked", liveBlocks);
	}
	CHECK(s, pbt::liveNew == new0, "%ld objects leaked", pbt::liveNew - new0);
	if (longest >= 9 || copied) s.nontrivial();
}
PROP(T02, int_to_string, 1, "random 64-bit values, signed and unsigned, radix 2 to 36, in exactly allocated buffers around the exact fit: exact digits when they fit, failure when they do not.  Non-trivial: within two bytes of the exact fit.")
{
	bool sg = s.flip(); u64 q = s.u64any(); unsigned r = s.flip() ? 10 : (unsigned)s.uni(2, 36); std::string want = sg ? idigits((std::int64_t)q, r) : digits(q, r); size_t z = s.chance(70) ? (size_t)std::max<long>(0, (long)want.size() + 1 + (long)s.uni(0, 4) - 2) : s.range(0, 80); std::unique_ptr<char[]> b(new char[z]); memset(b.get(), 'Z', z);
	bool ok = sg ? TLS::MixedVar::IntToString(b.get(), z, (std::int64_t)q, r) : TLS::MixedVar::IntToString(b.get(), z, q, r); s.note("%llu %s radix %u in %zu: %d", (unsigned long long)q, sg ? "signed" : "unsigned", r, z, ok);
	CHECK(s, ok == (want.size() + 1 <= z), "returned %d for %zu characters in %zu bytes", ok, want.size(), z); if (ok) CHECK(s, !strcmp(b.get(), want.c_str()), "gave %s, expected %s", b.get(), want.c_str());
	if (z + 2 >= want.size() && z <= want.size() + 3) s.nontrivial();
}
