#include "sim.h"
#include <ucontext.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
#include <cxxabi.h>

extern char __data_start, _end;
namespace sim
{
	Case *C = NULL; std::vector<Fiber *> fibers; int cur = -1; int failShm = 0, failMmap = 0, failClock = 0, failTrunc = 0;
	static u64 now, realBase, monoBase; static unsigned gap; static std::string failure; static bool hasFailed; static unsigned nSwitch;
	static ucontext_t mainCtx;
	struct Stack { ucontext_t c; char *mem; };
	static std::vector<Stack *> pool; static std::vector<Stack *> used;
	const size_t STK = 256 * 1024;

	struct M { int owner, count, type; bool shared, alive; };
	struct Cd { bool shared, alive; clockid_t clk; };
	static std::vector<M> mx; static std::vector<Cd> cd;
	const uint32_t MAGM = 0x4d757478, MAGC = 0x436f6e64, DEAD = 0xdead0bad;
	struct Raw { uint32_t magic, id; };

	struct Seg { int fd; std::string name; mode_t mode; int proc; bool linked; };
	static std::vector<Seg> segs;
	struct Map { char *at; size_t len, res; int seg, proc; };
	static std::vector<Map> maps;
	static std::map<int, int> fds;        // fd -> segment
	static std::map<int, mode_t> masks;

	void warm() { pool.reserve(64); used.reserve(64); }
	bool failed() { return hasFailed; }
	int self() { return cur < 0 ? -1 : fibers[cur]->id; }
	u64 nowNs() { return now; }
	int openMaps() { return (int)maps.size(); }
	bool maskLeft() { for (auto &x : masks) if (x.second != 022) return true; return false; }
	int openFds() { return (int)fds.size(); }
	unsigned switches() { return nSwitch; }
	size_t roomAt(const char *p) { for (const Map &m : maps) if (p >= m.at && p <= m.at + m.len) return m.at + m.len - p; return 0; }

	static void toMain() { Fiber *f = fibers[cur]; nSwitch++; swapcontext(&((Stack *)f->ctx)->c, &mainCtx); }
	void bad(const char *fmt, ...)
	{
		if (!hasFailed) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); failure = b; hasFailed = true; }
		if (cur >= 0) { toMain(); abort(); }
		pbt::Failure f; f.msg = failure; throw f;
	}
	static void fiberMain()
	{
		Fiber *f = fibers[cur];
		f->fn(); f->st = DONE; toMain(); abort();
	}
	Case::Case(pbt::Src &src) : s(src), slow(false), maxGap(0), spurious(0), timeJump(0), steps(0), maxSteps(300000), deadlock(false), ran(false), umaskBad(false)
	{
		C = this; now = 0; hasFailed = false; failure.clear(); cur = -1; gap = 0; nSwitch = 0; failShm = failMmap = failClock = failTrunc = 0;
		mx.assign(1, M()); cd.assign(1, Cd()); masks.clear();
		static const u64 sub[] = { 0, 999999999, 500000000, 999000000, 1, 123456789 };
		realBase = 1700000000ULL * 1000000000ULL + sub[s.draw(5)]; monoBase = 5000ULL * 1000000000ULL + 77;
		switch (s.weighted({ 2, 3, 3, 3, 2 })) { case 0: maxGap = 0; break; case 1: maxGap = 3; break; case 2: maxGap = 10; break; case 3: maxGap = 40; break; default: maxGap = 150; break; }
		slow = s.chance(25); if (slow) timeJump = s.flip() ? 3 : 15;
		spurious = s.chance(25) ? 6 : 0;
	}
	static void forget();
	static void clean()
	{
		for (Fiber *f : fibers) delete f;
		fibers.clear(); for (Stack *x : used) pool.push_back(x);
		used.clear(); cur = -1;
	}
	Case::~Case()
	{
		clean(); for (Map &m : maps) munmap(m.at, m.res);
		maps.clear(); for (auto &x : fds) ::syscall(SYS_close, x.first);
		fds.clear(); for (Seg &g : segs) ::syscall(SYS_close, g.fd);
		std::vector<Seg>().swap(segs); std::vector<M>().swap(mx); std::vector<Cd>().swap(cd); masks.clear(); failure.clear(); failure.shrink_to_fit(); C = NULL;
		forget(); std::vector<Map>().swap(maps); std::vector<Fiber *>().swap(fibers);
	}
	void Case::spawn(int id, int proc, std::function<void()> f)
	{
		Fiber *x = new Fiber(); x->id = id; x->proc = proc; x->st = RUN; x->deadline = ~0ULL; x->waitId = 0; x->wres = 0; x->inCond = false; x->fn = f;
		Stack *k;
		if (pool.empty()) { k = (Stack *)calloc(1, sizeof(Stack)); k->mem = (char *)mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
		else { k = pool.back(); pool.pop_back(); }
		used.push_back(k); x->ctx = k; getcontext(&k->c); k->c.uc_stack.ss_sp = k->mem; k->c.uc_stack.ss_size = STK; k->c.uc_link = NULL;
		makecontext(&k->c, fiberMain, 0); fibers.push_back(x);
	}
	static void expire() { for (Fiber *f : fibers) if ((f->st == COND || f->st == SLEEP) && f->deadline <= now) { f->wres = f->st == COND ? ETIMEDOUT : 0; f->st = RUN; f->deadline = ~0ULL; } }
	void Case::run()
	{
		int last = -1; deadlock = false;
		for (;;)
		{
			if (slow && s.chance(timeJump)) { static const u64 js[] = { 1, 5, 20, 100, 1000 }; now += js[s.draw(4)] * 1000000; expire(); }
			if (spurious && s.chance(spurious)) { std::vector<Fiber *> w; for (Fiber *f : fibers) if (f->st == COND) w.push_back(f); if (!w.empty()) { Fiber *f = w[s.draw(w.size() - 1)]; f->st = RUN; f->wres = 0; f->deadline = ~0ULL; } }
			std::vector<int> r; if (last >= 0 && fibers[last]->st == RUN) r.push_back(last);
			for (size_t i = 0; i < fibers.size(); i++) if (fibers[i]->st == RUN && (int)i != last) r.push_back((int)i);
			if (r.empty())
			{
				u64 d = ~0ULL; bool alive = false;
				for (Fiber *f : fibers) { if (f->st != DONE) alive = true; if (f->st == COND || f->st == SLEEP) d = std::min(d, f->deadline); }
				if (!alive) break;
				if (quiescent) quiescent(d == ~0ULL);
				if (hasFailed) { clean(); pbt::Failure f; f.msg = failure; throw f; }
				if (d == ~0ULL) { deadlock = true; break; }
				if (d > now) now = d;
				if (now > 4000000000ULL * 1000000000ULL) { clean(); s.fail("calls that neither return nor wait for anyone (an endless wait)"); }
				expire(); continue;
			}
			int n = r[r.size() > 1 ? s.draw(r.size() - 1) : 0];
			gap = maxGap ? (unsigned)s.draw(maxGap) : 0;      // 0: until it blocks.
			cur = last = n; steps++; ran = true;
			swapcontext(&mainCtx, &((Stack *)fibers[n]->ctx)->c);
			cur = -1;
			if (hasFailed) { clean(); pbt::Failure f; f.msg = failure; throw f; }
			if (steps > maxSteps) { clean(); s.fail("calls that never return (threads keep running without finishing)"); }
		}
		clean();
	}
	void point() { if (cur < 0) return; if (!gap) { if (++C->steps > C->maxSteps * 20) bad("a call that never returns (it keeps running)"); return; } if (--gap == 0) toMain(); }
	static void block() { toMain(); }
	void sleepNs(u64 ns) { Fiber *f = fibers[cur]; f->st = SLEEP; f->deadline = now + ns; block(); }
	void sleepMs(u64 ms) { sleepNs(ms * 1000000); }

	// Mutexes and condition variables.  Those in static memory exist once per process.
	static std::map<std::pair<void *, int>, int> statM, statC;
	static bool isStatic(void *p) { return (char *)p >= &__data_start && (char *)p < &_end; }
	static int mid(pthread_mutex_t *m)
	{
		if (isStatic(m)) { int &id = statM[std::make_pair((void *)m, fibers[cur]->proc)]; if (!id) { M x = { -1, 0, PTHREAD_MUTEX_NORMAL, false, true }; mx.push_back(x); id = (int)mx.size() - 1; } return id; }
		Raw *r = (Raw *)m; if (r->magic == MAGM && r->id && r->id < mx.size() && mx[r->id].alive) return (int)r->id;
		if (r->magic == DEAD) bad("a mutex is used after it was destroyed");
		if (r->magic != 0 || r->id != 0) bad("a mutex is used that was never initialized");
		M x = { -1, 0, PTHREAD_MUTEX_NORMAL, false, true }; mx.push_back(x); r->magic = MAGM; r->id = (uint32_t)mx.size() - 1; return (int)r->id;
	}
	static int cid(pthread_cond_t *c)
	{
		if (isStatic(c)) { int &id = statC[std::make_pair((void *)c, fibers[cur]->proc)]; if (!id) { Cd x = { false, true, CLOCK_REALTIME }; cd.push_back(x); id = (int)cd.size() - 1; } return id; }
		Raw *r = (Raw *)c; if (r->magic == MAGC && r->id && r->id < cd.size() && cd[r->id].alive) return (int)r->id;
		if (r->magic == DEAD) bad("a condition variable is used after it was destroyed");
		if (r->magic != 0 || r->id != 0) bad("a condition variable is used that was never initialized");
		Cd x = { false, true, CLOCK_REALTIME }; cd.push_back(x); r->magic = MAGC; r->id = (uint32_t)cd.size() - 1; return (int)r->id;
	}
	static void forget() { statM.clear(); statC.clear(); }
	static void lockM(int id)
	{
		while (mx[id].owner >= 0) { Fiber *f = fibers[cur]; f->st = MUTEX; f->waitId = id; f->deadline = ~0ULL; block(); }
		mx[id].owner = cur; mx[id].count = 1;
	}
	static void unlockM(int id)
	{
		mx[id].owner = -1; mx[id].count = 0;
		for (Fiber *f : fibers) if (f->st == MUTEX && f->waitId == id && (mx[id].shared || f->proc == fibers[cur]->proc)) f->st = RUN;
	}
	static int waitC(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline)
	{
		point(); int ci = cid(c), mi = mid(m); if (mx[mi].owner != cur) bad("a condition variable is waited for without holding its mutex");
		int depth = mx[mi].count; unlockM(mi);
		Fiber *f = fibers[cur]; f->inCond = true; f->st = COND; f->waitId = ci; f->deadline = deadline; f->wres = 0;
		if (deadline <= now) { f->st = RUN; f->wres = ETIMEDOUT; f->deadline = ~0ULL; }
		block(); int r = f->wres; lockM(mi); f->inCond = false; mx[mi].count = depth; return r;
	}
	static void wakeC(pthread_cond_t *c, bool all)
	{
		int ci = cid(c); std::vector<Fiber *> w; for (Fiber *f : fibers) if (f->st == COND && f->waitId == ci && (cd[ci].shared || f->proc == fibers[cur]->proc)) w.push_back(f);
		if (w.empty()) return;
		if (!all) { Fiber *f = w[w.size() > 1 ? C->s.draw(w.size() - 1) : 0]; w.assign(1, f); }
		for (Fiber *f : w) { f->st = RUN; f->wres = 0; f->deadline = ~0ULL; }
	}
	static u64 toNow(clockid_t k, const struct timespec *t) { u64 base = k == CLOCK_MONOTONIC ? monoBase : realBase; if (t->tv_sec < 0) return 0; __int128 v = (__int128)t->tv_sec * 1000000000 + t->tv_nsec - (__int128)base; return v < 0 ? 0 : v > (__int128)(1ULL << 62) ? (1ULL << 62) : (u64)v; }
}
using namespace sim;
#define ON (sim::cur >= 0)
extern "C"
{
#define R(ret, name, args) ret __real_##name args; ret __wrap_##name args
	R(int, pthread_mutex_init, (pthread_mutex_t *m, const pthread_mutexattr_t *a))
	{
		if (!ON) return __real_pthread_mutex_init(m, a);
		point(); M x = { -1, 0, PTHREAD_MUTEX_NORMAL, false, true };
		if (a) { int v = 0; pthread_mutexattr_getpshared(a, &v); x.shared = v == PTHREAD_PROCESS_SHARED; pthread_mutexattr_gettype(a, &v); x.type = v; }
		if (isStatic(m)) { mx.push_back(x); statM[std::make_pair((void *)m, fibers[cur]->proc)] = (int)mx.size() - 1; return 0; }
		memset((void *)m, 0xA5, sizeof *m); mx.push_back(x); Raw *r = (Raw *)m; r->magic = MAGM; r->id = (uint32_t)mx.size() - 1; return 0;
	}
	R(int, pthread_mutex_destroy, (pthread_mutex_t *m))
	{
		if (!ON) return __real_pthread_mutex_destroy(m);
		point(); int id = mid(m); if (mx[id].owner >= 0) bad("a mutex is destroyed while it is locked");
		for (Fiber *f : fibers) if (f->st == MUTEX && f->waitId == id) bad("a mutex is destroyed while a thread waits for it");
		mx[id].alive = false; if (!isStatic(m)) ((Raw *)m)->magic = DEAD; return 0;
	}
	R(int, pthread_mutex_lock, (pthread_mutex_t *m))
	{
		if (!ON) return __real_pthread_mutex_lock(m);
		point(); int id = mid(m);
		if (mx[id].owner == cur) { if (mx[id].type == PTHREAD_MUTEX_RECURSIVE) { mx[id].count++; return 0; } if (mx[id].type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
		lockM(id); return 0;
	}
	R(int, pthread_mutex_trylock, (pthread_mutex_t *m))
	{
		if (!ON) return __real_pthread_mutex_trylock(m);
		point(); int id = mid(m);
		if (mx[id].owner >= 0) { if (mx[id].owner == cur && mx[id].type == PTHREAD_MUTEX_RECURSIVE) { mx[id].count++; return 0; } return EBUSY; }
		mx[id].owner = cur; mx[id].count = 1; return 0;
	}
	R(int, pthread_mutex_timedlock, (pthread_mutex_t *m, const struct timespec *t))
	{
		if (!ON) return __real_pthread_mutex_timedlock(m, t);
		point(); int id = mid(m); u64 d = toNow(CLOCK_REALTIME, t);
		if (mx[id].owner == cur && mx[id].type == PTHREAD_MUTEX_RECURSIVE) { mx[id].count++; return 0; }
		while (mx[id].owner >= 0) { if (now >= d) return ETIMEDOUT; sleepNs(std::min<u64>(d - now, 1000000)); }
		mx[id].owner = cur; mx[id].count = 1; return 0;
	}
	R(int, pthread_mutex_unlock, (pthread_mutex_t *m))
	{
		if (!ON) return __real_pthread_mutex_unlock(m);
		point(); int id = mid(m); if (mx[id].owner != cur) { if (mx[id].type == PTHREAD_MUTEX_ERRORCHECK || mx[id].type == PTHREAD_MUTEX_RECURSIVE) return EPERM; bad("an internal mutex is unlocked by a thread that does not hold it"); }
		if (--mx[id].count) return 0;
		unlockM(id); return 0;
	}
	R(int, pthread_cond_init, (pthread_cond_t *c, const pthread_condattr_t *a))
	{
		if (!ON) return __real_pthread_cond_init(c, a);
		point(); Cd x = { false, true, CLOCK_REALTIME }; if (a) { int v = 0; pthread_condattr_getpshared(a, &v); x.shared = v == PTHREAD_PROCESS_SHARED; pthread_condattr_getclock(a, &x.clk); }
		if (isStatic(c)) { cd.push_back(x); statC[std::make_pair((void *)c, fibers[cur]->proc)] = (int)cd.size() - 1; return 0; }
		memset((void *)c, 0xA5, sizeof *c); cd.push_back(x); Raw *r = (Raw *)c; r->magic = MAGC; r->id = (uint32_t)cd.size() - 1; return 0;
	}
	R(int, pthread_cond_destroy, (pthread_cond_t *c))
	{
		if (!ON) return __real_pthread_cond_destroy(c);
		point(); int id = cid(c); for (Fiber *f : fibers) if (f->st == COND && f->waitId == id) bad("a condition variable is destroyed while a thread waits for it");
		cd[id].alive = false; if (!isStatic(c)) ((Raw *)c)->magic = DEAD; return 0;
	}
	R(int, pthread_cond_wait, (pthread_cond_t *c, pthread_mutex_t *m)) { if (!ON) return __real_pthread_cond_wait(c, m); return waitC(c, m, ~0ULL); }
	R(int, pthread_cond_timedwait, (pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t))
	{
		if (!ON) return __real_pthread_cond_timedwait(c, m, t);
		if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
		return waitC(c, m, toNow(cd[cid(c)].clk, t));
	}
	R(int, pthread_cond_clockwait, (pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t))
	{
		if (!ON) return __real_pthread_cond_clockwait(c, m, k, t);
		if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
		return waitC(c, m, toNow(k, t));
	}
	R(int, pthread_cond_signal, (pthread_cond_t *c)) { if (!ON) return __real_pthread_cond_signal(c); point(); wakeC(c, false); return 0; }
	R(int, pthread_cond_broadcast, (pthread_cond_t *c)) { if (!ON) return __real_pthread_cond_broadcast(c); point(); wakeC(c, true); return 0; }
	R(pthread_t, pthread_self, (void)) { if (!ON) return __real_pthread_self(); point(); return (pthread_t)(0x7f0000000000ULL + 0x1000 * (unsigned)(fibers[cur]->id + 1)); }
	R(int, clock_gettime, (clockid_t k, struct timespec *t))
	{
		if (!ON) return __real_clock_gettime(k, t);
		point(); if (failClock) { errno = failClock; failClock = 0; return -1; }
		u64 v = (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? realBase : monoBase) + now; t->tv_sec = (time_t)(v / 1000000000); t->tv_nsec = (long)(v % 1000000000); return 0;
	}
	R(int, gettimeofday, (struct timeval *t, void *z)) { if (!ON) return __real_gettimeofday(t, z); point(); u64 v = realBase + now; t->tv_sec = (time_t)(v / 1000000000); t->tv_usec = (suseconds_t)(v % 1000000000 / 1000); return 0; }
	R(time_t, time, (time_t *t)) { if (!ON) return __real_time(t); time_t v = (time_t)((realBase + now) / 1000000000); if (t) *t = v; return v; }
	R(int, usleep, (useconds_t u)) { if (!ON) return __real_usleep(u); sleepNs((u64)u * 1000); return 0; }
	R(int, nanosleep, (const struct timespec *t, struct timespec *r)) { if (!ON) return __real_nanosleep(t, r); sleepNs((u64)t->tv_sec * 1000000000 + t->tv_nsec); return 0; }
	R(int, sched_yield, (void)) { if (!ON) return __real_sched_yield(); sleepNs(1000); return 0; }

	// Shared memory.
	int __wrap_shm_open(const char *name, int fl, mode_t mode)
	{
		point(); if (failShm) { errno = failShm; failShm = 0; return -1; }
		if (name[0] != '/' || !name[1] || strchr(name + 1, '/')) { errno = EINVAL; return -1; }
		if (strlen(name + 1) > 255) { errno = ENAMETOOLONG; return -1; }
		int p = ON ? fibers[cur]->proc : 0; mode_t mask = masks.count(p) ? masks[p] : 022; int seg = -1;
		for (size_t i = 0; i < segs.size(); i++) if (segs[i].linked && segs[i].name == name) seg = (int)i;
		if (seg >= 0)
		{
			if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
			mode_t need = (fl & O_ACCMODE) == O_RDONLY ? 4 : 6; mode_t have = segs[seg].proc == p ? segs[seg].mode >> 6 : segs[seg].mode;
			if ((have & need) != need) { errno = EACCES; return -1; }
		}
		else
		{
			if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
			Seg g; g.fd = (int)syscall(SYS_memfd_create, "verif", 0); if (g.fd < 0) { perror("memfd_create"); _exit(77); }
			g.name = name; g.mode = mode & ~mask; g.proc = p; g.linked = true; segs.push_back(g); seg = (int)segs.size() - 1;
		}
		if (fl & O_TRUNC) { if (syscall(SYS_ftruncate, segs[seg].fd, 0)) {} }
		int fd = (int)syscall(SYS_dup, segs[seg].fd); if (fd < 0) { perror("dup"); _exit(77); }
		fds[fd] = seg; return fd;
	}
	int __wrap_shm_unlink(const char *name) { point(); for (Seg &g : segs) if (g.linked && g.name == name) { g.linked = false; return 0; } errno = ENOENT; return -1; }
	R(int, ftruncate, (int fd, off_t n)) { if (!ON) return __real_ftruncate(fd, n); point(); if (failTrunc > 0) { failTrunc--; errno = EINTR; return -1; } return __real_ftruncate(fd, n); }
	R(int, ftruncate64, (int fd, off_t n)) { if (!ON) return __real_ftruncate64(fd, n); point(); if (failTrunc > 0) { failTrunc--; errno = EINTR; return -1; } return __real_ftruncate64(fd, n); }
	R(int, close, (int fd)) { if (ON && fds.count(fd)) { point(); fds.erase(fd); } return (int)syscall(SYS_close, fd); }
	R(mode_t, umask, (mode_t m)) { if (!ON) return __real_umask(m); point(); int p = fibers[cur]->proc; mode_t o = masks.count(p) ? masks[p] : 022; masks[p] = m & 0777; return o; }
	R(void *, mmap, (void *a, size_t n, int pr, int fl, int fd, off_t off))
	{
		if (!ON || fd < 0 || !fds.count(fd)) return __real_mmap(a, n, pr, fl, fd, off);
		point(); if (failMmap) { errno = failMmap; failMmap = 0; return MAP_FAILED; }
		if (n == 0 || n > ((size_t)1 << 40)) { errno = n ? ENOMEM : EINVAL; return MAP_FAILED; }
		size_t len = (n + 4095) / 4096 * 4096, res = len + 4096;
		char *at = (char *)__real_mmap(NULL, res, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (at == (char *)MAP_FAILED) return at;
		void *r = __real_mmap(at, len, pr, fl | MAP_FIXED, fd, off); if (r == MAP_FAILED) { int e = errno; munmap(at, res); errno = e; return r; }
		Map m = { at, len, res, fds[fd], fibers[cur]->proc }; maps.push_back(m); return at;
	}
	R(int, munmap, (void *a, size_t n))
	{
		if (ON) for (size_t i = 0; i < maps.size(); i++) if (maps[i].at == (char *)a)
		{
			point(); size_t len = (n + 4095) / 4096 * 4096;
			for (i = 0; i < maps.size() && maps[i].at != (char *)a; i++);
			if (i == maps.size()) return 0;
			if (len > maps[i].len) bad("%zu bytes are unmapped from a shared memory mapping of only %zu bytes", len, maps[i].len);
			if (len < maps[i].len) return __real_munmap(a, len);        // Leaves the rest behind: reported as a leak.
			size_t res = maps[i].res; maps.erase(maps.begin() + (long)i); return __real_munmap(a, res);
		}
		return __real_munmap(a, n);
	}
	// ThreadSanitizer's instrumentation interface.
	void __tsan_init() {}
	void __tsan_func_entry(void *) {}
	void __tsan_func_exit() {}
	void __tsan_vptr_update(void **, void *) { point(); }
	void __tsan_vptr_read(void **) { point(); }
	void __tsan_read_range(void *, unsigned long) { point(); }
	void __tsan_write_range(void *, unsigned long) { point(); }
#define A1(n) void __tsan_read##n(void *) { point(); } void __tsan_write##n(void *) { point(); } void __tsan_unaligned_read##n(void *) { point(); } void __tsan_unaligned_write##n(void *) { point(); } \
	void __tsan_volatile_read##n(void *) { point(); } void __tsan_volatile_write##n(void *) { point(); } void __tsan_unaligned_volatile_read##n(void *) { point(); } void __tsan_unaligned_volatile_write##n(void *) { point(); } \
	void __tsan_read_write##n(void *) { point(); } void __tsan_unaligned_read_write##n(void *) { point(); }
	A1(1) A1(2) A1(4) A1(8) A1(16)
	void *__tsan_memcpy(void *d, const void *x, size_t n) { point(); return memcpy(d, x, n); }
	void *__tsan_memmove(void *d, const void *x, size_t n) { point(); return memmove(d, x, n); }
	void *__tsan_memset(void *d, int v, size_t n) { point(); return memset(d, v, n); }
#define AT(b, T) \
	T __tsan_atomic##b##_load(const volatile T *a, int) { point(); return *a; } \
	void __tsan_atomic##b##_store(volatile T *a, T v, int) { point(); *a = v; } \
	T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { point(); T o = *a; *a = v; return o; } \
	T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { point(); T o = *a; *a = (T)(o + v); return o; } \
	T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { point(); T o = *a; *a = (T)(o - v); return o; } \
	T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { point(); T o = *a; *a = (T)(o & v); return o; } \
	T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { point(); T o = *a; *a = (T)(o | v); return o; } \
	T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { point(); T o = *a; *a = (T)(o ^ v); return o; } \
	T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { point(); T o = *a; *a = (T)~(o & v); return o; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { point(); T o = *a; if (o == c) *a = v; return o; }
	AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
	void __tsan_atomic_thread_fence(int) { point(); }
	void __tsan_atomic_signal_fence(int) {}
}
