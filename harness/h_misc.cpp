// A01, A02, R01, L01: application information, random numbers and shared libraries, with the system calls replaced by scripted stand-ins.
#include "pbt.h"
#include <cstdlib>
#include <cerrno>
#include <cmath>
#include <memory>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <fcntl.h>
#include <pwd.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include "utf8/utf8_appinfo.h"
#include "environment/environment_appinfo.h"
#include "security/security_csprng.h"
#include <dlfcn.h>
extern "C" void *fake_dlopen(const char *, int); extern "C" void *fake_dlsym(void *, const char *); extern "C" int fake_dlclose(void *);
#define dlopen fake_dlopen
#define dlsym fake_dlsym
#define dlclose fake_dlclose
#include "templates/shared_lib.h"
#undef dlopen
#undef dlsym
#undef dlclose
using namespace CubicleSoft;
using pbt::Src; using pbt::u64; using pbt::quote;

namespace
{
	// Application information.
	bool armApp = false; std::string exeLink, exeReal, argvReal; bool haveExe, exeGone, argvGone; std::string argv0; struct passwd pw; bool havePw; std::string pwDir;
	unsigned realBlocks = 0;
	// Random source.
	struct Step { int kind; size_t n; int err; };     // 0 full, 1 short, 2 EINTR, 3 error, 4 end of file
	bool armRnd = false; std::map<int, std::string> rfds; int nextFd = 100000; std::set<std::string> devGone; std::vector<Step> script; size_t step; std::string delivered; u64 rstate; unsigned reads, badClose; std::vector<std::string> opened; int lastKind; unsigned tail; int tailErr = 5; bool avoidAA; const std::string *feed; size_t feedPos;
	struct Endless {};
	// Shared libraries.
	bool armDl = false;
	struct Lib { int loads, closes; }; std::map<std::string, Lib> libs; std::map<void *, std::string> handles; u64 symCalls; bool usedClosed; std::map<std::string, void *> syms;
	// Time.
	bool armTime = false; struct timeval fakeTv; bool timeFails;
}
extern "C"
{
	ssize_t __real_readlink(const char *, char *, size_t); char *__real_realpath(const char *, char *); struct passwd *__real_getpwuid(uid_t);
	int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int);
	int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *); time_t __real_time(time_t *);

	ssize_t __wrap_readlink(const char *p, char *b, size_t n)
	{
		if (!armApp) return __real_readlink(p, b, n);
		if (n == 0) { errno = EINVAL; return -1; }
		if (strcmp(p, "/proc/self/exe") || !haveExe) { errno = ENOENT; return -1; }
		size_t k = std::min(n, exeLink.size()); memcpy(b, exeLink.data(), k); return (ssize_t)k;
	}
	char *__wrap_realpath(const char *p, char *out)
	{
		if (!armApp) return __real_realpath(p, out);
		std::string r = p; if (r.empty()) { errno = ENOENT; return NULL; }
		if (haveExe && r == exeLink) { if (exeGone) { errno = ENOENT; return NULL; } r = exeReal; } else if (r == argv0) { if (argvGone) { errno = ENOENT; return NULL; } r = argvReal; }      // Anything else exists as it is.
		if (out) { strcpy(out, r.c_str()); return out; }
		return strdup(r.c_str());
	}
	struct passwd *__wrap_getpwuid(uid_t u) { if (!armApp) return __real_getpwuid(u); if (!havePw) return NULL; pw.pw_dir = (char *)pwDir.c_str(); return &pw; }
	int __wrap_open(const char *p, int fl, ...)
	{
		va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (!armRnd) return __real_open(p, fl, m);
		opened.push_back(p); if (devGone.count(p) || strncmp(p, "/dev/", 5)) { errno = ENOENT; return -1; } rfds[nextFd] = p; return nextFd++;
	}
	int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __wrap_open(p, fl, m); }
	ssize_t __wrap_read(int f, void *b, size_t n)
	{
		if (!armRnd) return __real_read(f, b, n);
		if (!rfds.count(f)) { errno = EBADF; return -1; }
		if (++reads > 20000) throw Endless();
		Step st = { 0, 0, 0 }; if (step < script.size()) st = script[step++]; else if (tail == 3) st = { 3, 0, tailErr }; else if (tail == 4) st = { 4, 0, 0 };
		lastKind = st.kind;
		switch (st.kind) { case 2: errno = EINTR; return -1; case 3: errno = st.err; return -1; case 4: return 0; case 1: if (n > 1) n = 1 + st.n % (n - 1); break; default: break; }
		for (size_t i = 0; i < n; i++) { unsigned char c; if (feed && feedPos < feed->size()) c = (unsigned char)(*feed)[feedPos++]; else { rstate = rstate * 6364136223846793005ULL + 1442695040888963407ULL; u64 x = rstate ^ (rstate >> 29); x *= 0xBF58476D1CE4E5B9ULL; c = (unsigned char)(x >> 56); } if (avoidAA && c == 0xAA) c = 0x55; ((unsigned char *)b)[i] = c; delivered += (char)c; }
		return (ssize_t)n;
	}
	int __wrap_close(int f) { if (!armRnd) return __real_close(f); if (rfds.count(f)) { rfds.erase(f); return 0; } if (f >= 0) badClose++; errno = EBADF; return -1; }
	void *fake_dlopen(const char *p, int fl) { if (!armDl) return ::dlopen(p, fl); if (!p || !libs.count(p) || !(fl & (RTLD_LAZY | RTLD_NOW))) return NULL; Lib &l = libs[p]; if ((fl & RTLD_NOLOAD) && l.loads <= l.closes) return NULL; l.loads++; void *h = &l; handles[h] = p; return h; }
	void *fake_dlsym(void *h, const char *n) { if (!armDl) return ::dlsym(h, n); symCalls++; if (!handles.count(h)) { usedClosed = true; return NULL; } Lib &l = libs[handles[h]]; if (l.closes >= l.loads) usedClosed = true; auto i = syms.find(handles[h] + ":" + n); return i == syms.end() ? NULL : i->second; }
	int fake_dlclose(void *h) { if (!armDl) return ::dlclose(h); if (!handles.count(h)) { usedClosed = true; return -1; } libs[handles[h]].closes++; return 0; }
	int __wrap_gettimeofday(struct timeval *t, void *z) { if (!armTime) return __real_gettimeofday(t, z); if (timeFails) { errno = EFAULT; return -1; } *t = fakeTv; return 0; }
	int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!armTime) return __real_clock_gettime(c, t); if (timeFails) { errno = EINVAL; return -1; } t->tv_sec = fakeTv.tv_sec; t->tv_nsec = fakeTv.tv_usec * 1000; return 0; }
	time_t __wrap_time(time_t *t) { if (!armTime) return __real_time(t); if (t) *t = fakeTv.tv_sec; return fakeTv.tv_sec; }
}

// ---- A01
namespace
{
	struct AppGuard { AppGuard() { armApp = true; } ~AppGuard() { armApp = false; } };
	std::string genPath(Src &s, bool dir)
	{
		std::string r; if (s.chance(4)) return s.flip() ? "/" : ""; unsigned k = (unsigned)s.uni(1, 4); for (; k; k--) r += "/" + (s.chance(5) ? s.bytes(s.range(100, 300), "xyz") : s.chance(15) ? s.bytes(s.uni(1, 12), "ab.\\ \xC3\xA9-_") : s.bytes(s.uni(1, 9), "abcdefgh.-_"));
		if (dir && s.chance(20)) r += "/"; return r;
	}
	// Runs a call in an exactly allocated buffer, checking the frame conditions.
	template<class F> bool call(Src &s, const char *what, size_t sz, std::string &out, size_t &size, F f)
	{
		std::unique_ptr<char[]> b(new char[sz]); memset(b.get(), 'Z', sz); size = sz; bool r; { AppGuard g; r = f(b.get(), size); }
		s.note("%s in %zu bytes: %d, size %zu", what, sz, r, size);
		if (r) { CHECK(s, size >= 1 && size <= sz, "%s reports %zu bytes in a buffer of %zu", what, size, sz); CHECK(s, strnlen(b.get(), sz) + 1 == size, "%s reports %zu bytes, but the text has %zu and its terminator", what, size, strnlen(b.get(), sz)); out.assign(b.get(), size - 1); }
		else { CHECK(s, size == 0, "%s failed with size %zu", what, size); }
		return r;
	}
	size_t fit(Src &s, size_t n) { return s.chance(60) ? (size_t)std::max<long>(0, (long)n + 1 + (long)s.uni(0, 4) - 2) : s.chance(70) ? s.range(0, n + 8) : s.range(0, 9000); }
}
PROP(A01, app_storage, 4, "random home directories (unset, empty, root, trailing slash, long, from the user database or missing there), application names and buffer sizes around the exact fit, in exactly allocated buffers.  Non-trivial: within two bytes of the exact fit, or a path of ten or more characters.")
{
	bool envSet = s.chance(75); std::string home = genPath(s, true); havePw = s.chance(80); pwDir = genPath(s, true); if (pwDir.empty()) pwDir = "/"; memset(&pw, 0, sizeof pw);
	if (envSet) setenv("HOME", home.c_str(), 1); else unsetenv("HOME");
	bool app = s.chance(75); std::string name = s.chance(4) ? "" : s.chance(10) ? s.bytes(s.range(50, 400), "n/") : s.bytes(s.uni(1, 14), "app\xC3\xA9. -") + (s.chance(20) ? "/" : s.chance(10) ? "/sub" : ""); const char *a = app ? name.c_str() : NULL;
	auto compose = [&](std::string base, const char *pre) { if (base.empty() || base.back() != '/') base += '/'; if (app) { base += pre; base += name; if (base.back() != '/') base += '/'; } return base; };
	std::string got; size_t size; unsigned which = s.weighted({ 5, 2, 2 });
	std::string want; bool known = true, loose = false;
	switch (which)
	{
		case 0: if (envSet) { want = compose(home, "."); if (home.empty()) loose = true; } else if (havePw) want = compose(pwDir, "."); else known = false; break;
		case 1: want = compose("/var/lib/", ""); break;
		default: want = "/tmp/"; break;
	}
	if (app && name.empty()) loose = true;
	size_t sz = fit(s, want.size()); s.note("HOME %s%s, user database %s%s, application %s", envSet ? "" : "unset ", envSet ? quote(home, 60).c_str() : "", havePw ? "" : "missing ", havePw ? quote(pwDir, 60).c_str() : "", app ? quote(name, 60).c_str() : "none");
	bool r = which == 0 ? call(s, "user storage", sz, got, size, [&](char *b, size_t &z) { return UTF8::AppInfo::GetCurrentUserAppStorageDir(b, z, a); }) : which == 1 ? call(s, "system storage", sz, got, size, [&](char *b, size_t &z) { return UTF8::AppInfo::GetSystemAppStorageDir(b, z, a); }) : call(s, "temporary directory", sz, got, size, [&](char *b, size_t &z) { return UTF8::AppInfo::GetTempStorageDir(b, z); });
	if (!known) CHECK(s, !r, "succeeded without a known location");
	else if (loose) { if (r) CHECK(s, got.size() && got.back() == '/', "%s does not end in a slash", quote(got).c_str()); else CHECK(s, home.empty() || sz < want.size() + 1, "failed although %zu bytes fit in %zu", want.size() + 1, sz); }
	else { CHECK(s, r == (want.size() + 1 <= sz), "returned %d for %zu bytes in a buffer of %zu", r, want.size() + 1, sz); if (r) CHECK(s, got == want, "gave %s, expected %s", quote(got).c_str(), quote(want).c_str()); }
	if (want.size() >= 10 || (sz + 2 >= want.size() && sz <= want.size() + 3)) s.nontrivial();
}
PROP(A01, app_executable, 3, "random executable locations reported by the system (or by the first argument when the system does not know), link texts that resolve to other paths, vanished executables, and buffer sizes around the exact fit; any shorter path also exists, so a cut-off path would be resolved.  Non-trivial: within two bytes of the exact fit, or failure.")
{
	haveExe = s.chance(75); exeLink = genPath(s, false); if (exeLink.size() < 2) exeLink = "/x"; if (s.chance(3)) exeLink += std::string(s.range(200, 4300), 'x'); exeReal = s.chance(80) ? exeLink : genPath(s, false); if (exeReal.size() < 2) exeReal = "/y"; exeGone = s.chance(5);
	bool haveArgv = s.chance(75); argv0 = s.flip() ? genPath(s, false) : "./" + s.bytes(s.uni(1, 8), "prog"); if (argv0.empty()) argv0 = "p"; argvReal = genPath(s, false); if (argvReal.size() < 2) argvReal = "/z"; argvGone = s.chance(10); if (argv0 == exeLink) argvReal = exeReal;
	std::string want = haveExe ? exeReal : argvReal; bool known = haveExe ? !exeGone : haveArgv && !argvGone, dir = s.flip(); std::string wantDir = want.substr(0, want.rfind('/') + 1);
	size_t sz = fit(s, want.size()), size; std::string got; s.note("system says %s%s -> %s%s; argument %s -> %s%s", haveExe ? "" : "nothing, not ", quote(exeLink, 50).c_str(), quote(exeReal, 50).c_str(), exeGone ? " (gone)" : "", haveArgv ? quote(argv0, 50).c_str() : "none", quote(argvReal, 50).c_str(), argvGone ? " (gone)" : "");
	const char *a = haveArgv ? argv0.c_str() : NULL;
	bool r = dir ? call(s, "executable path", sz, got, size, [&](char *b, size_t &z) { return UTF8::AppInfo::GetExecutablePath(b, z, a); }) : call(s, "executable filename", sz, got, size, [&](char *b, size_t &z) { return UTF8::AppInfo::GetExecutableFilename(b, z, a); });
	const std::string &w = dir ? wantDir : want; bool fits = want.size() + 1 <= sz, fitsDir = wantDir.size() + 1 <= sz;
	bool argvToo = haveExe && haveArgv && !argvGone;       // A system answer that cannot be used may fall back to the argument.
	if (r) { if (haveExe && exeGone) CHECK(s, argvToo && got == (dir ? argvReal.substr(0, argvReal.rfind('/') + 1) : argvReal), "gave %s for a vanished executable", quote(got).c_str()); else { CHECK(s, known, "succeeded without a known location"); CHECK(s, got == w, "gave %s, expected %s", quote(got).c_str(), quote(w).c_str()); CHECK(s, dir ? fitsDir : fits, "does not fit"); } }
	else CHECK(s, !known || !fits || (haveExe && exeLink.size() >= sz), "failed although %zu bytes fit in %zu", want.size() + 1, sz);
	if (!r || (sz <= want.size() + 3)) s.nontrivial();
}

// ---- A02
PROP(A02, identity, 2, "random trees of forked processes and threads, each reporting its process and thread identity, compared with the system's own view: equal within a thread at any time, distinct between live threads, and the child's differing from the parent's.  Non-trivial: two or more threads or a fork.")
{
	unsigned n = (unsigned)s.uni(1, 4); bool frk = s.chance(40); s.note("%u threads%s", n, frk ? ", one fork" : "");
	struct T { pthread_t self, seen, again; pid_t pid; pthread_barrier_t *b; }; std::vector<T> t(n); pthread_barrier_t bar; pthread_barrier_init(&bar, NULL, n); std::vector<pthread_t> id(n);
	for (unsigned i = 0; i < n; i++) { t[i].b = &bar; CHECK(s, pthread_create(&id[i], NULL, [](void *p) -> void * { T *t = (T *)p; t->self = pthread_self(); t->seen = Environment::AppInfo::GetCurrentThreadID(); pthread_barrier_wait(t->b); t->again = Environment::AppInfo::GetCurrentThreadID(); t->pid = Environment::AppInfo::GetCurrentProcessID(); pthread_barrier_wait(t->b); return NULL; }, &t[i]) == 0, "thread"); }
	for (auto &x : id) pthread_join(x, NULL); pthread_barrier_destroy(&bar);
	for (unsigned i = 0; i < n; i++) { CHECK(s, t[i].seen == t[i].self && t[i].again == t[i].self, "thread %u has another identity", i); CHECK(s, t[i].pid == getpid(), "process identity %d, expected %d", (int)t[i].pid, (int)getpid()); for (unsigned j = 0; j < i; j++) CHECK(s, t[i].seen != t[j].seen, "two live threads share an identity"); }
	CHECK(s, Environment::AppInfo::GetCurrentProcessID() == getpid(), "process identity");
	if (frk) { pid_t parent = getpid(); pid_t p = fork(); if (p == 0) _exit(Environment::AppInfo::GetCurrentProcessID() == getpid() && getpid() != parent && Environment::AppInfo::GetCurrentThreadID() == pthread_self() ? 0 : 1); int st = 1; waitpid(p, &st, 0); CHECK(s, st == 0, "the child has the wrong identity"); }
	if (n > 1 || frk) s.nontrivial();
}
PROP(A02, clock, 3, "random clock values, over the whole range of seconds and microseconds, and failing clocks: the reported time is the exact number of microseconds, in the order of the clock.  Non-trivial: above 2^32 microseconds.")
{
	u64 last = 0; struct timeval lt = { 0, 0 }; bool have = false, big = false; unsigned n = (unsigned)s.uni(1, 6);
	for (unsigned i = 0; i < n; i++)
	{
		fakeTv.tv_sec = (time_t)(s.flip() ? s.range(0, 0xFFFFFFFFULL * 2) : s.range(0, 18000000000000ULL)); fakeTv.tv_usec = (suseconds_t)(s.chance(30) ? (s.flip() ? 0 : 999999) : s.range(0, 999999)); timeFails = s.chance(10); s.note("clock %lld.%06ld%s", (long long)fakeTv.tv_sec, (long)fakeTv.tv_usec, timeFails ? " fails" : "");
		armTime = true; u64 g = Environment::AppInfo::GetUnixMicrosecondTime(); armTime = false; u64 w = (u64)fakeTv.tv_sec * 1000000 + (u64)fakeTv.tv_usec;
		if (timeFails) { CHECK(s, g == 0, "a failing clock gave %llu", (unsigned long long)g); continue; }
		CHECK(s, g == w, "gave %llu, expected %llu", (unsigned long long)g, (unsigned long long)w);
		if (have) CHECK(s, (g < last) == (fakeTv.tv_sec < lt.tv_sec || (fakeTv.tv_sec == lt.tv_sec && fakeTv.tv_usec < lt.tv_usec)), "order"); have = true; last = g; lt = fakeTv; if (w >> 32) big = true;
	}
	if (big) s.nontrivial();
}

// ---- R01
namespace
{
	void resetRnd(Src &s) { nextFd = 100000; rfds.clear(); devGone.clear(); script.clear(); step = 0; delivered.clear(); rstate = s.draw(0xFFFFFFFF) * 0x9E3779B97F4A7C15ULL + 1; reads = badClose = 0; opened.clear(); tail = 0; avoidAA = false; feed = NULL; feedPos = 0; }
	struct RndGuard { RndGuard() { armRnd = true; } ~RndGuard() { armRnd = false; } };
}
PROP(R01, random_bytes, 4, "random request histories (sizes 0 to 70000, integers in between) on secure and ordinary generators over a scripted source with missing devices, short reads, interruptions, errors and end of file at any read; a success must have filled exactly the buffer, in order and freshly, from the delivered bytes.  Non-trivial: a fault hit or more than one request.")
{
	resetRnd(s); avoidAA = true; nextFd = s.chance(15) ? (int)s.draw(2) : 100000;  bool safe = s.flip(); if (s.chance(10)) devGone.insert("/dev/random"); if (s.chance(90)) devGone.insert("/dev/arandom"); if (s.chance(8)) devGone.insert("/dev/urandom");
	bool gone = safe ? devGone.count("/dev/random") : devGone.count("/dev/urandom") && devGone.count("/dev/arandom"); bool fault = false; size_t used = 0; unsigned n = (unsigned)s.uni(1, 5), done = 0; bool endless = false;
	{
		std::unique_ptr<Security::CSPRNG> g; { RndGuard a; g.reset(new Security::CSPRNG(safe)); }
		CHECK(s, rfds.size() <= 1, "opened two sources"); if (rfds.size()) { const std::string &p = rfds.begin()->second; CHECK(s, safe ? p == "/dev/random" : p == "/dev/arandom" || p == "/dev/urandom", "opened %s for a %s generator", p.c_str(), safe ? "secure" : "ordinary"); }
		for (unsigned i = 0; i < n; i++)
		{
			script.clear(); step = 0; tail = 0; reads = 0; unsigned k = s.chance(60) ? (unsigned)s.uni(1, 5) : 0; bool stop = false; std::string d;
			for (unsigned j = 0; j < k && !stop; j++) switch (s.weighted({ 2, 4, 3, 1, 1 })) { case 0: script.push_back({ 0, 0, 0 }); d += " full"; break; case 1: script.push_back({ 1, (size_t)s.draw(70000), 0 }); d += " short"; break; case 2: script.push_back({ 2, 0, 0 }); d += " EINTR"; break; case 3: { static const int es[] = { EIO, EAGAIN, EBADF, EINVAL, EISDIR, ENOMEM }; tail = 3; tailErr = es[s.draw(5)]; stop = true; d += std::string(" ") + strerror(tailErr) + " forever"; break; } default: tail = 4; stop = true; d += " end of file"; }
			bool integer = s.chance(25); size_t sz = integer ? 8 : s.chance(10) ? s.range(0, 70000) : s.len(64); s.note("%s %zu bytes; source%s%s", integer ? "integer from" : "request", sz, gone ? " missing" : "", d.size() ? d.c_str() : " ok");
			std::unique_ptr<std::uint8_t[]> b(new std::uint8_t[sz]); memset(b.get(), 0xAA, sz); bool r = false; u64 v = 0; size_t before = delivered.size();
			try { RndGuard a; r = integer ? g->GetInteger(v, 0, ~0ULL) : g->GetBytes(b.get(), sz); } catch (Endless &) { endless = true; }
			CHECK(s, !endless, "the request never ends");
			if (integer && r) { CHECK(s, delivered.size() >= before + 8, "an integer out of %zu random bytes", delivered.size() - before); used = delivered.size(); }
			if (step && script.size()) fault = true; if (tail && step >= script.size() && reads > step) fault = true;
			if (gone) { CHECK(s, !r || sz == 0, "succeeded without a source"); continue; }
			if (!r) { CHECK(s, tail != 0, "failed although the source works"); used = delivered.size(); continue; }
			if (integer) continue;
			done++;
			for (size_t x = 0; x < sz; x++) { CHECK(s, b[x] != 0xAA, "byte %zu of %zu was not filled", x, sz); while (used < delivered.size() && (std::uint8_t)delivered[used] != b[x]) used++; CHECK(s, used < delivered.size(), "byte %zu of %zu does not come freshly from the source", x, sz); used++; }
		}
		{ RndGuard a; g.reset(); }
	}
	CHECK(s, rfds.empty(), "source left open"); CHECK(s, badClose == 0, "closed a descriptor that is not its own");
	if (fault || done > 1) s.nontrivial();
}
PROP(R01, random_integers, 3, "random bounds in either order (equal, adjacent, powers of two and their neighbours, three quarters of the range, the whole range): every draw within the bounds, 1500 draws over equal parts of the range pass a chi-squared test with a threshold far beyond chance (p below 1e-14), and small ranges reach every value.  Non-trivial: two or more values in the range.")
{
	resetRnd(s); u64 lo, span; switch (s.weighted({ 3, 3, 3, 3, 1, 1 })) { case 0: span = s.range(0, 16); break; case 1: { unsigned k = (unsigned)s.uni(1, 63); span = (1ULL << k) + s.uni(0, 2) - 1; break; } case 2: { unsigned k = (unsigned)s.uni(1, 62); span = (1ULL << k) + (1ULL << (k - 1)) + s.uni(0, 2) - 1; break; } case 3: span = s.u64any(); break; case 4: span = ~0ULL; break; default: span = s.range(0, 300); }
	lo = span == ~0ULL ? 0 : s.range(0, ~0ULL - span); bool swap = s.flip(); u64 hi = lo + span; s.note("between %llu and %llu%s", (unsigned long long)lo, (unsigned long long)hi, swap ? ", swapped" : "");
	unsigned parts = span < 16 ? (unsigned)span + 1 : 8; std::vector<unsigned> cnt(parts); const unsigned N = 1500; bool endless = false; Security::CSPRNG *g; { RndGuard a; g = new Security::CSPRNG(s.flip()); }
	for (unsigned i = 0; i < N && !endless; i++)
	{
		u64 v = 7; bool r = false; reads = 0; try { RndGuard a; r = swap ? g->GetInteger(v, hi, lo) : g->GetInteger(v, lo, hi); } catch (Endless &) { endless = true; break; }
		CHECK(s, r, "failed"); CHECK(s, v >= lo && v <= hi, "gave %llu", (unsigned long long)v);
		unsigned p = span < 16 ? (unsigned)(v - lo) : (unsigned)((unsigned __int128)(v - lo) * parts / ((unsigned __int128)span + 1)); cnt[p]++; delivered.clear();
	}
	{ RndGuard a; delete g; } CHECK(s, !endless, "a draw never ends");
	if (parts > 1)
	{
		// Expected share of each part exactly.
		double chi = 0; for (unsigned p = 0; p < parts; p++) { double e; if (span < 16) e = (double)N / parts; else { unsigned __int128 S = (unsigned __int128)span + 1, a = (S * p + parts - 1) / parts, b = (S * (p + 1) + parts - 1) / parts; e = (double)N * ((double)(u64)(b - a) / (double)S); } chi += (cnt[p] - e) * (cnt[p] - e) / e; }
		double df = parts - 1; double limit = df + 12 * sqrt(2 * df) + 70; CHECK(s, chi < limit, "uneven: chi-squared %.1f over %u parts", chi, parts);
		s.nontrivial();
	}
}
PROP(R01, random_integer_stream, 2, "integers drawn from hand-made source bytes (all ones, all zeros, single bits, the bounds themselves) followed by random ones: always within the bounds and ending.  Non-trivial: bounds differ.")
{
	resetRnd(s); std::string f; for (unsigned k = (unsigned)s.uni(0, 12); k; k--) { u64 v; switch (s.draw(4)) { case 0: v = ~0ULL; break; case 1: v = 0; break; case 2: v = 1ULL << s.draw(63); break; default: v = s.u64any(); } f.append((char *)&v, 8); } feed = &f;
	u64 a = s.u64any(), b = s.flip() ? s.u64any() : a + s.uni(0, 5), lo = std::min(a, b), hi = std::max(a, b); s.note("between %llu and %llu, source %s", (unsigned long long)a, (unsigned long long)b, quote(f, 60).c_str()); bool endless = false;
	Security::CSPRNG *g; { RndGuard x; g = new Security::CSPRNG(false); } for (int i = 0; i < 8; i++) { u64 v = 0; bool r = false; reads = 0; try { RndGuard x; r = g->GetInteger(v, a, b); } catch (Endless &) { endless = true; break; } CHECK(s, r && v >= lo && v <= hi, "returned %d, %llu", r, (unsigned long long)v); } { RndGuard x; delete g; } CHECK(s, !endless, "a draw never ends"); feed = NULL;
	if (lo != hi) s.nontrivial();
}

// ---- L01
namespace
{
	struct Big { u64 a, b, c; };
	std::string trace; u64 retval;
	void tr(const char *f, std::initializer_list<u64> v) { trace += f; for (u64 x : v) { char b[32]; snprintf(b, sizeof b, " %llx", (unsigned long long)x); trace += b; } trace += ";"; }
	u64 db(double d) { u64 r; memcpy(&r, &d, 8); return r; } u64 fl(float d) { std::uint32_t r; memcpy(&r, &d, 4); return r; }
	extern "C"
	{
		int t_f0() { tr("f0", {}); return (int)retval; }
		u64 t_f1(u64 a) { tr("f1", { a }); return retval; }
		double t_f3(int a, double b, char c) { tr("f3", { (u64)(std::int64_t)a, db(b), (u64)(unsigned char)c }); double r; memcpy(&r, &retval, 8); return r; }
		Big t_f4(Big a, short b, const char *c, float d) { tr("f4", { a.a, a.b, a.c, (u64)(std::uint16_t)b, (u64)strlen(c), fl(d) }); return { retval, ~retval, retval + 1 }; }
		u64 t_f10(u64 a, int b, double c, u64 d, char e, u64 f, double g, u64 h, short i, u64 j) { tr("f10", { a, (u64)(std::uint32_t)b, db(c), d, (u64)(unsigned char)e, f, db(g), h, (u64)(std::uint16_t)i, j }); return retval; }
		void t_v0() { tr("v0", {}); }
		void t_v2(u64 a, double b) { tr("v2", { a, db(b) }); }
		void t_v9(int a, int b, int c, int d, int e, u64 f, u64 g, double h, u64 *out) { tr("v9", { (std::uint32_t)a, (std::uint32_t)b, (std::uint32_t)c, (std::uint32_t)d, (std::uint32_t)e, f, g, db(h) }); *out = retval; }
	}
	const char *fn[] = { "t_f0", "t_f1", "t_f3", "t_f4", "t_f10", "t_v0", "t_v2", "t_v9", "missing" };
}
PROP(L01, library_calls, 1, "random histories of calls (0 to 10 arguments of integer, floating, pointer and structure types, with and without a result, through function objects and one-shot calls) on two libraries and a missing one, present and missing symbols, several function objects per module, modules and objects ending in any order of use; arguments, results, load, lookup and release counts are traced.  Non-trivial: three or more successful calls, or a failure after a success.")
{
	libs.clear(); handles.clear(); syms.clear(); usedClosed = false; symCalls = 0; libs["liba"] = Lib(); libs["libb"] = Lib(); void *fp[] = { (void *)t_f0, (void *)t_f1, (void *)t_f3, (void *)t_f4, (void *)t_f10, (void *)t_v0, (void *)t_v2, (void *)t_v9 };
	for (int i = 0; i < 8; i++) { if (s.chance(85)) syms[std::string("liba:") + fn[i]] = fp[i]; if (s.chance(60)) syms[std::string("libb:") + fn[i]] = fp[i]; }
	static const char *ln[] = { "liba", "libb", "gone" }; unsigned good = 0, badAfter = 0;
	{
		struct Dl { Dl() { armDl = true; } ~Dl() { armDl = false; } };
		std::unique_ptr<SharedLib::ModuleUtil> m[3]; struct Fn { std::unique_ptr<SharedLib::FunctionUtil> f; int lib, fn; }; std::vector<Fn> fs; int modLib[3]; int users[3] = { 0, 0, 0 }; std::map<std::string, int> expLoads, expCloses; bool touched[3];
		for (int i = 0; i < 3; i++) { modLib[i] = (int)s.weighted({ 4, 3, 1 }); m[i].reset(new SharedLib::ModuleUtil(ln[modLib[i]])); touched[i] = false; }
		unsigned nf = (unsigned)s.uni(1, 8); for (unsigned i = 0; i < nf; i++) { Fn f; f.lib = (int)s.draw(2); f.fn = (int)s.draw(8); f.f.reset(new SharedLib::FunctionUtil(*m[f.lib], fn[f.fn])); fs.push_back(std::move(f)); s.note("function %u: %s of module %d (%s)", i, fn[fs[i].fn], fs[i].lib, ln[modLib[fs[i].lib]]); }
		unsigned n = (unsigned)s.uni(1, 20);
		for (unsigned i = 0; i < n; i++)
		{
			bool once = s.chance(20); Fn &f = fs[s.draw(fs.size() - 1)]; int which = once ? (int)s.draw(8) : f.fn; const char *lib = once ? ln[s.weighted({ 4, 3, 1 })] : ln[modLib[f.lib]]; bool want = syms.count(std::string(lib) + ":" + fn[which]) && libs.count(lib);
			if (libs.count(lib)) { if (once) expLoads[lib]++; else if (!touched[f.lib]) expLoads[lib]++; } if (!once) touched[f.lib] = true;
			int shape = which == 8 ? (int)s.draw(7) : which; retval = s.u64any(); trace.clear(); bool r = false; std::string expect; u64 a = s.u64any(), b = s.u64any(); double x = (double)s.i64any() / 3; int k = (int)s.u64any(); short h = (short)s.u64any(); char c = (char)s.u64any(); const char *str = "text"; std::string save;
			auto exp = [&](const char *nm, std::initializer_list<u64> v) { std::string keep = trace; trace.clear(); tr(nm, v); expect = trace; trace = keep; };
			#define RUN(ret, name, ...) { Dl d; r = once ? SharedLib::CallOnce(lib, name, ret, ##__VA_ARGS__) : SharedLib::Call(*f.f, ret, ##__VA_ARGS__); }
			#define RUNV(name, ...) { Dl d; r = once ? SharedLib::CallOnceVoid(lib, name, ##__VA_ARGS__) : SharedLib::CallVoid(*f.f, ##__VA_ARGS__); }
			switch (shape)
			{
				case 0: { int q = 5; RUN(q, fn[which]); exp("f0", {}); if (r) CHECK(s, q == (int)retval, "wrong result"); else CHECK(s, q == 5, "a failed call changed the result"); break; }
				case 1: { u64 q = 5; RUN(q, fn[which], a); exp("f1", { a }); if (r) CHECK(s, q == retval, "wrong result"); else CHECK(s, q == 5, "a failed call changed the result"); break; }
				case 2: { double q = 5; RUN(q, fn[which], k, x, c); exp("f3", { (u64)(std::int64_t)k, db(x), (u64)(unsigned char)c }); if (r) CHECK(s, db(q) == retval || q != q, "wrong result"); else CHECK(s, q == 5, "a failed call changed the result"); break; }
				case 3: { Big q = { 5, 5, 5 }, p = { a, b, a ^ b }; float g = (float)k; RUN(q, fn[which], p, h, str, g); exp("f4", { a, b, a ^ b, (u64)(std::uint16_t)h, 4, fl(g) }); if (r) CHECK(s, q.a == retval && q.b == ~retval && q.c == retval + 1, "wrong result"); else CHECK(s, q.a == 5 && q.c == 5, "a failed call changed the result"); break; }
				case 4: { u64 q = 5; RUN(q, fn[which], a, k, x, b, c, a + 1, x + 1, b + 1, h, a - b); exp("f10", { a, (u64)(std::uint32_t)k, db(x), b, (u64)(unsigned char)c, a + 1, db(x + 1), b + 1, (u64)(std::uint16_t)h, a - b }); if (r) CHECK(s, q == retval, "wrong result"); else CHECK(s, q == 5, "a failed call changed the result"); break; }
				case 5: RUNV(fn[which]); exp("v0", {}); break;
				case 6: RUNV(fn[which], a, x); exp("v2", { a, db(x) }); break;
				default: { u64 o = 5; u64 *po = &o; RUNV(fn[which], k, k + 1 - 1, (int)h, (int)c, 7, a, b, x, po); exp("v9", { (std::uint32_t)k, (std::uint32_t)k, (std::uint32_t)(int)h, (std::uint32_t)(int)c, 7, a, b, db(x) }); CHECK(s, o == (r ? retval : 5), "wrong output"); }
			}
			s.note("%s %s of %s: %d", once ? "once" : "call", fn[which], lib, r);
			CHECK(s, r == want, "%s of %s returned %d, expected %d", fn[which], lib, r, want); CHECK(s, trace == (want ? expect : ""), "called [%s], expected [%s]", trace.c_str(), want ? expect.c_str() : "");
			for (auto &l : libs) { CHECK(s, l.second.loads == expLoads[l.first], "%s loaded %d times, expected %d", l.first.c_str(), l.second.loads, expLoads[l.first]); CHECK(s, l.second.closes == 0, "%s released while in use", l.first.c_str()); }
			CHECK(s, !usedClosed, "used a library that is not loaded"); if (r) good++; else if (good) badAfter++;
		}
		std::map<std::string, int> rel; for (int i = 0; i < 3; i++) if (touched[i] && libs.count(ln[modLib[i]])) rel[ln[modLib[i]]]++;
		fs.clear(); { Dl d; for (auto &x : m) x.reset(); } for (auto &l : libs) CHECK(s, l.second.closes == rel[l.first], "%s released %d times, expected %d", l.first.c_str(), l.second.closes, rel[l.first]); CHECK(s, !usedClosed, "released a library that is not loaded");
	}
	if (good >= 3 || badAfter) s.nontrivial();
}
