// F01-F05: files, paths and directories.  Runs as an unprivileged user inside scratch directories of its own;
// destructive calls naming an absolute path outside the scratch directory are refused and reported.
#include "pbt.h"
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>
#include "utf8/utf8_file_dir.h"
#include <grp.h>
#include <limits.h>
using namespace CubicleSoft;
using pbt::Src; using pbt::u64; using pbt::quote; using UTF8::File; using UTF8::Dir;

namespace
{
	// ---- Interception.
	enum Act { Pass, Eintr, Error, Short };
	struct Fault { Act a; int err; size_t n; };
	struct FQ { Fault v[64]; size_t a, b; bool empty() const { return a == b; } size_t size() const { return b - a; } Fault front() const { return v[a]; } void pop_front() { a++; } void push_back(const Fault &f) { if (b < 64) v[b++] = f; } void clear() { a = b = 0; } const Fault *begin() const { return v + a; } const Fault *end() const { return v + b; } };
	struct Queue { FQ q; unsigned calls, skip; Fault next() { calls++; if (skip) { skip--; return { Pass, 0, 0 }; } if (q.empty()) return { Pass, 0, 0 }; Fault f = q.front(); q.pop_front(); return f; } void clear() { q.clear(); calls = skip = 0; } };
	bool armed = false; unsigned hits = 0, hard = 0;
	Queue qRead, qWrite, qTrunc, qRename, qUnlink, qFlock, qSeek, qOpen;
	std::string root;            // Scratch directory of this process.
	std::string escaped;
	struct Owner { std::string path; uid_t u; gid_t g; }; std::vector<Owner> owners; bool fakeChown = false, denyChown = false;

	void disarm() { armed = false; qRead.clear(); qWrite.clear(); qTrunc.clear(); qRename.clear(); qUnlink.clear(); qFlock.clear(); qSeek.clear(); qOpen.clear(); }
	bool outside(const char *p) { if (!p || p[0] != '/' || root.empty()) return false; return strncmp(p, root.c_str(), root.size()) != 0; }
	bool guard(const char *call, const char *p) { if (!outside(p)) return true; if (escaped.empty()) escaped = std::string(call) + " " + p; errno = EPERM; return false; }
	bool act(Queue &q, ssize_t &r, size_t &n)
	{
		if (!armed) return false;
		Fault f = q.next();
		switch (f.a)
		{
			case Eintr: hits++; errno = EINTR; r = -1; return true;
			case Error: hits++; hard++; errno = f.err; r = -1; return true;
			case Short: if (n > 1) { hits++; n = 1 + f.n % (n - 1); } return false;
			default: return false;
		}
	}
}
extern "C"
{
	ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_ftruncate(int, off_t); int __real_ftruncate64(int, off64_t);
	int __real_rename(const char *, const char *); int __real_unlink(const char *); int __real_rmdir(const char *); int __real_flock(int, int); off64_t __real_lseek64(int, off64_t, int);
	int __real_open(const char *, int, ...); int __real_chown(const char *, uid_t, gid_t); int __real_remove(const char *);
	ssize_t __wrap_read(int f, void *b, size_t n) { ssize_t r; if (act(qRead, r, n)) return r; return __real_read(f, b, n); }
	ssize_t __wrap_write(int f, const void *b, size_t n) { ssize_t r; if (act(qWrite, r, n)) return r; return __real_write(f, b, n); }
	int __wrap_ftruncate(int f, off_t n) { ssize_t r; size_t k = 0; if (act(qTrunc, r, k)) return (int)r; return __real_ftruncate(f, n); }
	int __wrap_ftruncate64(int f, off64_t n) { ssize_t r; size_t k = 0; if (act(qTrunc, r, k)) return (int)r; return __real_ftruncate64(f, n); }
	int __wrap_rename(const char *a, const char *b) { ssize_t r; size_t k = 0; if (!guard("rename", a) || !guard("rename", b)) return -1; if (act(qRename, r, k)) return (int)r; return __real_rename(a, b); }
	int __wrap_unlink(const char *a) { ssize_t r; size_t k = 0; if (!guard("unlink", a)) return -1; if (act(qUnlink, r, k)) return (int)r; return __real_unlink(a); }
	int __wrap_remove(const char *a) { if (!guard("remove", a)) return -1; return __real_remove(a); }
	int __wrap_rmdir(const char *a) { if (!guard("rmdir", a)) return -1; return __real_rmdir(a); }
	int __wrap_flock(int f, int o) { ssize_t r; size_t k = 0; if (act(qFlock, r, k)) return (int)r; return __real_flock(f, o); }
	off64_t __wrap_lseek64(int f, off64_t o, int w) { ssize_t r; size_t k = 0; if (act(qSeek, r, k)) return (off64_t)r; return __real_lseek64(f, o, w); }
	int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); ssize_t r; size_t k = 0; if ((fl & (O_CREAT | O_TRUNC)) && !guard("open", p)) return -1; if (act(qOpen, r, k)) return (int)r; return __real_open(p, fl, m); }
	int __wrap_chown(const char *p, uid_t u, gid_t g) { if (fakeChown) { owners.push_back({ p, u, g }); return 0; } if (denyChown) { errno = EPERM; return -1; } return __real_chown(p, u, g); }
	unsigned synced = 0; void __wrap_sync(void) { synced++; } int __wrap_fsync(int) { synced++; return 0; } int __wrap_fdatasync(int) { synced++; return 0; } int __wrap_syncfs(int) { synced++; return 0; }
}
namespace
{
	const uid_t UID = 54321;
	void dropOnce()
	{
		static bool done = false; if (done) return; done = true;
		if (geteuid() == 0) { if (setgroups(0, NULL) || setgid(UID) || setuid(UID)) { fprintf(stderr, "cannot drop privileges\n"); _exit(3); } }
		umask(022);
		const char *sc = getenv("VERIF_SCRATCH"); char b[64]; snprintf(b, sizeof b, "/f%d", (int)getpid());
		char *rp = realpath(sc ? sc : "/tmp", NULL); root = std::string(rp) + b; free(rp);
		if (mkdir(root.c_str(), 0755) && errno != EEXIST) { perror("scratch"); _exit(3); }
		root += "/";
	}
	std::string slurp(const std::string &p)
	{
		std::string r; int f = __real_open(p.c_str(), O_RDONLY, 0); if (f < 0) return "<cannot open>";
		char b[65536]; ssize_t n; while ((n = __real_read(f, b, sizeof b)) > 0) r.append(b, n); close(f); return r;
	}
	void spit(const std::string &p, const std::string &d, int mode = 0644)
	{
		__real_unlink(p.c_str()); int f = __real_open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f < 0) { perror(p.c_str()); _exit(3); }
		for (size_t x = 0; x < d.size(); ) { ssize_t n = __real_write(f, d.data() + x, d.size() - x); if (n <= 0) { perror("write"); _exit(3); } x += n; } fchmod(f, mode); close(f);
	}
	void wipe(const std::string &d)     // d ends without slash, inside root
	{
		DIR *h = opendir(d.c_str()); if (!h) { chmod(d.c_str(), 0700); h = opendir(d.c_str()); if (!h) return; }
		struct dirent *e; std::vector<std::string> v; while ((e = readdir(h))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(h);
		struct stat st; if (v.size()) chmod(d.c_str(), 0700);
		for (auto &n : v) { std::string p = d + "/" + n; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { wipe(p); __real_rmdir(p.c_str()); } else __real_unlink(p.c_str()); }
	}
	// A fresh empty directory for the case, which becomes the current directory.
	struct Box
	{
		std::string d;
		Box() { dropOnce(); disarm(); escaped.clear(); hits = hard = 0; owners.clear(); fakeChown = denyChown = false; d = root + "c"; if (access(d.c_str(), F_OK) == 0) wipe(d); else if (mkdir(d.c_str(), 0755)) { perror("case"); _exit(3); } if (chdir(d.c_str())) _exit(3); }
		~Box() { disarm(); if (chdir("/")) {} wipe(d); }
	};
	struct Leak { Src &s; long n; Leak(Src &x) : s(x), n(pbt::liveNew) {} void check() { CHECK(s, pbt::liveNew == n, "%ld allocations leaked", pbt::liveNew - n); } };
	int openFds() { int n = 0; for (int i = 3; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
	std::string data(Src &s, size_t max) { size_t n = s.chance(10) ? s.range(0, max) : s.len(max < 60 ? max : 60); if (n > 64) { std::string r(n, 0); u64 h = s.draw(255); for (size_t i = 0; i < n; i++) { h = h * 6364136223846793005ULL + 1; r[i] = (char)(h >> 56); } return r; } return s.bytes(n); }

	// ---- F01
	struct Mod { bool open, rd, wr, app; int name; bool excl; u64 pos; };
	void genFaults(Src &s, Queue &q, bool isWrite, bool hardToo)
	{
		unsigned n = (unsigned)s.uni(1, 4);
		for (unsigned i = 0; i < n; i++) switch (s.weighted({ 4, 3, 3, hardToo ? 2u : 0u }))
		{
			case 0: q.q.push_back({ Pass, 0, 0 }); break;
			case 1: q.q.push_back({ Eintr, 0, 0 }); break;
			case 2: q.q.push_back({ Short, 0, (size_t)s.draw(1000) }); break;
			default: q.q.push_back({ Error, isWrite ? (s.flip() ? ENOSPC : EIO) : EIO, 0 }); break;
		}
	}
	std::string showFaults(const Queue &q) { std::string r; for (auto &f : q.q) r += f.a == Pass ? " ok" : f.a == Eintr ? " EINTR" : f.a == Short ? " short" : f.err == ENOSPC ? " ENOSPC" : " EIO"; return r; }
}

#define F01RULE "stateful: open (all access modes, create/exclusive/truncate/append, sharing), seek, read, write, flush, close on three handles over two files against byte-array models, with interrupted, short and failing system calls injected; names include non-ASCII.  Non-trivial: at least one write and one later read of one or more bytes, or an injected fault hit."
static void fileCase(Src &s, bool faults)
{
	Box box; static const char *names[] = { "a.dat", "\xC3\xA9t\xC3\xA9 \xE6\x97\xA5" };
	{
		std::string content[2]; bool exists[2] = { false, false }; std::unique_ptr<File> h[3]; Mod m[3];
		for (int i = 0; i < 3; i++) { h[i].reset(new File); m[i] = Mod(); }
		int fd0 = openFds(); bool wrote = false, readBack = false, anyHit = false;
		unsigned n = (unsigned)s.uni(1, 24);
		for (unsigned k = 0; k < n; k++)
		{
			int i = (int)s.draw(2); Mod &w = m[i]; File &f = *h[i]; disarm(); hits = hard = 0;
			unsigned op = s.weighted({ w.open ? 1u : 6u, 3, 5, 5, 1, 1, 1 });
			switch (op)
			{
				case 0:
				{
					if (s.chance(6))
					{
						// Names that no file can have here: refused, nothing is created, and the handle is closed.
						static const char *bad[] = { "", "a*b", "q?", "x\x01", "no/such/dir", ".", "./", "\xFF.dat", "a.dat/x", "\xED\xA0\x80", "<a.dat", "LONG", "FOLD" }; std::string b = bad[s.draw(12)]; if (b == "LONG") b = std::string(s.uni(256, 9000), 'l'); if (b == "FOLD") { b.clear(); for (unsigned z = (unsigned)s.uni(4090, 5000); z; z--) b += "./"; b += "a.dat"; }
						s.note("h%d.Open(%s) with a name that cannot be opened", i, quote(b, 40).c_str()); bool r = f.Open(b.c_str(), O_RDWR | (s.flip() ? O_CREAT : 0) | (s.flip() ? O_TRUNC : 0), s.flip() ? File::ShareBoth : File::ShareNone); CHECK(s, !r && !f.IsOpen(), "Open() of %s returned %d and left the handle %s", quote(b, 40).c_str(), r, f.IsOpen() ? "open" : "closed"); w.open = false; break;
					}
					int nm = (int)s.draw(1), acc = s.chance(4) ? 3 : s.chance(60) ? O_RDWR : s.flip() ? O_RDONLY : O_WRONLY; int fl = acc;
					if (s.chance(70)) fl |= O_CREAT; if (s.chance(12)) fl |= O_EXCL | O_CREAT; if (acc != O_RDONLY && s.chance(20)) fl |= O_TRUNC; if (acc != O_RDONLY && s.chance(10)) fl |= O_APPEND;
					File::ShareType sh = s.chance(75) ? File::ShareBoth : (File::ShareType)s.uni(1, 3);
					bool viaBack = false; bool lockFault = faults && s.chance(8), openFault = faults && s.chance(5);
					s.note("h%d.Open(%s, access %d%s%s%s%s, share %d)%s%s", i, names[nm], acc, fl & O_CREAT ? " creat" : "", fl & O_EXCL ? " excl" : "", fl & O_TRUNC ? " trunc" : "", fl & O_APPEND ? " append" : "", (int)sh, lockFault ? " flock fails" : "", openFault ? " open fails" : "");
					if (lockFault) qFlock.q.push_back({ Error, EWOULDBLOCK, 0 }); if (openFault) qOpen.q.push_back({ Error, EMFILE, 0 });
					w.open = false; (void)viaBack;
					bool conflict = false; for (int j = 0; j < 3; j++) if (j != i && m[j].open && m[j].name == nm && (m[j].excl || sh != File::ShareBoth)) conflict = true;
					bool want = acc != 3 && !openFault, ambiguous = false, fresh = !exists[nm]; int mode = s.chance(60) ? 0644 : 0600 | (int)s.draw(07777); mode_t um = s.chance(70) ? 022 : (mode_t)s.draw(077); s.note("  mode %o umask %o", mode, um);
					if (want) { if (!exists[nm] && !(fl & O_CREAT)) want = false; else if (exists[nm] && (fl & O_EXCL)) want = false; else { if (fl & O_TRUNC) { if (conflict || lockFault) ambiguous = true; else content[nm].clear(); } if (!exists[nm]) { exists[nm] = true; content[nm].clear(); } if (conflict || lockFault) want = false; } }
					umask(um); armed = true; bool r = f.Open(names[nm], fl, sh, mode); armed = false; umask(022); if (hits) anyHit = true;
					CHECK(s, r == want, "h%d.Open() returned %d, expected %d", i, r, want);
					CHECK(s, f.IsOpen() == r, "h%d is %s although Open() returned %d", i, f.IsOpen() ? "open" : "closed", r);
					if (ambiguous) content[nm] = slurp(names[nm]);
					if (fresh && exists[nm]) { struct stat st; CHECK(s, stat(names[nm], &st) == 0 && (st.st_mode & 07777) == ((mode_t)mode & 0777 & ~um), "created with mode %o, expected %o", st.st_mode & 07777, mode & 0777 & ~um); }
					if (r)
					{
						w = Mod(); w.open = true; w.rd = acc != O_WRONLY; w.wr = acc != O_RDONLY; w.app = (fl & O_APPEND) != 0; w.name = nm; w.excl = sh != File::ShareBoth; w.pos = f.GetCurrPos();
						if (w.app) CHECK(s, w.pos == 0 || w.pos == content[nm].size(), "position %llu after opening", (unsigned long long)w.pos); else CHECK(s, w.pos == 0, "position %llu after opening", (unsigned long long)w.pos);
						CHECK(s, f.GetMaxPos() == content[nm].size(), "size %llu after opening, expected %zu", (unsigned long long)f.GetMaxPos(), content[nm].size());
					}
					break;
				}
				case 1:
				{
					File::SeekType t = (File::SeekType)s.draw(3); std::string &c = content[w.open ? w.name : 0]; u64 p = s.chance(70) ? s.range(0, c.size() + 3) : s.u64any(), size = c.size();
					if (s.chance(70)) f.UpdateMaxPos();
					u64 mx = f.GetMaxPos(); bool fl = faults && s.chance(5); s.note("h%d.Seek(%s, %llu)%s", i, t == File::SeekStart ? "start" : t == File::SeekEnd ? "end" : t == File::SeekForward ? "forward" : "backward", (unsigned long long)p, fl ? " lseek fails" : "");
					auto target = [&](u64 z) { switch (t) { case File::SeekStart: return p <= z ? p : z; case File::SeekEnd: return p <= z ? z - p : 0; case File::SeekForward: return w.pos <= z && p <= z - w.pos ? w.pos + p : z; default: return w.pos >= p ? w.pos - p : 0; } };
					if (fl) qSeek.q.push_back({ Error, EINVAL, 0 });
					armed = true; bool r = f.Seek(t, p); armed = false; if (hits) anyHit = true;
					bool want = w.open && !hard; CHECK(s, r == want, "Seek() returned %d, expected %d", r, want);
					if (r) { u64 g = f.GetCurrPos(); CHECK(s, g == target(mx) || g == target(size), "at %llu after Seek(), expected %llu", (unsigned long long)g, (unsigned long long)target(size)); w.pos = g; }
					else if (w.open) CHECK(s, f.GetCurrPos() == w.pos, "a failed Seek() moved from %llu to %llu", (unsigned long long)w.pos, (unsigned long long)f.GetCurrPos());
					break;
				}
				case 2:
				{
					size_t want = s.chance(10) ? s.range(0, 20000) : s.len(80); if (faults && s.chance(40)) genFaults(s, qRead, false, true);
					s.note("h%d.Read(%zu)%s", i, want, showFaults(qRead).c_str());
					std::unique_ptr<std::uint8_t[]> b(new std::uint8_t[want]); size_t got = 7777777;
					armed = true; bool r = f.Read(b.get(), want, got); armed = false; if (hits) anyHit = true;
					if (!w.open || !w.rd) { CHECK(s, !r, "Read() succeeded on a handle that is not readable"); break; }
					if (hard) CHECK(s, !r, "Read() succeeded although the system call failed"); else CHECK(s, r, "Read() failed");
					if (!r) { CHECK(s, f.GetCurrPos() == w.pos, "a failed Read() moved the position"); break; }
					std::string &c = content[w.name]; size_t avail = w.pos < c.size() ? c.size() - w.pos : 0, full = std::min(avail, want);
					CHECK(s, got <= full && (hits || got == full) && (got || !full), "Read() of %zu at %llu of %zu returned %zu bytes", want, (unsigned long long)w.pos, c.size(), got);
					CHECK(s, !got || !memcmp(b.get(), c.data() + w.pos, got), "Read() at %llu returned other bytes", (unsigned long long)w.pos);
					w.pos += got; CHECK(s, f.GetCurrPos() == w.pos, "position %llu after Read(), expected %llu", (unsigned long long)f.GetCurrPos(), (unsigned long long)w.pos);
					if (got && wrote) readBack = true;
					break;
				}
				case 3:
				{
					std::string d = data(s, 20000); bool text = s.chance(15); if (text) for (auto &c : d) if (!c) c = 'n'; if (faults && s.chance(40)) genFaults(s, qWrite, true, true);
					s.note("h%d.Write(%zu bytes %s%s)%s", i, d.size(), quote(d, 30).c_str(), text ? ", as text" : "", showFaults(qWrite).c_str());
					size_t done = 7777777; armed = true; bool r = text ? f.Write(d.c_str(), done) : f.Write((const std::uint8_t *)d.data(), d.size(), done); armed = false; if (hits) anyHit = true;
					if (!w.open || !w.wr) { CHECK(s, !r, "Write() succeeded on a handle that is not writable"); break; }
					if (hard) CHECK(s, !r, "Write() succeeded although the system call failed"); else CHECK(s, r, "Write() failed");
					if (r) CHECK(s, done == d.size(), "Write() succeeded with %zu of %zu bytes", done, d.size()); else CHECK(s, done < d.size(), "a failed Write() reports %zu of %zu bytes", done, d.size());
					std::string &c = content[w.name]; if (w.app && done) w.pos = c.size(); if (done) { if (c.size() < w.pos) c.resize(w.pos); if (c.size() < w.pos + done) c.resize(w.pos + done); memcpy(&c[w.pos], d.data(), done); } w.pos += done;
					CHECK(s, f.GetCurrPos() == w.pos, "position %llu after Write(), expected %llu", (unsigned long long)f.GetCurrPos(), (unsigned long long)w.pos);
					if (done) CHECK(s, f.GetMaxPos() >= w.pos, "after a write up to %llu the handle takes the file to end at %llu", (unsigned long long)w.pos, (unsigned long long)f.GetMaxPos());
					std::string now = slurp(names[w.name]); CHECK(s, now == c, "the file holds %s after the write, expected %s", quote(now, 80).c_str(), quote(c, 80).c_str());
					if (done) wrote = true;
					break;
				}
				case 4: s.note("h%d.Close()", i); f.Close(); w.open = false; CHECK(s, !f.IsOpen(), "open after Close()"); break;
				case 5: { synced = 0; bool r = f.Flush(); s.note("h%d.Flush()", i); if (r) CHECK(s, synced, "Flush() succeeded without asking the system to write the data"); CHECK(s, r == (w.open && w.wr), "Flush() returned %d", r); break; }
				default: { bool r = f.UpdateMaxPos(); s.note("h%d.UpdateMaxPos()", i); CHECK(s, r == w.open, "UpdateMaxPos() returned %d", r); if (r) CHECK(s, f.GetMaxPos() == content[w.name].size(), "size %llu, expected %zu", (unsigned long long)f.GetMaxPos(), content[w.name].size()); break; }
			}
		}
		disarm();
		for (int j = 0; j < 2; j++) { struct stat st; bool e = stat(names[j], &st) == 0; CHECK(s, e == exists[j], "file %d exists %d, expected %d", j, e, exists[j]); if (e) { std::string now = slurp(names[j]); CHECK(s, now == content[j], "file %d holds %s, expected %s", j, quote(now, 80).c_str(), quote(content[j], 80).c_str()); } }
		{ DIR *dh = opendir("."); int cnt = 0; while (readdir(dh)) cnt++; closedir(dh); CHECK(s, cnt - 2 == exists[0] + exists[1], "%d files in the directory, expected %d", cnt - 2, exists[0] + exists[1]); }
		for (int i = 0; i < 3; i++) h[i].reset();
		CHECK(s, openFds() == fd0, "%d descriptors leaked", openFds() - fd0);
		if ((wrote && readBack) || anyHit) s.nontrivial();
	}
	CHECK(s, escaped.empty(), "outside the scratch directory: %s", escaped.c_str());
}
PROP(F01, file_model, 4, F01RULE) { fileCase(s, false); }
PROP(F01, file_faults, 6, F01RULE) { fileCase(s, true); }

PROP(F01, file_far, 2, "sparse files with sizes around 2^31, 2^32 and 2^33, and seeks, reads and writes near those positions, against a sparse model read back independently.  Non-trivial: a write and a later read past 2^31.")
{
	Box box; static const u64 near[] = { 1ULL << 31, 1ULL << 32, 1ULL << 33, 3ULL << 31, 0 }; auto far = [&]() { u64 b = near[s.draw(4)]; return b ? b - 40 + s.draw(80) : s.draw(80); };
	u64 size = far(); std::map<u64, char> m; int fd = __real_open("far.dat", O_RDWR | O_CREAT, 0644); if (fd < 0 || ftruncate(fd, (off_t)size)) throw pbt::Discard();
	s.note("file of %llu bytes", (unsigned long long)size); File f; CHECK(s, f.Open("far.dat", O_RDWR), "Open() failed"); CHECK(s, f.GetMaxPos() == size && f.GetCurrPos() == 0, "size %llu after opening, expected %llu", (unsigned long long)f.GetMaxPos(), (unsigned long long)size);
	u64 pos = 0; bool wrote = false, read = false;
	for (unsigned k = 1 + (unsigned)s.len(16); k; k--) switch (s.weighted({ 5, 3, 4 }))
	{
		case 0:
		{
			File::SeekType t = (File::SeekType)s.draw(3); u64 p = s.chance(70) ? far() : s.draw(100); if (s.chance(40)) { u64 q = far(); switch (t) { case File::SeekEnd: p = size > q ? size - q : 0; break; case File::SeekForward: p = q > pos ? q - pos : 0; break; case File::SeekBackward: p = pos > q ? pos - q : 0; break; default: p = q; } }
			u64 want = t == File::SeekStart ? std::min(p, size) : t == File::SeekEnd ? size - std::min(p, size) : t == File::SeekForward ? pos + std::min(p, size - std::min(pos, size)) : pos - std::min(p, pos); f.UpdateMaxPos();
			s.note("Seek(%s, %llu) from %llu", t == File::SeekStart ? "start" : t == File::SeekEnd ? "end" : t == File::SeekForward ? "forward" : "backward", (unsigned long long)p, (unsigned long long)pos);
			CHECK(s, f.Seek(t, p), "Seek() failed"); CHECK(s, f.GetCurrPos() == want, "at %llu, expected %llu", (unsigned long long)f.GetCurrPos(), (unsigned long long)want); pos = want; break;
		}
		case 1:
		{
			std::string d = s.bytes(1 + s.len(40)); size_t n = 0; s.note("Write(%zu) at %llu", d.size(), (unsigned long long)pos); CHECK(s, f.Write((const std::uint8_t *)d.data(), d.size(), n) && n == d.size(), "Write() wrote %zu of %zu", n, d.size());
			for (size_t i = 0; i < d.size(); i++) m[pos + i] = d[i]; pos += d.size(); size = std::max(size, pos); CHECK(s, f.GetCurrPos() == pos, "at %llu, expected %llu", (unsigned long long)f.GetCurrPos(), (unsigned long long)pos); if (pos > near[0]) wrote = true; break;
		}
		default:
		{
			size_t want = 1 + s.len(60), n = 0; std::unique_ptr<char[]> b(new char[want]); s.note("Read(%zu) at %llu", want, (unsigned long long)pos); CHECK(s, f.Read((std::uint8_t *)b.get(), want, n), "Read() failed"); size_t av = (size_t)std::min<u64>(want, size - pos); CHECK(s, n == av, "Read() gave %zu of %zu", n, av);
			for (size_t i = 0; i < n; i++) { auto it = m.find(pos + i); CHECK(s, b[i] == (it == m.end() ? 0 : it->second), "byte at %llu differs", (unsigned long long)(pos + i)); } pos += n; CHECK(s, f.GetCurrPos() == pos, "at %llu, expected %llu", (unsigned long long)f.GetCurrPos(), (unsigned long long)pos); if (n && wrote && pos > near[0]) read = true; break;
		}
	}
	CHECK(s, f.UpdateMaxPos() && f.GetMaxPos() == size, "size %llu, expected %llu", (unsigned long long)f.GetMaxPos(), (unsigned long long)size); f.Close(); struct stat st; CHECK(s, fstat(fd, &st) == 0 && (u64)st.st_size == size, "the file has %llu bytes, expected %llu", (unsigned long long)st.st_size, (unsigned long long)size);
	for (auto &x : m) { char c; CHECK(s, pread(fd, &c, 1, (off_t)x.first) == 1 && c == x.second, "the file differs at %llu", (unsigned long long)x.first); }
	for (int i = 0; i < 4; i++) for (int k = -45; k < 90; k++) { u64 p = (near[i] ? near[i] : 45) + k; if (p < size && !m.count(p)) { char c = 1; CHECK(s, pread(fd, &c, 1, (off_t)p) == 1 && c == 0, "the file was written at %llu", (unsigned long long)p); } }
	close(fd); if (read) s.nontrivial();
}

// ---- F02
namespace
{
	std::set<void *> altLive; unsigned altCalls;
	struct Mgr { int x; } mgr;
	void *altRealloc(void *m, void *p, size_t n) { if (m != &mgr) abort(); altCalls++; if (p && !altLive.erase(p)) abort(); char *q = (char *)malloc(n); memset(q, 0x55, n); if (p) { extern size_t altSize(void *); memcpy(q, p, std::min(n, altSize(p))); free(p); } altLive.insert(q); return q; }
	void *altMalloc(void *m, size_t n) { if (m != &mgr) abort(); altCalls++; void *q = malloc(n); altLive.insert(q); return q; }
	void altFree(void *m, void *p) { if (m != &mgr) abort(); if (!altLive.erase(p)) abort(); free(p); }
	extern "C" size_t malloc_usable_size(void *);
	size_t altSize(void *p) { return malloc_usable_size(p); }
	std::string genLines(Src &s)
	{
		std::string r; for (unsigned k = (unsigned)s.len(14); k; k--) switch (s.weighted({ 5, 3, 3, 3, 1, 1 }))
		{
			case 0: r += s.bytes(s.len(20), "abc "); break; case 1: r += '\n'; break; case 2: r += "\r\n"; break; case 3: r += '\r'; break; case 4: r += '\0'; break; default: r += s.chance(70) ? s.bytes(s.uni(0, 3)) : std::string(s.chance(5) ? s.range(60000, 70000) : s.range(900, 3000), 'x');
		}
		return r;
	}
}
PROP(F02, line_input, 6, "random contents (LF, CR, CR LF, NUL, long lines, no final newline) read line by line with random size hints, default or custom reallocation, interrupted, short or failing reads, from random start positions, against a reference splitter with the position checked after each line.  Non-trivial: two or more lines, or a line longer than the size hint.")
{
	Box box; std::string c = genLines(s); size_t hint = s.chance(20) ? 1024 : s.chance(10) ? s.uni(0, 2) : s.uni(1, 30); bool alt = s.flip(), dflt = s.chance(5); unsigned eio = s.chance(12) ? (unsigned)s.uni(1, 6) : 0; bool eintr = s.chance(20);
	if (dflt) hint = 1024;
	spit("l.txt", c); s.note("content %s hint %zu%s%s", quote(c).c_str(), hint, alt ? " custom allocator" : "", dflt ? " default hint" : "");
	altLive.clear(); Leak lk(s);
	{
		File f; CHECK(s, f.LineInput(hint) == NULL, "LineInput() on a closed file");
		CHECK(s, f.Open("l.txt", s.chance(80) ? O_RDONLY : O_RDWR), "Open() failed");
		size_t pos = 0, lines = 0; bool longer = false; if (s.chance(20) && c.size()) { pos = s.draw(c.size()); f.Seek(File::SeekStart, pos); s.note("from %zu", pos); }
		for (;;)
		{
			disarm(); hits = hard = 0; if (eintr) for (int i = 0; i < 4; i++) { unsigned a = (unsigned)s.weighted({ 4, 3, 3 }); qRead.q.push_back({ a == 1 ? Eintr : a == 2 ? Short : Pass, 0, a == 2 ? (size_t)s.draw(40) : 0 }); } if (eio) { if (--eio == 0) qRead.q.push_back({ Error, EIO, 0 }); }
			size_t e = pos, next; while (e < c.size() && c[e] != '\n' && c[e] != '\r') e++;
			next = e < c.size() ? e + (c[e] == '\r' && e + 1 < c.size() && c[e + 1] == '\n' ? 2 : 1) : e;
			std::string want = c.substr(pos, e - pos); for (auto &x : want) if (!x) x = ' ';
			armed = true; char *l = dflt ? (alt ? f.LineInput(1024, &mgr, altRealloc) : f.LineInput()) : alt ? f.LineInput(hint, &mgr, altRealloc) : f.LineInput(hint); armed = false;
			if (hard) { s.note("read error"); if (l) { CHECK(s, strlen(l) <= c.size() - pos, "after a read error: %zu characters of garbage", strlen(l)); std::string g = l; CHECK(s, want.compare(0, g.size(), g) == 0, "after a read error: %s, line is %s", quote(g).c_str(), quote(want).c_str()); } }
			else { CHECK(s, l != NULL, "no line at %zu", pos); CHECK(s, strlen(l) == want.size() && want == l, "line at %zu is %s, expected %s", pos, quote(l).c_str(), quote(want).c_str()); CHECK(s, f.GetCurrPos() == next, "at %llu after the line at %zu, expected %zu", (unsigned long long)f.GetCurrPos(), pos, next); }
			if (l) { if (alt) altFree(&mgr, l); else delete[] l; }
			if (hard) break;
			lines++; if (want.size() > hint) longer = true;
			if (pos == c.size()) break; pos = next;
		}
		f.Close(); if (s.chance(5)) { CHECK(s, f.Open("l.txt", O_WRONLY), "Open() failed"); CHECK(s, f.LineInput(hint) == NULL, "LineInput() on a write-only file"); }
		if (lines > 2 || longer) s.nontrivial();
	}
	CHECK(s, altLive.empty(), "custom allocations leaked"); lk.check();
}
PROP(F02, line_input_far, 1, "lines at 2^31, 2^32 and 2^33 bytes into a sparse file, read after a seek with the position checked after each line.  Non-trivial: always.")
{
	Box box; std::string c = genLines(s); static const u64 near[] = { 1ULL << 31, 1ULL << 32, 1ULL << 33, 3ULL << 31 }; u64 base = near[s.draw(3)] - s.draw(30); size_t hint = s.flip() ? 1024 : s.uni(1, 30);
	int fd = open("far.txt", O_RDWR | O_CREAT | O_TRUNC, 0644); CHECK(s, fd >= 0 && pwrite(fd, c.data(), c.size(), (off_t)base) == (ssize_t)c.size() && ftruncate(fd, (off_t)(base + c.size())) == 0, "setup"); close(fd);
	s.note("content %s at %llu, hint %zu", quote(c).c_str(), (unsigned long long)base, hint); File f; CHECK(s, f.Open("far.txt", O_RDONLY) && f.Seek(File::SeekStart, base) && f.GetCurrPos() == base, "seek"); size_t pos = 0;
	for (;;)
	{
		size_t e = pos; while (e < c.size() && c[e] != '\n' && c[e] != '\r') e++; size_t next = e < c.size() ? e + (c[e] == '\r' && e + 1 < c.size() && c[e + 1] == '\n' ? 2 : 1) : e;
		std::string want = c.substr(pos, e - pos); for (auto &x : want) if (!x) x = ' ';
		char *l = f.LineInput(hint); CHECK(s, l != NULL, "no line at %zu", pos); std::string g = l; delete[] l; CHECK(s, g == want, "line at %zu is %s, expected %s", pos, quote(g).c_str(), quote(want).c_str()); CHECK(s, f.GetCurrPos() == base + next, "at %llu after the line at %zu, expected %llu", (unsigned long long)f.GetCurrPos(), pos, (unsigned long long)(base + next));
		if (pos == c.size()) break; pos = next;
	}
	s.nontrivial();
}
PROP(F02, read_large, 1, "files of 60 KB to 5 MB (mostly around powers of two) loaded at once, or lines of up to 2 MB read with size hints of 1 KB to 1 MB.  Non-trivial: more than 200 KB.")
{
	Box box; size_t n = s.flip() ? ((size_t)1 << (16 + s.draw(6))) - 3 + s.draw(6) : s.range(60000, s.chance(20) ? 5000000 : 700000); u64 x = s.draw(1000); std::string c(n, 0); bool lines = s.flip(); size_t hint = 0, mean = 0;
	if (!lines) { for (size_t i = 0; i < n; i += 8) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; memcpy(&c[i], &x, std::min<size_t>(8, n - i)); } }
	else { if (n > 2100000) n = 2100000; c.assign(n, 'l'); for (size_t i = 0; i < n; i += 101) c[i] = (char)('a' + i % 23); hint = n > 300000 ? (size_t)1 << (14 + s.draw(6)) : (size_t)1 << (10 + s.draw(8)); if (s.flip()) hint += s.draw(1000); for (unsigned k = (unsigned)s.draw(4); k; k--) { size_t p = s.chance(40) ? std::min(n - 1, hint * (1 + s.draw(3)) - s.draw(2)) : s.draw(n - 1); const char *e = s.flip() ? "\n" : s.flip() ? "\r\n" : "\r"; c[p] = e[0]; if (e[1] && p + 1 < n) c[p + 1] = e[1]; } }
	(void)mean; spit("l", c); s.note(lines ? "lines of a file of %zu bytes, hint %zu" : "file of %zu bytes", n, hint);
	if (!lines) { char *r = NULL; size_t got = 0; bool alt = s.flip(); altLive.clear(); CHECK(s, alt ? File::LoadEntireFile("l", r, got, &mgr, altMalloc, altFree) : File::LoadEntireFile("l", r, got), "failed"); CHECK(s, got == n, "loaded %zu of %zu bytes", got, n); CHECK(s, !memcmp(r, c.data(), n), "loaded other bytes"); if (alt) altFree(&mgr, r); else delete[] r; }
	else
	{
		File f; CHECK(s, f.Open("l", O_RDONLY), "Open() failed"); size_t pos = 0;
		for (;;)
		{
			size_t e = pos; while (e < n && c[e] != '\n' && c[e] != '\r') e++; size_t next = e < n ? e + (c[e] == '\r' && e + 1 < n && c[e + 1] == '\n' ? 2 : 1) : e;
			char *l = f.LineInput(hint); CHECK(s, l != NULL, "no line at %zu", pos); size_t g = strlen(l); bool same = g == e - pos && !memcmp(l, c.data() + pos, g); delete[] l; CHECK(s, same, "line at %zu has %zu characters (or others), expected %zu", pos, g, e - pos); CHECK(s, f.GetCurrPos() == next, "at %llu after the line at %zu, expected %zu", (unsigned long long)f.GetCurrPos(), pos, next);
			if (pos == n) break; pos = next;
		}
	}
	if (n > 200000) s.nontrivial();
}
PROP(F02, load_entire_file, 4, "random contents loaded with the default or a custom allocator, missing files, and interrupted, short or failing reads, compared with the content; failure must leave no result and no allocation.  Non-trivial: two or more bytes, or a failure.")
{
	Box box; std::string c = data(s, 70000); bool alt = s.flip(), missing = s.chance(5); spit("f.bin", c);
	bool fl = s.chance(40); if (fl) genFaults(s, qRead, false, true); bool shortRead = false; for (auto &q : qRead.q) if (q.a == Short) shortRead = true;
	s.note("%zu bytes%s%s%s", c.size(), alt ? " custom allocator" : "", missing ? " missing" : "", showFaults(qRead).c_str());
	altLive.clear(); Leak lk(s); char *r = (char *)&c; size_t n = 99; int fd0 = openFds(); hits = hard = 0;
	armed = true; bool ok = alt ? File::LoadEntireFile(missing ? "nope" : "f.bin", r, n, &mgr, altMalloc, altFree) : File::LoadEntireFile(missing ? "nope" : "f.bin", r, n); armed = false;
	if (missing || hard) CHECK(s, !ok, "succeeded on a missing or failing file"); else if (!shortRead) CHECK(s, ok, "failed");
	if (ok) { CHECK(s, n == c.size() && (!n || (r && !memcmp(r, c.data(), n))), "loaded %zu bytes, other than the %zu bytes of the file", n, c.size()); if (alt) { if (r) altFree(&mgr, r); } else delete[] r; }
	else CHECK(s, r == NULL && n == 0, "failure left a result");
	CHECK(s, altLive.empty(), "custom allocation leaked"); lk.check(); CHECK(s, openFds() == fd0, "descriptor leaked");
	if (!ok || n >= 2) s.nontrivial();
}

// ---- F03
PROP(F03, copy_move, 4, "random sources (0 bytes to 40 KB around buffer multiples, modes, times), sources open elsewhere (shared, exclusive), destinations (absent, shorter, longer, read-only, locked, directory, alias through symbolic or hard link, itself), copy or move, with failing, short or interrupted reads and writes at any position, failing truncation, removal and cross-device rename.  Non-trivial: a fault hit, an existing destination, or a size above 8192.")
{
	Box box; static const size_t edge[] = { 0, 1, 8191, 8192, 8193, 16383, 16384, 16385, 24576, 32768, 40000, 65535, 65536, 65537, 131072, 262145 }; size_t n = s.chance(3) ? edge[s.draw(15)] : s.flip() ? edge[s.draw(10)] : s.range(0, 40000);
	std::string c(n, 0); u64 x = s.draw(1000); for (auto &b : c) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; b = (char)(x >> 56); }
	static const char *dests[] = { "dst", "d\xC3\xA9st", "./sub/dst", "sub/../dst" };
	const char *src = s.chance(80) ? "src" : "s \xE2\x82\xAC", *dst = dests[s.weighted({ 5, 2, 1, 1 })]; mkdir("sub", 0755);
	int mode = 0400 | (int)s.draw(0777); if (s.chance(20)) mode |= (int)s.uni(1, 7) << 9; spit(src, c, mode); { struct stat st; if (chmod(src, (mode_t)mode) || stat(src, &st) || (st.st_mode & 07777) != (mode_t)mode) { mode &= 0777; chmod(src, (mode_t)mode); } } struct timespec ts[2] = { { 1000000 + (time_t)s.range(0, 2000000000), 0 }, { 1000000 + (time_t)s.range(0, 2000000000), 0 } }; utimensat(AT_FDCWD, src, ts, 0);
	enum { None, Shorter, Longer, Same, ReadOnly, Locked, Directory, SymlinkToSrc, HardlinkToSrc, Itself, SymlinkElsewhere, SrcLocked, SrcShared };
	unsigned kind = s.weighted({ 8, 3, 6, 2, 1, 1, 1, 2, 2, 2, 2, 1, 1 }); std::string old; File lock;
	switch (kind)
	{
		case Shorter: old = std::string(s.range(0, n), 'o'); spit(dst, old); break; case Longer: old = std::string(n + s.range(1, 20000), 'o'); spit(dst, old); break; case Same: old = std::string(n, 'o'); spit(dst, old); break;
		case ReadOnly: old = "ro"; spit(dst, old, 0444); break; case Locked: old = "locked"; spit(dst, old); CHECK(s, lock.Open(dst, O_RDONLY, File::ShareBoth), "setup"); break; case Directory: mkdir(dst, 0755); break;
		case SymlinkToSrc: if (symlink((box.d + "/" + src).c_str(), dst)) {} break; case HardlinkToSrc: if (link(src, dst)) {} break; case Itself: dst = src; break; case SymlinkElsewhere: old = "else"; spit("else", old); if (symlink((box.d + "/else").c_str(), dst)) {} break;
		case SrcLocked: CHECK(s, lock.Open(src, O_RDONLY, File::ShareNone), "setup"); break;
		case SrcShared: CHECK(s, lock.Open(src, O_RDONLY, File::ShareBoth), "setup"); break;      // Another reader is no obstacle.
		default: break;
	}
	bool alias = kind == SymlinkToSrc || kind == HardlinkToSrc || kind == Itself, move = s.flip(), missing = s.chance(3); std::string src2 = missing ? "gone" : src;
	bool exdev = move && s.chance(65); if (exdev) for (int i = 0; i < 3; i++) qRename.q.push_back({ Error, EXDEV, 0 });
	if (s.chance(55)) { unsigned at = (unsigned)s.draw(6); bool w = s.flip(); Queue &q = w ? qWrite : qRead; for (unsigned i = 0; i < at; i++) q.q.push_back({ Pass, 0, 0 }); genFaults(s, q, w, true); }
	if (s.chance(8)) qTrunc.q.push_back({ Error, EIO, 0 }); bool unl = move && s.chance(8); if (unl) qUnlink.q.push_back({ Error, EPERM, 0 });
	s.note("%s(%s, %zu bytes, mode %o) to %s, destination kind %u%s; reads%s writes%s%s%s", move ? "Move" : "Copy", src2.c_str(), n, mode, dst, kind, exdev ? ", cross-device" : "", showFaults(qRead).c_str(), showFaults(qWrite).c_str(), qTrunc.q.size() ? " truncation fails" : "", unl ? " removal fails" : "");
	denyChown = s.chance(20); if (denyChown) s.note("(changing the owner is not permitted)"); hits = hard = 0; int fd0 = openFds(); armed = true; bool r = move ? File::Move(src2.c_str(), dst) : File::Copy(src2.c_str(), dst); armed = false; denyChown = false;
	bool blocked = kind == ReadOnly || kind == Locked || kind == Directory || kind == SrcLocked; unsigned faultsHit = hits; bool ioFault = hard > (exdev ? 1u : 0u);
	CHECK(s, openFds() == fd0, "descriptor leaked"); lock.Close();
	struct stat st; bool srcThere = lstat(src, &st) == 0;
	s.note("returned %d", r);
	if (missing) { CHECK(s, !r, "succeeded without a source"); CHECK(s, srcThere && slurp(src) == c, "an unrelated file changed"); return; }
	if (!r)
	{
		CHECK(s, srcThere && slurp(src) == c, "failed, and the source is %s", srcThere ? "damaged" : "gone");
		bool mayFail = ioFault || alias || blocked; CHECK(s, mayFail, "failed although nothing prevents it");
	}
	else
	{
		bool viaRename = move && !exdev;
		CHECK(s, stat(dst, &st) == 0, "succeeded without a destination");
		std::string got = slurp(dst); if (!(st.st_mode & 0400)) { chmod(dst, 0600); got = slurp(dst); }
		CHECK(s, got == c, "succeeded with a wrong destination: %zu bytes, expected %zu, first difference at %zu", got.size(), c.size(), (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), c.size()), c.begin()).first - got.begin()));
		if (!viaRename) { CHECK(s, !alias, "copied a file onto itself"); CHECK(s, (st.st_mode & 07777) == (mode_t)mode, "destination mode %o, expected %o", st.st_mode & 07777, mode); CHECK(s, st.st_mtime == ts[1].tv_sec, "destination modification time %lld, expected %lld", (long long)st.st_mtime, (long long)ts[1].tv_sec); }
		if (move) { if (!alias) CHECK(s, !srcThere, "moved, but the source is still there"); else if (kind == HardlinkToSrc || kind == Itself) {} }
		else { CHECK(s, srcThere && slurp(src) == c, "copying %s the source", srcThere ? "damaged" : "removed"); lstat(src, &st); CHECK(s, (st.st_mode & 07777) == (mode_t)mode && st.st_mtime == ts[1].tv_sec, "copying changed the source's attributes"); }
	}
	CHECK(s, escaped.empty(), "outside the scratch directory: %s", escaped.c_str());
	if (faultsHit || kind != None || n > 8192) s.nontrivial();
}

PROP(F03, copy_refused, 1, "sources that are not plain files (directory, fifo holding data, links to them, dangling link), and source or destination names that are invalid, too long or in a missing or forbidden directory, copied or moved (within and across devices): refused with the source, its data and every other file as they were, or moved whole.  Non-trivial: always.")
{
	Box box; spit("plain", "plain data"); spit("other", "other data"); mkdir("dir", 0755); spit("dir/in", "inside"); mkdir("locked", 0755); spit("locked/in", "inside"); chmod("locked", 0555); if (mkfifo("fifo", 0644) || symlink("dir", "ldir") || symlink("fifo", "lfifo") || symlink("nowhere", "ldang") || symlink("plain", "lplain")) throw pbt::Discard();
	struct Fd { int f; ~Fd() { close(f); } } fd = { __real_open("fifo", O_RDWR | O_NONBLOCK, 0) }; std::string fdata = s.bytes(s.uni(1, 200)); if (fd.f < 0 || __real_write(fd.f, fdata.data(), fdata.size()) != (ssize_t)fdata.size()) throw pbt::Discard();
	static const char *srcs[] = { "plain", "dir", "fifo", "ldir", "lfifo", "ldang", "nope", "", "pl*in", "plain\x01", "plain\xFF", "nodir/x", "LONG", "lplain", "locked/in" }, *dsts[] = { "new", "other", "dir", "", "n*w", "n?w", "n\x7Fw", "\xC3.", "nodir/x", "LONG", "plain/x", "locked/x", "dir/new", "FOLD" };
	auto full = [&](std::string x) { if (x == "LONG") x = std::string(s.uni(256, 9000), 'l'); if (x == "FOLD") { x.clear(); for (unsigned z = (unsigned)s.uni(4090, 5000); z; z--) x += "./"; x += "new"; } return x; };
	unsigned si = s.weighted({ 6, 3, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 2, 2 }), di = (unsigned)s.draw(13); std::string src = full(srcs[si]), dst = full(dsts[di]); bool move = s.flip(), exdev = move && s.chance(60); if (exdev) for (int i = 0; i < 3; i++) qRename.q.push_back({ Error, EXDEV, 0 });
	bool regular = si == 0 || si >= 13, goodDst = di == 0 || di == 1 || di == 12; s.note("%s(%s, %s)%s", move ? "Move" : "Copy", quote(src, 40).c_str(), quote(dst, 40).c_str(), exdev ? ", cross-device" : "");
	// Should the fifo be read after all, it ends rather than blocks.
	qRead.q.push_back({ Pass, 0, 0 }); if (!regular) qRead.q.push_back({ Error, EIO, 0 });
	auto look = [&]() { std::string r; for (const char *n : { "plain", "other", "dir", "dir/in", "locked/in", "fifo", "ldir", "lfifo", "ldang", "lplain" }) { struct stat st; if (lstat(n, &st)) { r += std::string(n) + " missing\n"; continue; } r += std::string(n) + " " + std::to_string(st.st_mode) + " " + std::to_string(st.st_ino); if (S_ISREG(st.st_mode)) r += " " + slurp(n); r += "\n"; } return r; };
	std::string before = look(); hits = hard = 0; int fd0 = openFds(); armed = true; bool r = move ? File::Move(src.c_str(), dst.c_str()) : File::Copy(src.c_str(), dst.c_str()); armed = false; s.note("returned %d", r); struct stat st;
	CHECK(s, openFds() == fd0, "descriptor leaked"); CHECK(s, escaped.empty(), "outside the scratch directory: %s", escaped.c_str());
	bool renamed = move && !exdev && r && !regular; char got[300]; ssize_t gn = renamed ? -1 : __real_read(fd.f, got, sizeof got);
	if (!renamed) CHECK(s, gn == (ssize_t)fdata.size() && !memcmp(got, fdata.data(), gn), "the data waiting in the fifo is %zd bytes, expected %zu", gn, fdata.size());
	if (r)
	{
		CHECK(s, goodDst || renamed, "succeeded with a destination that cannot be written"); CHECK(s, regular || renamed, "succeeded with a source that is not a file"); CHECK(s, lstat(dst.c_str(), &st) == 0, "succeeded without a destination");
		if (regular) { if (si != 13 || !move || exdev) CHECK(s, slurp(dst) == (si == 14 ? "inside" : "plain data"), "succeeded with another content"); if (move) CHECK(s, lstat(src.c_str(), &st) != 0, "moved, but the source is still there"); else CHECK(s, lstat(src.c_str(), &st) == 0, "the source is gone"); if (si == 13) CHECK(s, slurp("plain") == "plain data", "the file behind the link changed"); }
	}
	else
	{
		bool may = !regular || !goodDst || (move && si == 14); CHECK(s, may, "failed although nothing prevents it"); std::string now = look(); bool dstMay = goodDst && di == 1; if (dstMay) { auto cut = [](std::string x) { size_t a = x.find("other "), b = x.find('\n', a); return x.erase(a, b - a); }; now = cut(now); before = cut(before); }
		CHECK(s, now == before, "failed and changed something: was\n%snow\n%s", before.c_str(), now.c_str());
	}
	chmod("locked", 0755); s.nontrivial(si * 64 + di * 4 + move * 2 + exdev);
}
PROP(F03, copy_large, 1, "files of 60 KB to 5 MB (mostly around powers of two, or with the last bytes missing), copied or moved across devices to absent, shorter, longer or equally long files, with a read or write failing or short anywhere in the file.  Non-trivial: a size above 1 MB or a fault hit.")
{
	Box box; size_t n = s.flip() ? ((size_t)1 << (16 + s.draw(6))) - 3 + s.draw(6) : s.range(60000, s.chance(20) ? 5000000 : 700000); u64 seed = s.draw(1000), x = seed; std::string c(n, 0); for (size_t i = 0; i < n; i += 8) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; memcpy(&c[i], &x, std::min<size_t>(8, n - i)); }
	spit("src", c); unsigned kind = (unsigned)s.draw(4); size_t on = kind == 1 ? s.range(0, n) : kind == 2 ? n + s.range(1, 300000) : n; if (kind) { std::string old = kind == 4 ? c : std::string(on, 'o'); if (kind == 4) old[s.draw(n - 1)] ^= 1; spit("dst", old); }
	bool move = s.chance(30), w = s.flip(); if (move) qRename.q.push_back({ Error, EXDEV, 0 }); unsigned f = s.weighted({ 3, 1, 1, 1 }); Queue &q = w ? qWrite : qRead; unsigned at = (unsigned)s.draw(n / 8192 + 1); q.skip = at; if (f) q.q.push_back({ f == 1 ? Error : f == 2 ? Short : Eintr, w ? ENOSPC : EIO, (size_t)s.draw(8190) });
	s.note("%s of %zu bytes, destination kind %u of %zu bytes%s", move ? "Move" : "Copy", n, kind, on, f == 1 ? ", an error" : f == 2 ? ", a short transfer" : f == 3 ? ", an interruption" : ""); if (f) s.note("at %s %u", w ? "write" : "read", at);
	hits = hard = 0; armed = true; bool r = move ? File::Move("src", "dst") : File::Copy("src", "dst"); armed = false; bool io = hard > (move ? 1u : 0u); struct stat st; bool there = stat("src", &st) == 0; s.note("returned %d", r);
	CHECK(s, r || io, "failed although nothing prevents it"); if (!r) CHECK(s, there && slurp("src") == c, "failed, and the source is %s", there ? "damaged" : "gone");
	else { std::string g = slurp("dst"); CHECK(s, g.size() == n, "succeeded with %zu of %zu bytes", g.size(), n); CHECK(s, g == c, "succeeded with another byte at %zu", (size_t)(std::mismatch(g.begin(), g.end(), c.begin()).first - g.begin())); CHECK(s, move ? !there : there && slurp("src") == c, "the source is %s", move ? "still there" : "damaged"); }
	CHECK(s, escaped.empty(), "outside the scratch directory: %s", escaped.c_str()); if (n > 1000000 || hits > (move ? 1u : 0u)) s.nontrivial();
}

// ---- F04
namespace
{
	// 1 valid, 0 invalid, -1 either (overlong forms, leading combining mark).
	int validName(const std::string &x)
	{
		if (x.empty()) return 0; bool odd = false; size_t i = 0; bool first = true;
		while (i < x.size())
		{
			unsigned char c = x[i]; unsigned k = c < 0x80 ? 0 : (c & 0xE0) == 0xC0 ? 1 : (c & 0xF0) == 0xE0 ? 2 : (c & 0xF8) == 0xF0 ? 3 : 9; if (k == 9 || i + k >= x.size()) return 0;
			std::uint32_t v = k ? c & (0x3F >> k) : c; for (unsigned j = 1; j <= k; j++) { if (((unsigned char)x[i + j] & 0xC0) != 0x80) return 0; v = v << 6 | ((unsigned char)x[i + j] & 0x3F); }
			if ((k == 1 && v < 0x80) || (k == 2 && v < 0x800) || (k == 3 && v < 0x10000)) odd = true;
			if (v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF) || (v >= 0xFDD0 && v <= 0xFDEF) || (v & 0xFFFE) == 0xFFFE) return 0;
			if (first && ((v >= 0x300 && v <= 0x36F) || (v >= 0x1DC0 && v <= 0x1DFF) || (v >= 0x20D0 && v <= 0x20FF) || (v >= 0xFE20 && v <= 0xFE2F))) odd = true;
			if (v < 0x20 || v == 0x7F || (v < 0x80 && strchr("*?\"<>|", (int)v))) return 0;
			first = false; i += k + 1;
		}
		return odd ? -1 : 1;
	}
	std::string genPath(Src &s, bool wild)
	{
		static const char *comp[] = { "a", ".", "..", "bb", "", "...", ".h", "x.tar.gz", "..x", "x..", "\xC3\xA9", "\xE6\x97\xA5\xE6\x9C\xAC", "\xF0\x9F\x98\x80", "a b", "c.", "\xE2\x82\xAC.txt", "e\xCC\x81" };
		std::string r; unsigned n = (unsigned)s.len(8); if (s.chance(30)) r += '/';
		for (unsigned i = 0; i < n; i++) { if (i) r += s.chance(8) ? '\\' : '/'; r += comp[s.draw(16)]; }
		if (s.chance(15)) r += '/';
		if (wild && s.chance(25) && r.size()) r[s.draw(r.size() - 1)] = (char)s.range(1, 255);
		if (wild && s.chance(5)) r += s.bytes(s.uni(1, 6)); for (auto &c : r) if (!c) c = 'n';
		return r;
	}
	std::string slashes(std::string x) { for (auto &c : x) if (c == '\\') c = '/'; return x; }
	std::string normal(const std::string &p)      // absolute
	{
		std::vector<std::string> v; size_t i = 0; while (i < p.size()) { size_t e = p.find('/', i); if (e == std::string::npos) e = p.size(); std::string c = p.substr(i, e - i); i = e + 1; if (c.empty() || c == ".") continue; if (c == "..") { if (v.size()) v.pop_back(); } else v.push_back(c); }
		std::string r; for (auto &c : v) r += "/" + c; return r;
	}
}
PROP(F04, platform_filename, 4, "random names (valid UTF-8, damaged UTF-8, control and reserved characters, backslashes) into exactly allocated buffers around the needed size, against an independent validator; then split and compared with a reference splitter.  Non-trivial: accepted with a multi-byte character or backslash, or refused for one bad character.")
{
	std::string p = genPath(s, true); size_t sz = s.chance(70) ? p.size() + s.uni(0, 3) : s.range(0, 100); if (s.chance(3)) p += std::string(s.uni(8150, 8200), 'y');
	if (s.chance(3)) sz = p.size() + 1;
	s.note("%s into %zu", quote(p).c_str(), sz);
	std::unique_ptr<char[]> in(new char[p.size() + 1]), out(new char[sz]); memcpy(in.get(), p.c_str(), p.size() + 1);
	bool ok = File::GetPlatformFilename(out.get(), sz, in.get()); int v = validName(p);
	if (sz < p.size() + 1) CHECK(s, !ok, "succeeded in a buffer that is too small"); else if (v >= 0) CHECK(s, ok == (v == 1), "returned %d for a%s name", ok, v ? " valid" : "n invalid");
	if (ok) CHECK(s, strnlen(out.get(), sz) == p.size() && slashes(p) == out.get(), "gave %s", quote(out.get()).c_str());
	CHECK(s, !strcmp(in.get(), p.c_str()), "the name was modified");
	if (v >= 0 && p.size() < 8000) CHECK(s, File::IsValidFilenameFormat(p.c_str()) == (v == 1), "IsValidFilenameFormat() disagrees"); else if (v >= 0 && p.size() >= 8192) CHECK(s, !File::IsValidFilenameFormat(p.c_str()), "accepts a name that is too long");
	File::FilenameInfo i; File::GetPlatformFilenameInfo(i, in.get());
	size_t f = p.rfind('/'); f = f == std::string::npos ? 0 : f + 1; size_t e = p.find('.', f), l = p.rfind('.'); if (e == std::string::npos) e = p.size(); if (l == std::string::npos || l < f) l = p.size();
	CHECK(s, i.Length == p.size() && i.StartVolume == 0 && i.StartPath == 0 && i.StartFilename == f && i.StartExtension == e && i.StartLastExtension == l, "split at name %zu extension %zu last extension %zu length %zu, expected %zu %zu %zu %zu", i.StartFilename, i.StartExtension, i.StartLastExtension, i.Length, f, e, l, p.size());
	bool multi = false; for (auto c : p) if ((unsigned char)c >= 0x80 || c == '\\') multi = true; if ((ok && multi) || (v == 0 && p.size() > 3)) s.nontrivial();
}
PROP(F04, absolute_filename, 6, "random relative and absolute names (with . .. // and backslashes) against random bases (absolute, relative, current directory) into exactly allocated buffers around the needed size, compared with a component-wise normalizer.  Non-trivial: at least one . or .. component or an exact-fit buffer.")
{
	Box box; std::string p = genPath(s, false), base = genPath(s, false); bool cwd = s.chance(25); if (!cwd && s.chance(80) && base[0] != '/') base = "/" + base; if (s.chance(2)) p += "/" + std::string(s.uni(8000, 8185), 'y'); if (s.chance(1)) base += "/" + std::string(s.uni(8000, 8185), 'y');
	bool trail = s.flip(); std::string bs = slashes(base), full = (slashes(p)[0] == '/' ? slashes(p) : (cwd ? box.d : bs) + "/" + slashes(p)); std::string want = normal(full); bool isRoot = want.empty(); if (trail) want += "/";
	size_t sz = s.chance(60) ? want.size() + s.uni(0, 4) : s.range(0, 9000); s.note("%s relative to %s into %zu, trailing slash %d", quote(p).c_str(), cwd ? "the current directory" : quote(base).c_str(), sz, trail);
	std::unique_ptr<char[]> out(new char[sz]); bool ok = File::GetAbsoluteFilename(out.get(), sz, cwd ? NULL : base.c_str(), p.c_str(), trail);
	bool badBase = !cwd && (base.empty() || bs[0] != '/' || validName(base) == 0); bool big = p.size() > 8000 || base.size() > 8000;
	if (p.empty() || validName(p) == 0) CHECK(s, !ok, "accepted an invalid name"); else if (badBase && slashes(p)[0] != '/') CHECK(s, !ok, "accepted a base that is not absolute");
	if (ok)
	{
		CHECK(s, strnlen(out.get(), sz) < sz, "not terminated"); std::string g = out.get();
		if (isRoot) CHECK(s, g == "/" || g.empty(), "gave %s for the root", quote(g).c_str()); else CHECK(s, g == want, "gave %s, expected %s", quote(g, 300).c_str(), quote(want, 300).c_str());
	}
	else if (validName(p) == 1 && !badBase && !big) CHECK(s, sz < want.size() + 1 + (trail ? 0 : 1), "refused %s (%zu characters) with room for %zu", quote(want).c_str(), want.size(), sz);
	if (sz == want.size() + 1 || full.find("/.") != std::string::npos) s.nontrivial();
}

PROP(F04, absolute_filename_limits, 2, "names and bases whose lengths, alone and joined, lie around the limit of 8191 characters, ending in a slash, '.' or '..' or not, with '..' components that make the result short again: the exact result or a refusal, never a refusal below 8180 characters and never a write outside a buffer.  Non-trivial: the joined name has 8100 characters or more.")
{
	Box box; auto fill = [&](size_t n, bool abs) { std::string r = abs ? "/" : ""; while (r.size() < n) { size_t k = std::min<size_t>(n - r.size(), s.chance(30) ? s.uni(1, 300) : s.uni(200, 9000)); unsigned m = s.weighted({ 8, 2, 2, 1 }); std::string c = m == 1 ? ".." : m == 2 ? "." : m == 3 ? "" : std::string(k, (char)('a' + s.draw(3))); r += c; if (r.size() < n) r += '/'; } r.resize(n); return r; };
	bool rel = s.chance(75), cwd = rel && s.chance(20), huge = s.chance(70); size_t total = huge ? s.uni(8170, 8200) : s.uni(7000, 8400); static const char *tails[] = { "", "/", "/.", "/..", "/../", "/./", "/..." }; std::string tail = tails[s.draw(6)]; size_t bl = cwd ? box.d.size() : rel ? (s.flip() ? s.uni(1, 20) : s.uni(1, total - 10)) : s.flip() ? 1 : s.uni(1, 8200);
	std::string base = fill(bl, true); size_t pl = rel ? total - bl - 1 : total; std::string p = fill(pl > tail.size() + 2 ? pl - tail.size() : 2, !rel) + tail; if (rel && p[0] == '/') p[0] = 'z';
	std::string full = rel ? (cwd ? box.d : base) + "/" + p : p, want = normal(full); bool trail = s.flip(), isRoot = want.empty(); if (trail) want += "/"; size_t sz = s.chance(50) ? want.size() + s.uni(0, 4) : s.chance(70) ? 8192 : s.range(1, 9000);
	s.note("name of %zu characters ending in %s, base of %zu%s, joined %zu, result of %zu into %zu, trailing slash %d", p.size(), quote(tail).c_str(), base.size(), cwd ? " (not used)" : "", full.size(), want.size(), sz, trail);
	std::unique_ptr<char[]> out(new char[sz]), in(new char[p.size() + 1]), bs(new char[base.size() + 1]); memcpy(in.get(), p.c_str(), p.size() + 1); memcpy(bs.get(), base.c_str(), base.size() + 1); bool ok = File::GetAbsoluteFilename(out.get(), sz, cwd ? NULL : bs.get(), in.get(), trail); s.note("returned %d", ok);
	if (ok) { CHECK(s, strnlen(out.get(), sz) < sz, "not terminated"); std::string g = out.get(); if (isRoot) CHECK(s, g == "/" || g.empty(), "gave %s for the root", quote(g, 80).c_str()); else CHECK(s, g == want, "gave %s (%zu characters), expected %s (%zu)", quote(g, 200).c_str(), g.size(), quote(want, 200).c_str(), want.size()); }
	else CHECK(s, full.size() >= 8180 || base.size() >= 8180 || sz < want.size() + 1 + (trail ? 0 : 1), "refused");
	if (full.size() >= 8100) s.nontrivial();
}
PROP(F04, no_current_directory, 1, "absolute and relative names while the current directory does not exist any more: absolute names (alone or with a base) and names with an absolute base resolve as always, relative ones without a base are refused.  Non-trivial: always.")
{
	Box box; mkdir("gone", 0755); if (chdir("gone") || __real_rmdir((box.d + "/gone").c_str())) throw pbt::Discard(); std::string p = genPath(s, false), base = "/" + genPath(s, false); bool nb = s.flip(), trail = s.flip(); if (s.flip()) p = "/" + p;
	std::string ps = slashes(p); bool abs = ps[0] == '/'; std::string want = normal(abs ? ps : slashes(base) + "/" + ps); bool isRoot = want.empty(); if (trail) want += "/"; s.note("%s relative to %s", quote(p).c_str(), nb ? "nothing" : quote(base).c_str());
	char out[9000]; bool ok = File::GetAbsoluteFilename(out, sizeof out, nb ? NULL : base.c_str(), p.c_str(), trail); int v = validName(p), vb = validName(base);
	if (v == 0 || (nb && !abs)) CHECK(s, !ok, "succeeded"); else if (v == 1 && (nb || vb == 1)) CHECK(s, ok, "failed");
	if (ok && !isRoot) CHECK(s, want == out, "gave %s, expected %s", quote(out).c_str(), quote(want).c_str()); s.nontrivial();
}

// ---- F05
namespace
{
	std::string snap(const std::string &d, const std::string &skip = "")
	{
		std::string r; DIR *h = opendir(d.c_str()); if (!h) return "<unreadable " + d + ">\n"; std::vector<std::string> v; struct dirent *e; while ((e = readdir(h))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(h); std::sort(v.begin(), v.end());
		for (auto &n : v)
		{
			std::string p = d + "/" + n; if (p == skip) continue; struct stat st; if (lstat(p.c_str(), &st)) continue; char b[64]; snprintf(b, sizeof b, " %o", st.st_mode); r += p + b;
			if (S_ISLNK(st.st_mode)) { char t[4096]; ssize_t k = readlink(p.c_str(), t, sizeof t); r += " -> " + std::string(t, k < 0 ? 0 : k); } else if (S_ISREG(st.st_mode)) r += " " + slurp(p); r += "\n"; if (S_ISDIR(st.st_mode)) r += snap(p, skip);
		}
		return r;
	}
	std::string genName(Src &s, bool odd)
	{
		static const char *t[] = { "a", "b", "c", "d", ".h", "...", "\xC3\xA9", "\xE6\x97\xA5", "a b", "x.y", "-rf", "..a", "~", "$HOME", "'q'" }; static const char *o[] = { "a*b", "w\\x", "..\\keep", "q?", "\x01" "c", "\xFF\xFE", "<n>" };
		if (odd && s.chance(12)) return o[s.draw(6)]; if (s.chance(3)) return std::string(s.uni(200, 255), 'L'); return t[s.draw(14)];
	}
	struct Tree { bool oddDir, noWrite, fixed; unsigned nodes, links; };
	void grow(Src &s, const std::string &d, unsigned depth, Tree &t, bool odd)
	{
		unsigned n = (unsigned)s.uni(0, depth ? 3 : 4);
		for (unsigned i = 0; i < n && t.nodes < 40; i++)
		{
			std::string nm = genName(s, odd), p = d + "/" + nm; struct stat st; if (lstat(p.c_str(), &st) == 0) continue; t.nodes++;
			switch (s.weighted({ 5, 5, 5, 1 }))
			{
				case 0: spit(p, "f", 0400 | (int)s.draw(0377)); s.note("  file %s", quote(p).c_str()); break;
				case 1: if (depth < 5) { mkdir(p.c_str(), 0755); s.note("  dir %s", quote(p).c_str()); if (validName(nm) != 1 || nm.find('\\') != std::string::npos) t.oddDir = true; grow(s, p, depth + 1, t, odd); if (!t.fixed && s.chance(3)) { chmod(p.c_str(), 0500); DIR *h = opendir(p.c_str()); int k = 0; while (readdir(h)) k++; closedir(h); if (k > 2) t.noWrite = true; } } break;
				case 2: { static const char *to[] = { "../keep", "../../keep", "/ABS/keep", "/ABS/keep/sub", "../keep/file", ".", "..", "dangling", "/ABS", "a", "/ABS/keep/file" }; std::string x = to[s.draw(10)]; if (x.compare(0, 4, "/ABS") == 0) x = root + "c" + x.substr(4); if (symlink(x.c_str(), p.c_str()) == 0) { s.note("  link %s -> %s", quote(p).c_str(), x.c_str()); t.links++; } break; }
				default: mkfifo(p.c_str(), 0644); s.note("  fifo %s", quote(p).c_str());
			}
		}
	}
}
PROP(F05, remove_tree, 4, "random trees (files, nested directories, symbolic links to files and directories outside, parents and itself, fifos, odd names, unwritable directories) beside a tree to keep; recursive and plain removal through random spellings of the path, then everything outside is compared with a snapshot.  Non-trivial: the tree has a link or two nested entries.")
{
	Box box; mkdir("keep", 0755); mkdir("keep/sub", 0755); spit("keep/file", "precious"); spit("keep/sub/file2", "also"); spit("w", "w"); spit("beside", "b"); Tree t = Tree();
	bool odd = s.chance(30); std::string top = s.chance(70) ? "tree" : s.chance(50) ? "t\xC3\xA9" : "x.d"; bool rec = s.chance(75); unsigned kind = s.weighted({ 12, 1, 1, 1, 1 });
	switch (kind) { case 0: mkdir(top.c_str(), 0755); grow(s, top, 0, t, odd); break; case 1: spit(top, "file"); break; case 2: if (symlink("keep", top.c_str())) {} break; case 3: if (symlink("keep/file", top.c_str())) {} break; default: break; }
	std::string path = top; switch (s.weighted({ 6, 2, 2, 2, 1, 1 })) { case 1: path = top + "/"; break; case 2: path = box.d + "/" + top; break; case 3: path = "keep/../" + top; break; case 4: path = "./" + top; break; case 5: path = "keep\\..\\" + top + "//"; break; default: break; }
	std::string before = snap(box.d, box.d + "/" + top); bool empty = false; if (kind == 0) { DIR *h = opendir(top.c_str()); int k = 0; while (readdir(h)) k++; closedir(h); empty = k == 2; }
	s.note("Rmdir(%s, recursive %d), kind %u", quote(path).c_str(), rec, kind);
	std::string treeBefore = kind == 0 ? snap(box.d + "/" + top) : ""; int fd0 = openFds();
	bool r = Dir::Rmdir(path.c_str(), rec); struct stat st; bool there = lstat(top.c_str(), &st) == 0; s.note("returned %d", r);
	std::string after = snap(box.d, box.d + "/" + top); CHECK(s, before == after, "something outside the tree changed: was\n%snow\n%s", before.c_str(), after.c_str());
	CHECK(s, escaped.empty(), "outside the scratch directory: %s", escaped.c_str()); CHECK(s, openFds() == fd0, "descriptor leaked");
	if (kind != 0) { CHECK(s, !r, "succeeded on something that is not a directory"); CHECK(s, there == (kind != 4), "removed something that is not a directory"); }
	else if (r) { CHECK(s, !there, "succeeded but the directory is still there"); CHECK(s, rec || empty, "plain removal of a non-empty directory"); }
	else { CHECK(s, there, "failed but the directory is gone"); bool mayFail = rec ? (t.oddDir || t.noWrite) : !empty; CHECK(s, mayFail, "failed although nothing prevents it"); if (!rec) CHECK(s, snap(box.d + "/" + top) == treeBefore, "plain removal changed a non-empty directory"); }
	if (t.links || t.nodes > 2) s.nontrivial();
}
PROP(F05, bad_names, 1, "every directory and file call with names that are invalid (empty, reserved or control characters, broken UTF-8), too long, in a missing directory, or relative while the current directory is gone: refused, and nothing in the tree changes.  Non-trivial: always.")
{
	Box box; mkdir("tree", 0755); mkdir("tree/sub", 0755); spit("tree/file", "precious"); spit("a", "1"); mkdir("empty", 0755); if (symlink("tree", "link")) {} bool gone = s.chance(25); std::string pre = box.d + "/";
	static const char *bad[] = { "", "tr*e", "tree?", "tree/\"sub", "<tree", "tree|", "tree/\x01", "tree/sub\x7F", "tree\xFF", "tree/\xC3", "\xED\xA0\x80", "nodir/x", "nodir/x/y", "LONG", "FOLD" }, *rel[] = { "tree", "a", "tree/sub", ".", "..", "./tree/../tree", "empty" }; unsigned i = (unsigned)s.draw(14); std::string p = gone ? rel[s.draw(6)] : bad[i]; if (p == "LONG") p = "tree/" + std::string(s.uni(256, 9000), 'l'); bool fold = p == "FOLD"; if (fold) { p.clear(); for (unsigned z = (unsigned)s.uni(4095, 5000); z; z--) p += "./"; p += s.flip() ? "tree" : "empty"; }
	// A missing parent is no obstacle to recursive creation.
	unsigned op = (unsigned)s.draw(14); bool rec = s.flip(); if (!gone && (i == 11 || i == 12) && op == 0) rec = false; if (gone) { mkdir("cwd", 0755); if (chdir("cwd") || __real_rmdir((pre + "cwd").c_str())) throw pbt::Discard(); } std::string before = snap(box.d); int fd0 = openFds(); bool r = false; const char *c = p.c_str(); char b[300]; u64 tm = 1000000; File::FileStat fs; char *data = NULL; size_t n = 0;
	switch (op) { case 0: r = Dir::Mkdir(c, 0755, rec); break; case 1: r = Dir::Rmdir(c, rec); break; case 2: { Dir d; if (s.flip()) { CHECK(s, d.Open((pre + "tree").c_str()), "setup"); if (s.flip()) d.Read(b, sizeof b); } r = d.Open(c); if (!r) CHECK(s, !d.Read(b, sizeof b) && !d.Close(), "usable after Open() failed"); break; } case 3: r = File::Delete(c); break; case 4: r = File::Chmod(c, 0700); break; case 5: r = File::Stat(fs, c, rec); break; case 6: r = File::Exists(c); break; case 7: r = File::SetFileTimes(c, NULL, &tm, &tm); break; case 8: r = File::Copy(c, "new"); break; case 9: r = File::Move(c, "new"); break; case 10: r = File::LoadEntireFile(c, data, n); break; case 11: r = File::Realpath(b, sizeof b, c); break; case 12: r = File::Readlink(b, sizeof b, c); break; case 13: r = File::Copy((pre + "a").c_str(), c); break; default: r = gone ? Dir::Getcwd(b, sizeof b) : File::Move((pre + "a").c_str(), c); break; }
	s.note("call %u on %s%s, recursive %d: %d", op, quote(p, 40).c_str(), gone ? " without a current directory" : "", rec, r); bool up = p[0] == '.' && (op == 4 || op == 5 || op == 6 || op == 7 || op == 11);      // The system still knows "." itself.
	if (!up) CHECK(s, !r, "succeeded"); if (r && up) { if (chdir(box.d.c_str())) {} return; } CHECK(s, data == NULL && n == 0, "a failure left a result"); std::string after = snap(box.d); if (chdir(box.d.c_str())) {}
	CHECK(s, before == after, "something changed: was\n%snow\n%s", before.c_str(), after.c_str()); CHECK(s, escaped.empty(), "outside the scratch directory: %s", escaped.c_str()); CHECK(s, openFds() == fd0, "descriptor leaked"); s.nontrivial(op * 64 + i + (gone ? 32 : 0));
}
PROP(F05, wide_and_deep, 1, "trees of up to 1500 entries in one directory, or up to 60 levels deep (made one by one or with one recursive call) with paths of up to 3800 characters, with long and short names, files and links to a kept tree: listed (each entry once), then removed recursively; everything outside is compared with a snapshot.  Non-trivial: more than 100 entries or 10 levels.")
{
	Box box; mkdir("keep", 0755); spit("keep/file", "precious"); mkdir("tree", 0755); bool deep = s.flip(); unsigned n = deep ? 1 + (unsigned)s.draw(59) : s.chance(20) ? 1500 : (unsigned)s.range(0, 400); size_t w = s.chance(40) ? 0 : deep ? s.flip() ? s.uni(1, 50) : s.uni(50, 245) : s.uni(1, 200); if (deep) while (n > 1 && n * (w + 4) > 3800) n--; bool links = s.flip(), made = deep && s.flip(); std::string d = "tree"; std::set<std::string> names; s.note("%u %s, names padded by %zu%s%s", n, deep ? "levels" : "entries", w, links ? ", with links" : "", made ? ", made with one call" : "");
	if (made) { std::string p = d; for (unsigned i = 0; i < n; i++) p += "/" + std::to_string(i) + std::string(w, 'p'); CHECK(s, Dir::Mkdir(p.c_str(), 0755, true), "creating a path of %zu characters failed", p.size()); std::string q = d; struct stat st; for (unsigned i = 0; i < n; i++) { DIR *h = opendir(q.c_str()); CHECK(s, h != NULL, "level %u is missing", i); int k = 0; while (readdir(h)) k++; closedir(h); CHECK(s, k == 3, "level %u has %d entries", i, k - 2); q += "/" + std::to_string(i) + std::string(w, 'p'); } CHECK(s, stat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "the last level is missing"); }
	for (unsigned i = 0; i < n; i++)
	{
		std::string nm = std::to_string(i) + std::string(w, 'p'), p = d + "/" + nm; if (!deep) names.insert(nm);
		if (deep) { mkdir(p.c_str(), 0755); spit(p + "f", "x"); if (links && i % 3 == 0 && symlink((box.d + "/keep").c_str(), (p + "l").c_str())) {} d = p; } else if (links && i % 7 == 3) { if (symlink("../keep", p.c_str())) {} } else if (i % 5 == 4) mkdir(p.c_str(), 0755); else spit(p, "x");
	}
	std::string before = snap(box.d, box.d + "/tree");
	if (!deep) { Dir l; CHECK(s, l.Open("tree"), "listing failed to open"); char nm[300]; std::set<std::string> got; while (l.Read(nm, sizeof nm)) { if (!strcmp(nm, ".") || !strcmp(nm, "..")) continue; CHECK(s, got.insert(nm).second, "%s listed twice", nm); } CHECK(s, got == names, "listed %zu entries, expected %zu", got.size(), names.size()); }
	int fd0 = openFds(); bool r = Dir::Rmdir("tree", true); struct stat st; CHECK(s, r, "removal failed"); CHECK(s, lstat("tree", &st) != 0, "succeeded but the directory is still there"); CHECK(s, snap(box.d) == before, "something outside the tree changed"); CHECK(s, escaped.empty(), "outside the scratch directory: %s", escaped.c_str()); CHECK(s, openFds() == fd0, "descriptor leaked");
	if (n > (deep ? 10u : 100u)) s.nontrivial();
}
PROP(F05, make_dirs, 3, "random existing trees and random paths: recursive and plain creation compared with a reference creation, modes under a random umask, everything else unchanged; then the directory is listed and compared.  Non-trivial: two or more components created, or a failure.")
{
	Box box; Tree t = Tree(); t.fixed = true; mkdir("keep", 0755); spit("keep/file", "x"); mkdir("base", 0755); grow(s, "base", 2, t, false); mode_t um = s.flip() ? 022 : (mode_t)s.draw(0777) & 0077; int mode = s.chance(75) ? 0700 | (int)s.draw(0777) : (int)s.draw(01777); bool rec = s.flip();
	std::string path = s.chance(80) ? "base" : s.chance(50) ? "new" : box.d + "/base"; for (unsigned k = (unsigned)s.uni(0, 4); k; k--) path += "/" + genName(s, false); if (s.chance(15)) path += "/"; if (s.chance(5)) path = "base/../" + path;
	if (path[0] == '/' && path.compare(0, box.d.size(), box.d)) path = box.d + path;
	s.note("Mkdir(%s, %o, recursive %d) umask %o", quote(path).c_str(), mode, rec, um);
	std::string abs = normal(path[0] == '/' ? path : box.d + "/" + path); std::vector<std::string> create; bool want = true; struct stat st;
	{ std::vector<std::string> pre; for (size_t i = box.d.size() + 1; i <= abs.size(); i++) if (i == abs.size() || abs[i] == '/') pre.push_back(abs.substr(0, i)); bool bad = false; for (size_t i = 0; i < pre.size(); i++) { bool last = i + 1 == pre.size(); if (bad) break; if (lstat(pre[i].c_str(), &st) == 0) { if (last) { want = false; } else if (stat(pre[i].c_str(), &st) || !S_ISDIR(st.st_mode)) { want = false; bad = true; } } else if (last || rec) create.push_back(pre[i]); else { want = false; bad = true; create.clear(); } } if (bad) { want = false; } }
	// A directory created without owner write and search permission cannot receive the next component.
	if (create.size() > 1 && ((mode & ~um) & 0300) != 0300) { create.resize(1); want = false; }
	bool viaLink = false; for (size_t i = box.d.size() + 1; i < abs.size(); i++) if (abs[i] == '/') { std::string q = abs.substr(0, i); if (lstat(q.c_str(), &st) == 0 && S_ISLNK(st.st_mode)) viaLink = true; }
	bool tooLong = abs.size() >= 4000; std::string before = snap(box.d); umask(um); int e0 = 0; (void)e0; bool r = Dir::Mkdir(path.c_str(), mode, rec); umask(022); s.note("returned %d", r);
	if (!viaLink && !tooLong)
	{
		CHECK(s, r == want, "returned %d, expected %d", r, want);
		for (auto &c : create) { CHECK(s, lstat(c.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "%s was not created", quote(c).c_str()); CHECK(s, (st.st_mode & 01777) == ((mode_t)mode & ~um), "%s has mode %o", quote(c).c_str(), st.st_mode & 01777); }
		for (auto it = create.rbegin(); it != create.rend(); ++it) CHECK(s, __real_rmdir(it->c_str()) == 0, "%s is not empty", quote(*it).c_str());
		std::string after = snap(box.d); CHECK(s, after == before, "something else changed: was\n%snow\n%s", before.c_str(), after.c_str());
	}
	CHECK(s, escaped.empty(), "outside the scratch directory: %s", escaped.c_str());
	std::set<std::string> a, b; DIR *h = opendir("base"); struct dirent *e; while ((e = readdir(h))) a.insert(e->d_name); closedir(h);
	Dir d; CHECK(s, !d.Open("nonexistent") && !d.Open("keep/file"), "opened something that is not a directory"); CHECK(s, d.Open(s.flip() ? "base" : "base/"), "listing failed to open"); char nm[300]; while (d.Read(nm, sizeof nm)) { CHECK(s, b.insert(nm).second, "%s listed twice", quote(nm).c_str()); CHECK(s, b.size() < 1000, "endless listing"); } CHECK(s, !d.Read(nm, sizeof nm), "an entry after the end");
	CHECK(s, a == b, "listed %zu entries, expected %zu", b.size(), a.size());
	CHECK(s, d.Open("base"), "reopen"); std::set<std::string> c; size_t sz = s.uni(1, 4); for (;;) { std::unique_ptr<char[]> q(new char[sz]); if (!d.Read(q.get(), sz)) break; CHECK(s, strnlen(q.get(), sz) < sz && a.count(q.get()), "short buffer entry is wrong"); CHECK(s, c.insert(q.get()).second, "listed twice"); } d.Close(); CHECK(s, !d.Close() && !d.Read(nm, sizeof nm), "a closed listing is usable"); CHECK(s, d.Open("base") && d.Close(), "Close() of an open listing failed");
	if (create.size() >= 2 || !r) s.nontrivial();
}
PROP(F05, file_attributes, 3, "random sequences of delete, link, read link, real path, existence, stat, mode, owner, group and timestamp calls on files, links, directories and missing names, with exactly allocated result buffers around the needed size; each compared with the system's own view and every other file unchanged.  Non-trivial: three or more calls that succeed.")
{
	Box box; spit("f", "1"); spit("g \xC3\xA9", "2"); mkdir("dir", 0755); if (symlink("f", "lf") || symlink("nowhere", "ld") || symlink("dir", "ldir")) {} static const char *nm[] = { "f", "g \xC3\xA9", "dir", "lf", "ld", "ldir", "missing", "dir/../f", "bad*name" };
	unsigned good = 0; for (unsigned k = (unsigned)s.uni(1, 10); k; k--)
	{
		const char *p = nm[s.draw(8)]; bool bad = strchr(p, '*'); struct stat st, ls; bool ex = !bad && stat(p, &st) == 0, lx = !bad && lstat(p, &ls) == 0; unsigned op = s.weighted({ 2, 2, 3, 3, 2, 3, 3, 3, 2 });
		switch (op)
		{
			case 0: { std::string b = snap(box.d); bool r = File::Delete(p); s.note("Delete(%s) %d", p, r); bool want = lx && !S_ISDIR(ls.st_mode); CHECK(s, r == want, "Delete(%s) returned %d", p, r); struct stat t; CHECK(s, (lstat(p, &t) == 0) == (lx && !want), "Delete(%s) left the wrong state", p); if (!want) CHECK(s, snap(box.d) == b, "a failed Delete() changed something"); good += r; break; }
			case 1: { std::string to = s.flip() ? "zz" + s.bytes(s.uni(0, 60), "ab./") : nm[s.draw(5)]; std::string at = s.flip() ? "newlink" : p; if (strchr(at.c_str(), '*')) at = "l2"; struct stat t; bool was = lstat(at.c_str(), &t) == 0; bool r = File::Symlink(at.c_str(), to.c_str()); s.note("Symlink(%s -> %s) %d", at.c_str(), to.c_str(), r); CHECK(s, r == !was, "Symlink(%s) returned %d", at.c_str(), r); if (r) { char b[200]; ssize_t n = readlink(at.c_str(), b, 200); CHECK(s, n == (ssize_t)to.size() && !memcmp(b, to.data(), n), "Symlink() target is wrong"); good++; } break; }
			case 2: { char b[300]; ssize_t n = bad ? -1 : readlink(p, b, 300); size_t sz = n >= 0 && s.chance(80) ? (size_t)n + s.uni(0, 2) : s.range(1, 200); std::unique_ptr<char[]> q(new char[sz]); memset(q.get(), 'Z', sz); bool r = File::Readlink(q.get(), sz, p); s.note("Readlink(%s, %zu) %d", p, sz, r); CHECK(s, r == (n >= 0 && (size_t)n < sz), "Readlink(%s) returned %d for %zd characters in %zu", p, r, n, sz); if (r) { CHECK(s, strnlen(q.get(), sz) == (size_t)n && !memcmp(q.get(), b, n), "Readlink() gave %s", quote(std::string(q.get(), sz)).c_str()); good++; } break; }
			case 3: { char *rp = bad ? NULL : realpath(p, NULL); size_t n = rp ? strlen(rp) : 0, sz = rp && s.chance(80) ? n + s.uni(0, 2) : s.range(0, 300); std::unique_ptr<char[]> q(new char[sz]); bool r = File::Realpath(q.get(), sz, p); s.note("Realpath(%s, %zu) %d", p, sz, r); CHECK(s, r == (rp && n < sz), "Realpath(%s) returned %d", p, r); if (r) { CHECK(s, !strcmp(q.get(), rp), "Realpath() gave %s", q.get()); good++; } free(rp); break; }
			case 4: { bool r = File::Exists(p); s.note("Exists(%s) %d", p, r); CHECK(s, r == ex, "Exists(%s) returned %d", p, r); File::FileStat fs; bool l = s.flip(), r2 = File::Stat(fs, p, l); CHECK(s, r2 == (l ? lx : ex), "Stat(%s) returned %d", p, r2); if (r2) { struct stat &w = l ? ls : st; CHECK(s, fs.st_ino == w.st_ino && fs.st_mode == w.st_mode && fs.st_size == w.st_size, "Stat(%s) differs", p); good++; } break; }
			case 5: { int m = (int)s.draw(0777) | 0400; if (bad || !ex || S_ISDIR(st.st_mode)) m = 0700; else if (s.chance(30)) { int m2 = m | (int)s.uni(1, 7) << 9; struct stat t2; if (chmod(p, (mode_t)m2) == 0 && stat(p, &t2) == 0 && (t2.st_mode & 07777) == (mode_t)m2) m = m2; chmod(p, st.st_mode & 07777); } bool r = File::Chmod(p, m); s.note("Chmod(%s, %o) %d", p, m, r); CHECK(s, r == ex, "Chmod(%s) returned %d", p, r); if (r) { stat(p, &st); CHECK(s, (st.st_mode & 07777) == (mode_t)m, "Chmod(%o) gave %o", m, st.st_mode & 07777); good++; } break; }
			case 6:
			{
				fakeChown = true; owners.clear(); static std::vector<std::string> us, gs; if (us.empty()) { setpwent(); while (struct passwd *u = getpwent()) us.push_back(u->pw_name); endpwent(); setgrent(); while (struct group *g = getgrent()) gs.push_back(g->gr_name); endgrent(); us.push_back("no_such_user_x"); gs.push_back("no_such_group_x"); }
				bool grp = s.flip(); std::string w = grp ? gs[s.draw(gs.size() - 1)] : us[s.draw(us.size() - 1)]; bool r = grp ? File::Chgrp(p, w.c_str()) : File::Chown(p, w.c_str()); fakeChown = false; s.note("%s(%s, %s) %d", grp ? "Chgrp" : "Chown", p, w.c_str(), r); struct passwd *u = grp ? NULL : getpwnam(w.c_str()); struct group *g = grp ? getgrnam(w.c_str()) : NULL; bool known = grp ? g != NULL : u != NULL;
				if (bad || !known) { CHECK(s, !r && owners.empty(), "accepted an unknown owner or bad name"); break; } CHECK(s, r, "%s(%s) failed", grp ? "Chgrp" : "Chown", w.c_str());
				if (owners.size()) { Owner &o = owners.back(); CHECK(s, owners.size() == 1 && o.path == p && o.u == (grp ? (uid_t)-1 : u->pw_uid) && o.g == (grp ? g->gr_gid : (gid_t)-1), "changed %s to user %d group %d for %s %s", o.path.c_str(), (int)o.u, (int)o.g, grp ? "group" : "user", w.c_str()); } good++; break;
			}
			case 7:
			{
				bool a = s.chance(70), m = s.chance(70); u64 ta = s.range(0, 4000000000ULL) * 1000000 + s.range(0, 999999), tm = s.range(0, 4000000000ULL) * 1000000 + s.range(0, 999999), cr = 5; bool r = File::SetFileTimes(p, s.flip() ? &cr : NULL, a ? &ta : NULL, m ? &tm : NULL); s.note("SetFileTimes(%s, %s %llu, %s %llu) %d", p, a ? "access" : "-", (unsigned long long)ta, m ? "update" : "-", (unsigned long long)tm, r); CHECK(s, r == ex, "SetFileTimes(%s) returned %d", p, r);
				if (r) { struct stat n; stat(p, &n); u64 wa = a ? ta : (u64)st.st_atim.tv_sec * 1000000 + st.st_atim.tv_nsec / 1000, wm = m ? tm : (u64)st.st_mtim.tv_sec * 1000000 + st.st_mtim.tv_nsec / 1000, ga = (u64)n.st_atim.tv_sec * 1000000 + n.st_atim.tv_nsec / 1000, gm = (u64)n.st_mtim.tv_sec * 1000000 + n.st_mtim.tv_nsec / 1000; CHECK(s, ga == wa && gm == wm, "times are %llu %llu, expected %llu %llu", (unsigned long long)ga, (unsigned long long)gm, (unsigned long long)wa, (unsigned long long)wm); good++; } break;
			}
			default: { char b[PATH_MAX]; size_t n = strlen(getcwd(b, sizeof b)), sz = n + s.uni(0, 2); std::unique_ptr<char[]> q(new char[sz]); bool r = Dir::Getcwd(q.get(), sz); s.note("Getcwd(%zu) %d", sz, r); CHECK(s, r == (sz > n), "Getcwd(%zu) returned %d for %zu characters", sz, r, n); if (r) CHECK(s, !strcmp(q.get(), b), "Getcwd() gave %s", q.get()); }
		}
	}
	CHECK(s, escaped.empty(), "outside the scratch directory: %s", escaped.c_str());
	if (good >= 3) s.nontrivial();
}
