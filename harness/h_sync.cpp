// Y01-Y05: mutexes, semaphores, events, reader-writer locks and named shared memory on the simulated scheduler (sim.h).
// Every call is recorded; the history has to be explained by the sequential model of the object (linearizability), where
// points at which nothing can run are part of the history: there, every blocked call must be blocked for a reason.
#include "sim.h"
#include <set>
#include <array>
#include <algorithm>
#include <climits>
#include <memory>
#include <cerrno>
#include "sync/sync_util.h"
#include "sync/sync_mutex.h"
#include "sync/sync_semaphore.h"
#include "sync/sync_event.h"
#include "sync/sync_readwritelock.h"
#include "sync/sync_sharedmem.h"
using namespace CubicleSoft;
using pbt::Src; using pbt::u64; using pbt::quote; typedef std::uint32_t u32;

namespace
{
	enum Kind { MUT, SEM, EVT, RWL, SHM };
	const char *kname[] = { "Mutex", "Semaphore", "Event", "ReadWriteLock", "SharedMem" };
	enum OpK { CREATE, DESTROY, LOCK, UNLOCK, UNLOCKALL, WAIT, FIRE, RESET, RLOCK, RUNLOCK, WLOCK, WUNLOCK, READ, WRITE, FILL, QUIET };
	const char *oname[] = { "Create", "destroy", "Lock", "Unlock", "Unlock(all)", "Wait", "Fire", "Reset", "ReadLock", "ReadUnlock", "WriteLock", "WriteUnlock", "read", "write", "fill", "-- nothing can run --" };
	struct Op { int obj, th, h; OpK k; u32 wait; int arg, arg2; int res, res2; long inv, ret; int after; bool contended; bool sawWriter; u64 t0; std::vector<int> blocked; };
	struct Obj { Kind kind; bool named; std::string name; int p1, p2; size_t size; std::vector<size_t> cells; };
	struct Handle { int obj, proc, owner; bool made; Sync::Mutex *m; Sync::Semaphore *sem; Sync::Event *e; Sync::ReadWriteLock *rw; Sync::SharedMem *sh; };
	const int NC = 3, UNKNOWN = -55;
	typedef std::array<short, 4 + NC> St;      // [ref, a, b, c, cells...]

	struct World
	{
		Src &s; sim::Case &c; std::vector<Obj> objs; std::vector<Handle> hs; std::vector<Op> ops; long clock; std::vector<int> open;   // Open op per thread id.
		struct Rw { int readers, writer; long pendingSince; u64 pendingUntil; }; std::map<int, Rw> rws; unsigned blockedSeen, timeouts, contention;
		World(Src &src, sim::Case &cs) : s(src), c(cs), clock(0), open(16, -1), blockedSeen(0), timeouts(0), contention(0)
		{
			c.quiescent = [this](bool fin) { quiet(fin); };
		}
		~World() { for (size_t i = 0; i < hs.size(); i++) if (hs[i].m || hs[i].sem || hs[i].e || hs[i].rw || hs[i].sh) {} }
		Rw &rwOf(int ob) { if (!rws.count(ob)) { Rw r = { 0, 0, -1, 0 }; rws[ob] = r; } return rws[ob]; }
		static std::string wtext(u32 w) { return w == INFINITE ? "INFINITE" : std::to_string(w); }
		std::string show(const Op &o)
		{
			std::string r = "thread " + std::to_string(o.th) + " ";
			if (o.k == QUIET) { r = "-- nothing can run; blocked:"; for (int i : o.blocked) r += " thread " + std::to_string(ops[i].th) + " in " + oname[ops[i].k] + ";"; return r; }
			r += oname[o.k]; 
			if (o.k == LOCK || o.k == WAIT || o.k == RLOCK || o.k == WLOCK) r += "(" + wtext(o.wait) + ")";
			r += " handle " + std::to_string(o.h); return r;
		}
		int begin(int th, int h, OpK k, u32 wait = 0, int arg = 0, int arg2 = 0)
		{
			Op o; o.obj = hs[h].obj; o.th = th; o.h = h; o.k = k; o.wait = wait; o.arg = arg; o.arg2 = arg2; o.res = -1; o.res2 = 0; o.inv = ++clock; o.ret = LONG_MAX; o.after = -1; o.contended = false; o.sawWriter = false; o.t0 = sim::nowNs();
			for (size_t t = 0; t < open.size(); t++) if ((int)t != th && open[t] >= 0 && ops[open[t]].obj == o.obj)
			{
				bool blocked = false; for (sim::Fiber *f : sim::fibers) if (f->id == (int)t && f->st == sim::COND) blocked = true;
				if (!blocked) o.contended = true;
				if (ops[open[t]].k == WLOCK) o.sawWriter = true;
				ops[open[t]].contended = true; if (k == WLOCK) ops[open[t]].sawWriter = true;
			}
			ops.push_back(o); open[th] = (int)ops.size() - 1;
			s.note("  %7.1f ms  %s ...", (double)o.t0 / 1e6, show(o).c_str());
			sim::point(); return open[th];
		}
		void end(int i, int res, int res2 = 0)
		{
			Op &o = ops[i]; o.res = res; o.res2 = res2; o.ret = ++clock; open[o.th] = -1;
			s.note("  %7.1f ms  %s -> %s%s", (double)sim::nowNs() / 1e6, show(o).c_str(), o.k == READ || o.k == CREATE ? std::to_string(res).c_str() : res ? "true" : "false", o.k == UNLOCK && objs[o.obj].kind == SEM ? (" (previous count " + std::to_string(res2) + ")").c_str() : "");
			if (o.k == LOCK || o.k == WAIT || o.k == RLOCK || o.k == WLOCK)
			{
				double el = (double)(sim::nowNs() - o.t0) / 1e6;
				if (!res)
				{
					timeouts++;
					if (o.wait == INFINITE) sim::bad("%s: %s(INFINITE) failed", kname[objs[o.obj].kind], oname[o.k]);
					if (el + 5 < o.wait) sim::bad("%s: %s(%u) gave up after %.1f ms already", kname[objs[o.obj].kind], oname[o.k], o.wait, el);
				}
				if (!c.slow && o.wait != INFINITE && el > o.wait + 5.0) sim::bad("%s: %s(%u) returned %s only after %.1f ms although nothing else delayed it", kname[objs[o.obj].kind], oname[o.k], o.wait, res ? "true" : "false", el);
			}
			sim::point();
		}
		void quiet(bool fin)
		{
			std::map<int, std::vector<int> > by;
			for (size_t t = 0; t < open.size(); t++) if (open[t] >= 0)
			{
				Op &o = ops[open[t]]; int st = -1; for (sim::Fiber *f : sim::fibers) if (f->id == (int)t) st = f->st;
				bool waiter = o.k == LOCK || o.k == WAIT || o.k == RLOCK || o.k == WLOCK;
				if (!waiter && st != sim::SLEEP) { sim_fail("%s: a thread is stuck in %s() forever", kname[objs[o.obj].kind], oname[o.k]); return; }
				if (waiter && o.wait == 0) { sim_fail("%s: %s(0) waits", kname[objs[o.obj].kind], oname[o.k]); return; }
				if (!waiter) return;        // Still creating (polling): the state is in between.
				by[o.obj].push_back(open[t]);
			}
			for (auto &x : by)
			{
				Op q; q.obj = x.first; q.th = -1; q.h = -1; q.k = QUIET; q.wait = 0; q.arg = q.arg2 = 0; q.res = 1; q.res2 = 0; q.inv = ++clock; q.ret = ++clock; q.after = -1; q.contended = q.sawWriter = false; q.t0 = sim::nowNs(); q.blocked = x.second;
				for (int i : x.second) if (ops[i].k == LOCK || ops[i].k == WAIT) {}
				blockedSeen++; ops.push_back(q); s.note("  %7.1f ms  %s", (double)sim::nowNs() / 1e6, show(q).c_str());
				Rw &g = rwOf(x.first); if (objs[x.first].kind == RWL && !g.writer)
				{
					// A writer waits for readers: readers that come now have to queue behind it.
					u64 until = ~0ULL; bool any = false; for (int i : x.second) if (ops[i].k == WLOCK) { any = true; u64 d = ops[i].wait == INFINITE ? ~0ULL : ops[i].t0 + (u64)ops[i].wait * 1000000; until = std::min(until, d); }
					if (any) { g.pendingSince = clock; g.pendingUntil = until; }
				}
			}
			(void)fin;
		}
		void sim_fail(const char *fmt, const char *a, const char *b) { char t[300]; snprintf(t, sizeof t, fmt, a, b); try { sim::bad("%s", t); } catch (pbt::Failure &) {} }

		// The calls.
		bool create(int th, int h, int over1 = -1, int target = -1)
		{
			Handle &x = hs[h]; int was = x.obj; if (target >= 0) x.obj = target;
			Obj &o = objs[x.obj]; const char *nm = o.named ? o.name.c_str() : NULL; int d = -1;
			int p1 = over1 >= 0 ? over1 : o.p1;
			int i = begin(th, h, CREATE, 0, p1, o.p2); bool re = x.made;
			if (re) { Op z = ops[i]; z.k = DESTROY; z.obj = was; z.res = 1; ops.push_back(z); d = (int)ops.size() - 1; ops[i].after = d; }
			bool r = false; int first = 0;
			switch (o.kind)
			{
				case MUT: if (!x.m) x.m = new Sync::Mutex(); r = x.m->Create(nm); break;
				case SEM: if (!x.sem) x.sem = new Sync::Semaphore(); r = x.sem->Create(nm, p1); break;
				case EVT: if (!x.e) x.e = new Sync::Event(); r = x.e->Create(nm, p1 != 0, o.p2 != 0); break;
				case RWL: if (!x.rw) x.rw = new Sync::ReadWriteLock(); r = x.rw->Create(nm); break;
				case SHM: if (!x.sh) x.sh = new Sync::SharedMem(); r = x.sh->Create(nm, o.size); first = r ? x.sh->First() : 0; break;
			}
			x.made = r; if (d >= 0) ops[d].ret = clock + 1;
			end(i, r, first);
			if (r && o.kind == SHM)
			{
				if (x.sh->GetSize() != o.size) sim::bad("SharedMem: GetSize() is %zu for %zu bytes", x.sh->GetSize(), o.size);
				if (!x.sh->RawData() || sim::roomAt(x.sh->RawData()) < o.size) sim::bad("SharedMem: the mapping has only room for %zu of %zu bytes", x.sh->RawData() ? sim::roomAt(x.sh->RawData()) : 0, o.size);
			}
			return r;
		}
		void destroy(int th, int h)
		{
			Handle &x = hs[h]; Obj &o = objs[x.obj]; bool made = x.made; int i = -1;
			if (made) i = begin(th, h, DESTROY);
			x.made = false;
			switch (o.kind) { case MUT: delete x.m; x.m = NULL; break; case SEM: delete x.sem; x.sem = NULL; break; case EVT: delete x.e; x.e = NULL; break; case RWL: delete x.rw; x.rw = NULL; break; case SHM: delete x.sh; x.sh = NULL; break; }
			if (made) end(i, 1);
		}
		bool lock(int th, int h, u32 w) { int i = begin(th, h, LOCK, w); bool r = objs[hs[h].obj].kind == MUT ? hs[h].m->Lock(w) : hs[h].sem->Lock(w); end(i, r); return r; }
		bool unlockM(int th, int h, bool all) { int i = begin(th, h, all ? UNLOCKALL : UNLOCK); bool r = hs[h].m->Unlock(all); end(i, r); return r; }
		bool unlockS(int th, int h) { int i = begin(th, h, UNLOCK); int prev = -77; bool r = hs[h].sem->Unlock(&prev); end(i, r, prev); return r; }
		void autoUnlockS(int th, int h) { Sync::Semaphore::AutoUnlock *a = new Sync::Semaphore::AutoUnlock(hs[h].sem); int i = begin(th, h, UNLOCK); delete a; end(i, 1, UNKNOWN); }
		void autoUnlockM(int th, int h) { Sync::Mutex::AutoUnlock *a = new Sync::Mutex::AutoUnlock(hs[h].m); int i = begin(th, h, UNLOCK); delete a; end(i, 1); }
		std::vector<int> waitersOf(int ob, int th) { std::vector<int> r; for (sim::Fiber *f : sim::fibers) if (f->inCond && f->id != th && f->id < (int)open.size() && open[f->id] >= 0 && ops[open[f->id]].obj == ob && ops[open[f->id]].k == WAIT) r.push_back(open[f->id]); return r; }
		bool wait(int th, int h, u32 w)
		{
			int ob = hs[h].obj; int i = begin(th, h, WAIT, w); std::vector<int> before; if (w == 0 && !objs[ob].p1) before = waitersOf(ob, th);
			bool r = hs[h].e->Wait(w);
			// Those waiting before this call and still waiting now (not even trying to return) have been overtaken.
			if (r && !before.empty()) { std::vector<int> now = waitersOf(ob, th); for (int a : before) for (int b : now) if (a == b) sim::bad("Event: Wait(0) took the signal of an automatic event although thread %d was already waiting for it", ops[a].th); }
			end(i, r); return r;
		}
		bool fire(int th, int h) { int i = begin(th, h, FIRE); bool r = hs[h].e->Fire(); end(i, r); return r; }
		bool reset(int th, int h) { int i = begin(th, h, RESET); bool r = hs[h].e->Reset(); end(i, r); return r; }
		bool rlock(int th, int h, u32 w) { Rw &g = rwOf(hs[h].obj);
			int i = begin(th, h, RLOCK, w); bool r = hs[h].rw->ReadLock(w);
			if (r && g.pendingSince >= 0 && ops[i].inv > g.pendingSince && sim::nowNs() + 2000000 < g.pendingUntil) { for (int t : open) if (t >= 0 && ops[t].k == WLOCK && ops[t].inv < g.pendingSince) sim::bad("ReadWriteLock: a new reader got in although a writer was already waiting"); }
			if (r) { g.readers++; if (g.writer) sim::bad("ReadWriteLock: a reader got in while a writer holds the lock"); }
			end(i, r); return r;
		}
		bool wlock(int th, int h, u32 w) { Rw &g = rwOf(hs[h].obj);
			int i = begin(th, h, WLOCK, w); bool r = hs[h].rw->WriteLock(w);
			if (r) { if (g.writer) sim::bad("ReadWriteLock: two writers hold the lock"); if (g.readers) sim::bad("ReadWriteLock: a writer got in while %d readers hold the lock", g.readers); g.writer++; g.pendingSince = -1; }
			end(i, r); return r;
		}
		bool runlock(int th, int h, bool holds) { Rw &g = rwOf(hs[h].obj); if (holds) g.readers--; int i = begin(th, h, RUNLOCK); bool r = hs[h].rw->ReadUnlock(); end(i, r); return r; }
		bool wunlock(int th, int h) { Rw &g = rwOf(hs[h].obj); g.writer--; int i = begin(th, h, WUNLOCK); bool r = hs[h].rw->WriteUnlock(); end(i, r); return r; }
		void autoRUnlock(int th, int h) { Rw &g = rwOf(hs[h].obj); g.readers--; Sync::ReadWriteLock::AutoReadUnlock *a = new Sync::ReadWriteLock::AutoReadUnlock(hs[h].rw); int i = begin(th, h, RUNLOCK); delete a; end(i, 1); }
		void autoWUnlock(int th, int h) { Rw &g = rwOf(hs[h].obj); g.writer--; Sync::ReadWriteLock::AutoWriteUnlock *a = new Sync::ReadWriteLock::AutoWriteUnlock(hs[h].rw); int i = begin(th, h, WUNLOCK); delete a; end(i, 1); }
		void readCell(int th, int h, int cell) { Obj &o = objs[hs[h].obj]; if (!o.size) return; int i = begin(th, h, READ, 0, cell); int val = (unsigned char)hs[h].sh->RawData()[o.cells[cell]]; end(i, val); }
		void writeCell(int th, int h, int cell, int val) { Obj &o = objs[hs[h].obj]; if (!o.size) return; int i = begin(th, h, WRITE, 0, cell, val); hs[h].sh->RawData()[o.cells[cell]] = (char)val; end(i, 1); }
		void fill(int th, int h, int val) { Obj &o = objs[hs[h].obj]; if (!o.size) return; int i = begin(th, h, FILL, 0, 0, val); memset(hs[h].sh->RawData(), val, o.size); end(i, 1); }

		// The sequential models.
		bool apply(const Op &o, St &st)
		{
			const Obj &ob = objs[o.obj]; int me = o.th * 32 + o.h + 1; short &ref = st[0], &a = st[1], &b = st[2], &cc = st[3];
			if (o.k == CREATE)
			{
				if (!o.res) return true;
				bool init = ref == 0 || !ob.named; ref++;
				if (ob.kind == SHM && (o.res2 != 0) != init) return false;
				if (init)
				{
					a = b = cc = 0; for (int i = 0; i < NC; i++) st[4 + i] = 0;
					if (ob.kind == SEM) { a = (short)o.arg; b = (short)o.arg; }
					if (ob.kind == EVT) { a = o.arg2 != 0; b = o.arg != 0; }
				}
				return true;
			}
			if (o.k == DESTROY) { if (ob.kind == MUT && a == me) a = b = 0; ref--; return true; }
			if (o.k == QUIET)
			{
				bool wpend = false; for (int i : o.blocked) if (ops[i].k == WLOCK) wpend = true;
				for (int i : o.blocked) switch (ops[i].k)
				{
					case LOCK: if (ob.kind == MUT ? a == 0 || a == ops[i].th * 32 + ops[i].h + 1 : a > 0) return false; break;
					case WAIT: if (a) return false; break;
					case RLOCK: if (!b && !wpend) return false; break;
					case WLOCK: if (!a && !b) return false; break;
					default: return false;
				}
				return true;
			}
			switch (ob.kind)
			{
				case MUT:
					if (o.k == LOCK) { if (o.res) { if (a == me) { b++; return true; } if (a) return false; a = (short)me; b = 1; return true; } if (o.wait == 0 && o.contended) return true; return a != 0 && a != me; }
					if (o.res != (a == me)) return false;
					if (o.res) { b = o.k == UNLOCKALL ? 0 : b - 1; if (!b) a = 0; }
					return true;
				case SEM:
					if (o.k == LOCK) { if (o.res) { if (!a) return false; a--; return true; } if (o.wait == 0 && o.contended) return true; return a == 0; }
					if (!o.res || (o.res2 != a && o.res2 != UNKNOWN)) return false;
					if (a < b) a++;
					return true;
				case EVT:
					if (o.k == WAIT) { if (o.res) { if (!a) return false; if (!b) a = 0; return true; } if (o.wait == 0 && o.contended) return true; return a == 0; }
					if (o.k == FIRE) { if (!o.res) return false; a = 1; return true; }
					if ((o.res != 0) != (b != 0)) return false;
					if (b) a = 0;
					return true;
				case RWL:
					switch (o.k)
					{
						case RLOCK: if (o.res) { if (b) return false; a++; return true; } return b || o.sawWriter || (o.contended && (o.wait == 0 || c.slow));
						case WLOCK: if (o.res) { if (a || b) return false; b = 1; return true; } return a || b || (o.contended && (o.wait == 0 || c.slow));
						case RUNLOCK: if ((o.res != 0) != (a > 0)) return false; if (a) a--; return true;
						default: if (!o.res || !b) return false; b = 0; return true;
					}
				default:
					if (o.k == READ) return st[4 + o.arg] == o.res;
					if (o.k == WRITE) { st[4 + o.arg] = (short)o.arg2; for (int i = 0; i < NC; i++) if (ob.cells[i] == ob.cells[o.arg]) st[4 + i] = (short)o.arg2; return true; }
					for (int i = 0; i < NC; i++) st[4 + i] = (short)o.arg2;
					return true;
			}
		}
		bool search(const std::vector<int> &w, u64 done, St st, std::set<std::pair<u64, St> > &seen, size_t &best)
		{
			size_t nd = (size_t)__builtin_popcountll(done); if (nd > best) best = nd;
			if (nd == w.size()) return true;
			if (!seen.insert(std::make_pair(done, st)).second) return false;
			if (seen.size() > 200000) { tooBig = true; return true; }
			long minRet = LONG_MAX; for (size_t i = 0; i < w.size(); i++) if (!(done >> i & 1)) minRet = std::min(minRet, ops[w[i]].ret);
			for (size_t i = 0; i < w.size(); i++) if (!(done >> i & 1))
			{
				const Op &o = ops[w[i]]; if (o.inv > minRet) continue;
				if (o.after >= 0) { bool ok = true; for (size_t j = 0; j < w.size(); j++) if (w[j] == o.after && !(done >> j & 1)) ok = false; if (!ok) continue; }
				St n = st; if (!apply(o, n)) continue;
				if (search(w, done | 1ULL << i, n, seen, best)) return true;
			}
			return false;
		}
		bool tooBig;
		void judge()
		{
			tooBig = false;
			for (size_t ob = 0; ob < objs.size(); ob++)
			{
				std::vector<int> w; for (size_t i = 0; i < ops.size(); i++) if (ops[i].obj == (int)ob && ops[i].ret != LONG_MAX) w.push_back((int)i);
				if (w.size() > 62) continue;
				St st; st.fill(0); std::set<std::pair<u64, St> > seen; size_t best = 0;
				if (!search(w, 0, st, seen, best))
				{
					std::string t; for (int i : w) { t += "\n  "; t += show(ops[i]); if (ops[i].k != QUIET) { t += " -> " + std::to_string(ops[i].res); if (ops[i].res2) t += "/" + std::to_string(ops[i].res2); } }
					s.fail("%s: no order of the calls explains their results (up to %zu of %zu explained):%s", kname[objs[ob].kind], best, w.size(), t.c_str());
				}
			}
		}
		int addObj(Kind k, bool named, const std::string &name, int p1 = 0, int p2 = 0, size_t size = 0)
		{
			Obj o; o.kind = k; o.named = named; o.name = name; o.p1 = p1; o.p2 = p2; o.size = size;
			if (k == SHM) { o.cells.push_back(0); o.cells.push_back(size ? size - 1 : 0); o.cells.push_back(size / 2); }
			objs.push_back(o); return (int)objs.size() - 1;
		}
		int addHandle(int obj, int proc, int owner) { Handle h = { obj, proc, owner, false, NULL, NULL, NULL, NULL, NULL }; hs.push_back(h); return (int)hs.size() - 1; }
	};

	u32 genWait(Src &s) { switch (s.weighted({ 4, 5, 4, 1 })) { case 0: return INFINITE; case 1: return 0; case 2: { static const u32 w[] = { 10, 20, 50, 100, 999, 1000, 2500 }; return w[s.draw(6)]; } default: { static const u32 w[] = { 1, 5, 60000, 86400000, 4294967294U }; return w[s.draw(4)]; } } }
	struct Step { int k; u32 w; int a; };

	void threadBody(World &w, int th, int h, std::vector<Step> script, bool own, bool many)
	{
		Obj &o = w.objs[w.hs[h].obj]; Handle &x = w.hs[h]; int depth = 0, held = 0, rd = 0, wr = 0;
		if (own) { if (!w.create(th, h)) sim::bad("%s: Create() failed", kname[o.kind]); }
		for (const Step &p : script)
		{
			if (p.k == 9) { sim::sleepMs(p.a); continue; }
			if (own && p.k == 8)
			{
				if (rd || wr || (o.kind == SEM && held)) continue;
				if (p.a & 1) { w.destroy(th, h); sim::point(); if (!w.create(th, h)) sim::bad("%s: Create() failed", kname[o.kind]); }
				else if (!w.create(th, h)) sim::bad("%s: Create() failed", kname[o.kind]);
				depth = 0; continue;
			}
			switch (o.kind)
			{
				case MUT:
					if (p.k < 4) { u32 t = p.w; if (w.lock(th, h, t)) depth++; }
					else if (p.k < 6) { bool r = w.unlockM(th, h, false); if (r) depth--; }
					else if (p.k == 6) { if (depth && (p.a & 1)) { w.autoUnlockM(th, h); depth--; } else if (w.unlockM(th, h, true)) depth = 0; }
					else sim::sleepMs(p.a);
					break;
				case SEM:
					if (p.k < 4) { if (w.lock(th, h, p.w)) held++; }
					else if (p.k < 6) { if (held) { if (p.a % 3 == 1) w.autoUnlockS(th, h); else w.unlockS(th, h); held--; } }
					else if (p.k == 6) { w.unlockS(th, h); if (held) held--; }
					else sim::sleepMs(p.a);
					break;
				case EVT:
					if (p.k < 4) w.wait(th, h, p.w);
					else if (p.k < 6) w.fire(th, h);
					else if (p.k == 6) w.reset(th, h);
					else sim::sleepMs(p.a);
					break;
				case RWL:
					if (p.k < 2) { if (!wr || p.w != INFINITE) if (w.rlock(th, h, p.w)) rd++; }
					else if (p.k < 4) { if ((!wr && !rd) || p.w != INFINITE) if (w.wlock(th, h, p.w)) wr++; }
					else if (p.k < 7) { if (wr) { if (p.a & 1) w.autoWUnlock(th, h); else w.wunlock(th, h); wr--; } else if (rd) { if (p.a & 1) w.autoRUnlock(th, h); else w.runlock(th, h, true); rd--; } else if (!many) w.runlock(th, h, false); }
					else sim::sleepMs(p.a);
					break;
				default:
					if (p.k < 3) w.readCell(th, h, p.a % NC);
					else if (p.k < 5) w.writeCell(th, h, p.a % NC, 1 + p.a % 250);
					else if (p.k < 7) w.fill(th, h, 1 + p.a % 250);
					else sim::sleepMs(p.a);
					break;
			}
		}
		while (depth > 0) { w.unlockM(th, h, depth > 1 && (depth & 1)); depth = depth > 1 && (depth & 1) ? 0 : depth - 1; }
		while (held > 0) { w.unlockS(th, h); held--; }
		if (wr) w.wunlock(th, h);
		while (rd > 0) { w.runlock(th, h, true); rd--; }
		if (own && (th & 1)) w.destroy(th, h);
		(void)x;
	}
	std::vector<Step> genScript(Src &s, size_t maxLen, bool own)
	{
		std::vector<Step> r; size_t n = 1 + s.len(maxLen - 1);
		for (size_t i = 0; i < n; i++) { Step p; p.k = (int)s.weighted({ 3, 3, 3, 3, 3, 3, 2, 1, own ? 2u : 0u, 2 }); p.w = p.k < 4 ? genWait(s) : 0; static const int sl[] = { 1, 7, 15, 30, 60, 120, 500 }; p.a = p.k == 9 || p.k == 7 ? sl[s.draw(6)] : (int)s.draw(7); r.push_back(p); }
		return r;
	}
	void probe(World &w, int th, int obj)
	{
		int h = w.addHandle(obj, 7, th); Obj &o = w.objs[obj]; int p1 = o.p1;
		if (o.kind == SEM) p1 = (o.p1 + 1) % 4;
		if (o.kind == EVT) p1 = !o.p1;
		if (!w.create(th, h, p1)) sim::bad("%s: Create() failed", kname[o.kind]);
		switch (o.kind)
		{
			case MUT: w.lock(th, h, 0); w.lock(th, h, 0); w.unlockM(th, h, true); break;
			case SEM: { int n = 0; while (n < 6 && w.lock(th, h, 0)) n++; while (n-- > 0) w.unlockS(th, h); break; }
			case EVT: w.wait(th, h, 0); w.fire(th, h); w.wait(th, h, 0); w.wait(th, h, 0); w.reset(th, h); break;
			case RWL: { int n = w.rlock(th, h, 0); n += w.rlock(th, h, 0); if (w.wlock(th, h, 0)) w.wunlock(th, h); while (n-- > 0) w.runlock(th, h, true); if (w.wlock(th, h, 0)) w.wunlock(th, h); w.runlock(th, h, false); break; }
			default: for (int i = 0; i < NC; i++) w.readCell(th, h, i); w.fill(th, h, 0x5a); break;
		}
		w.destroy(th, h);
	}
	std::string genName(Src &s) { static const char *al = "abcXYZ019_-. "; switch (s.weighted({ 5, 2, 1, 1, 1 })) { case 3: return s.bytes(1 + s.draw(30), "ab/\\/\\:*?\"<>|%") + "a"; case 4: { std::string r = s.bytes(1 + s.draw(60)); for (char &c : r) if (!c) c = 1; return r; } case 0: return s.bytes(1 + s.draw(5), al); case 1: return s.bytes(1 + s.draw(60), al); default: return s.bytes(150 + s.draw(72), al); } }

	void objectCase(Src &s, Kind kind)
	{
		sim::warm(); long new0 = pbt::liveNew; bool dead = false; unsigned nontriv = 0;
		{
			sim::Case c(s); World w(s, c);
			bool named = s.chance(60); unsigned nt = 1 + (unsigned)s.weighted({ 1, 4, 4, 2 });
			int p1 = 0, p2 = 0; size_t size = 0;
			if (kind == SEM) { p1 = (int)s.weighted({ 1, 6, 4, 2 }); }
			if (kind == EVT) { p1 = s.flip(); p2 = s.chance(30); }
			if (kind == SHM) { named = true; size = s.chance(4) ? 0 : s.chance(50) ? 1 + s.draw(40) : s.chance(50) ? 4096 * (1 + s.draw(1)) - 56 + s.draw(60) : 1 + s.draw(9000); }
			int ob = w.addObj(kind, named, named ? genName(s) : "", p1, p2, size); std::string desc;
			s.note("%s%s%s, %u threads%s%s", kname[kind], named ? " named " : "", named ? quote(w.objs[ob].name).c_str() : "", nt, kind == SEM ? (", " + std::to_string(p1) + " permits").c_str() : kind == EVT ? (std::string(p1 ? ", manual" : ", automatic") + (p2 ? ", prefired" : "")).c_str() : kind == SHM ? (", " + std::to_string(size) + " bytes").c_str() : "", c.slow ? ", slow threads" : "");
			std::vector<int> th2h(nt), procOf(nt); std::vector<bool> own(nt); std::vector<std::vector<Step> > scripts(nt); int shared[3] = { -1, -1, -1 };
			for (unsigned t = 0; t < nt; t++)
			{
				int proc = named ? (int)s.draw(2) : 0; own[t] = named ? s.chance(50) : nt == 1 && s.flip(); procOf[t] = proc;
				if (own[t]) th2h[t] = w.addHandle(ob, proc, (int)t);
				else { if (shared[proc] < 0) shared[proc] = w.addHandle(ob, proc, -1); th2h[t] = shared[proc]; }
				scripts[t] = genScript(s, nt == 1 ? 14 : 7, own[t]);
				s.note("thread %u: process %d, handle %d%s", t, proc, th2h[t], own[t] ? " (its own)" : "");
			}
			for (int p = 0; p < 3; p++) if (shared[p] >= 0) c.spawn(10 + p, p, [&w, &shared, p] { if (!w.create(10 + p, shared[p])) sim::bad("%s: Create() failed", kname[w.objs[0].kind]); });
			c.run();
			for (unsigned t = 0; t < nt; t++) c.spawn((int)t, procOf[t], [&w, t, &th2h, &scripts, &own, nt] { threadBody(w, (int)t, th2h[t], scripts[t], own[t], nt > 1); });
			c.run();
			nontriv = (nt > 1 && w.blockedSeen + w.timeouts > 0) || (nt == 1 && w.ops.size() > 5) || (nt > 1 && sim::switches() > 10);
			if (c.deadlock) dead = true;
			else
			{
				bool early = s.flip();     // Look at the state while handles are open, or after all of them are gone.
				if (early) { c.spawn(8, 7, [&w, ob, kind] { if (w.objs[ob].named) probe(w, 8, ob); }); c.run(); }
				for (size_t h = 0; h < w.hs.size(); h++) if (w.hs[h].made) { c.spawn(9, w.hs[h].proc, [&w, h] { w.destroy(9, (int)h); }); c.run(); }
				if (named) { c.spawn(8, 7, [&w, ob] { probe(w, 8, ob); }); c.run(); }
				if (sim::openMaps()) s.fail("%s: %d shared memory mappings are left after destroying all handles", kname[kind], sim::openMaps());
				if (sim::maskLeft()) s.fail("the file mode creation mask of a process was changed");
				if (sim::openFds()) s.fail("%s: %d file descriptors are left open", kname[kind], sim::openFds());
			}
			w.judge();
			if (nontriv) { u64 hsh = 1469598103934665603ULL; for (const Op &o : w.ops) { int v[6] = { (int)o.k, o.th, o.h, (int)o.wait, o.res, o.res2 }; hsh = pbt::hashBytes(v, sizeof v, hsh); } s.nontrivial(hsh); }
		}
		if (!dead && pbt::liveNew != new0) s.fail("%s: %ld allocations are left after destroying all handles", kname[kind], pbt::liveNew - new0);
	}
}

#define SRULE " Generated programs of 1-4 threads over 1-3 processes (own or shared handles, named or not), up to 14 calls each, under drawn schedules: preemption at any memory access or call, virtual time, spurious wakeups, slow threads.  Non-trivial: several threads with a blocked or timed-out call or more than ten switches, or one thread with more than five calls; distinct by history."
PROP(Y01, mutex, 4, "mutex histories: Lock (infinite, zero, timed), recursive, Unlock, Unlock(all), scoped unlock, foreign unlock, recreate and destroy while held." SRULE) { objectCase(s, MUT); }
PROP(Y02, semaphore, 4, "semaphore histories: Lock, Unlock with previous count, surplus Unlock, recreate, 0-3 permits." SRULE) { objectCase(s, SEM); }
PROP(Y03, event, 4, "event histories: Wait, Fire, Reset on automatic and manual, prefired or not." SRULE) { objectCase(s, EVT); }
PROP(Y04, rwlock, 4, "reader-writer lock histories: ReadLock, WriteLock, unlocks (scoped too), refused unlocks, recreate." SRULE) { objectCase(s, RWL); }
PROP(Y05, sharedmem, 4, "shared memory histories: create, recreate, destroy, single bytes and whole block written and read, sizes around page and alignment boundaries." SRULE) { objectCase(s, SHM); }

// Several objects with similar names, kinds and sizes at once: each one is judged on its own.
PROP(Y05, names, 3, "two to four named objects of any kind whose names, kinds or sizes differ in one detail (a character, a prefix, the size by a byte; a dozen characters of names of 235 to 6235 characters), each used by two threads of different processes; every object's history is judged alone.  Non-trivial: always.")
{
	sim::warm(); sim::Case c(s); World w(s, c); unsigned n = 2 + (unsigned)s.draw(2); bool over = s.chance(20); std::string base = over ? "" : genName(s); std::set<std::string> keys;
	// Names beyond the limit of the platform are folded: those that differ in a dozen characters or more still do not meet.
	static const char *al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,_-"; if (over) base = s.bytes(235 + s.draw(s.flip() ? 80 : s.chance(20) ? 6000 : 900), al);
	for (unsigned i = 0; i < n; i++)
	{
		Kind k = (Kind)s.draw(4); std::string nm = base;
		if (over) { if (s.flip()) { size_t b = 12 + s.draw(20), at = s.draw(nm.size() - b); for (size_t j = 0; j < b; j++) { char was = nm[at + j]; do nm[at + j] = al[s.draw(66)]; while (((nm[at + j] - was) & 0x3F) == 0); } } }
		else switch (s.weighted({ 3, 2, 2, 1 })) { case 0: break; case 1: nm[s.draw(nm.size() - 1)] = "abcXYZ019_-. /"[s.draw(13)]; break; case 2: nm += "abX0_"[s.draw(4)]; break; default: if (nm.size() > 1) nm.resize(nm.size() - 1); break; }
		// A slash cannot be part of the name of a shared memory object: it counts as an underscore.
		std::string norm = nm; for (char &x : norm) if (x == '/' || x == '\\') x = '_';
		size_t size = k == SHM ? s.draw(13) : 0; std::string key = std::to_string(k) + "|" + std::to_string(size) + "|" + norm; if (!keys.insert(key).second) continue;
		w.addObj(k, true, nm, k == SEM ? 1 + (int)s.draw(1) : k == EVT ? s.flip() : 0, k == EVT ? s.flip() : 0, size);
		s.note("object %u: %s %s size %zu", i, kname[k], quote(nm).c_str(), size);
	}
	for (size_t i = 0; i < w.objs.size(); i++) for (int p = 0; p < 2; p++)
	{
		int h = w.addHandle((int)i, p, 0); int th = (int)i * 2 + p; auto sc = std::make_shared<std::vector<Step> >(genScript(s, 4, true)); for (Step &x : *sc) if (x.w == INFINITE) x.w = 20;
		c.spawn(th, p, [&w, th, h, sc] { threadBody(w, th, h, *sc, true, true); });
	}
	c.run(); if (c.deadlock) s.fail("deadlock between unrelated objects");
	for (size_t h = 0; h < w.hs.size(); h++) if (w.hs[h].made) { c.spawn(9, w.hs[h].proc, [&w, h] { w.destroy(9, (int)h); }); c.run(); }
	for (size_t i = 0; i < w.objs.size(); i++) { c.spawn(8, 7, [&w, i] { probe(w, 8, (int)i); }); c.run(); }
	if (sim::openMaps()) s.fail("%d shared memory mappings are left after destroying all handles", sim::openMaps());
	w.judge(); u64 hsh = pbt::hashStr(base); for (const Op &o : w.ops) { int v[5] = { (int)o.k, o.th, o.h, o.res, o.res2 }; hsh = pbt::hashBytes(v, sizeof v, hsh); } s.nontrivial(hsh);
}

// One thread, with failing system calls and handles without an object.
static void faultCase(Src &s, Kind only, bool all)
{
	sim::warm(); long new0 = pbt::liveNew; unsigned faults = 0, uses = 0; u64 hsh = 7;
	{
		sim::Case c(s); c.slow = false; World w(s, c); Kind k = all ? (Kind)s.draw(4) : only; size_t size = k == SHM ? 1 + s.draw(100) : 0;
		int ob = w.addObj(k, true, genName(s), k == SEM ? 1 + (int)s.draw(2) : s.flip(), k == EVT ? s.flip() : 0, size); int h[2] = { w.addHandle(ob, 0, 0), w.addHandle(ob, 1, 0) };
		// What a handle may be created for: the shared name, another name, or (other than shared memory) an object of its own.
		int ob2 = w.addObj(k, true, w.objs[ob].name.substr(0, 100) + "2", k == SEM ? 1 + (int)s.draw(2) : s.flip(), k == EVT ? s.flip() : 0, k == SHM ? 1 + s.draw(100) : 0), own[2] = { ob2, ob2 }; if (k != SHM) for (int i = 0; i < 2; i++) own[i] = w.addObj(k, false, "", k == SEM ? 1 + (int)s.draw(2) : s.flip(), k == EVT ? s.flip() : 0, 0);
		auto target = [&](int x) { if (s.chance(55)) return -1; int g = s.flip() ? ob : s.flip() ? ob2 : own[x == h[1]]; s.note("(%s)", g == ob ? "the shared name" : w.objs[g].named ? "the other name" : "no name"); return g; };
		s.note("%s named %s", kname[k], quote(w.objs[ob].name).c_str()); size_t n = 2 + s.len(12);
		c.spawn(0, 0, [&] {
			for (size_t i = 0; i < n; i++)
			{
				int x = h[s.draw(1)]; Handle &H = w.hs[x]; sim::fibers[sim::cur]->proc = H.proc; unsigned what = s.weighted({ 3, 2, 3, 6, 2, 2 });
				hsh = hsh * 31 + what * 2 + (x == h[0]);
				if (what == 0) { if (!w.create(0, x, -1, target(x))) sim::bad("%s: Create() failed", kname[k]); }
				else if (what == 1)
				{
					if (s.chance(25)) { sim::failTrunc = 1 + (int)s.draw(3); s.note("(setting the size is interrupted %d times)", sim::failTrunc); int before = sim::failTrunc; bool r = w.create(0, x, -1, target(x)); if (sim::failTrunc < before) faults++; sim::failTrunc = 0; if (!r) sim::bad("%s: Create() failed because of an interruption", kname[k]); continue; }
					if (s.flip()) sim::failShm = s.flip() ? EMFILE : EACCES; else sim::failMmap = ENOMEM;
					s.note("(the next %s fails)", sim::failShm ? "shm_open" : "mmap"); bool shm = sim::failShm != 0; bool r = w.create(0, x, -1, target(x)); bool hit = shm ? !sim::failShm : !sim::failMmap; sim::failShm = sim::failMmap = 0;
					if (!r && !hit) sim::bad("%s: Create() failed", kname[k]);
					if (hit) faults++;
					if (r && !shm && hit) sim::bad("%s: Create() succeeded without its memory", kname[k]);
				}
				else if (what == 2) { w.destroy(0, x); }
				else if (what == 5 && H.made && k != RWL && k != SHM)
				{
					// The clock fails: a timed wait that has to wait cannot, and leaves everything as it was.
					s.note("(the clock fails)"); sim::failClock = EINVAL; int op; bool r;
					if (k == EVT) { r = H.e->Wait(30); if (r) { op = w.begin(0, x, WAIT, 0); w.end(op, 1); } } else { r = k == MUT ? H.m->Lock(30) : H.sem->Lock(30); if (r) { op = w.begin(0, x, LOCK, 0); w.end(op, 1); } }
					if (!sim::failClock) faults++;
					sim::failClock = 0;
				}
				else if (what == 3 || what == 4)
				{
					if (H.made)
					{
						switch (k)
						{
							case MUT: w.lock(0, x, 0); if (s.flip()) w.unlockM(0, x, true); break;
							case SEM: if (w.lock(0, x, 0) && s.flip()) w.unlockS(0, x); else if (s.flip()) w.unlockS(0, x); break;
							case EVT: if (s.flip()) w.fire(0, x); w.wait(0, x, 0); break;
							case RWL: if (w.rlock(0, x, 0)) w.runlock(0, x, true); if (w.wlock(0, x, 0)) w.wunlock(0, x); break;
							default: w.readCell(0, x, 0); w.fill(0, x, 1 + (int)s.draw(100)); break;
						}
					}
					else
					{
						// No object behind the handle: refused, without waiting.
						uses++; s.note("  use of handle %d without an object", x); bool r = false; u32 t = s.flip() ? 0 : INFINITE;
						switch (k)
						{
							case MUT: if (!H.m) H.m = new Sync::Mutex(); r = s.flip() ? H.m->Lock(t) : H.m->Unlock(s.flip()); break;
							case SEM: if (!H.sem) H.sem = new Sync::Semaphore(); r = s.flip() ? H.sem->Lock(t) : H.sem->Unlock(); break;
							case EVT: if (!H.e) H.e = new Sync::Event(); switch (s.draw(2)) { case 0: r = H.e->Wait(t); break; case 1: r = H.e->Fire(); break; default: r = H.e->Reset(); break; } break;
							case RWL: if (!H.rw) H.rw = new Sync::ReadWriteLock(); switch (s.draw(3)) { case 0: r = H.rw->ReadLock(t); break; case 1: r = H.rw->WriteLock(t); break; case 2: r = H.rw->ReadUnlock(); break; default: r = H.rw->WriteUnlock(); break; } break;
							default: if (!H.sh) H.sh = new Sync::SharedMem(); if (s.flip()) r = H.sh->Create(NULL, 1 + s.draw(100)); if (H.sh->RawData() || H.sh->GetSize() || H.sh->First()) sim::bad("SharedMem: a handle without an object has data %p, size %zu, first %d", (void *)H.sh->RawData(), H.sh->GetSize(), (int)H.sh->First()); break;
						}
						if (r) sim::bad("%s: a call on a handle without an object succeeded", kname[k]);
					}
				}
			}
		});
		c.run(); if (c.deadlock) s.fail("%s: a single thread waits forever", kname[k]);
		for (size_t i = 0; i < w.hs.size(); i++) { c.spawn(0, w.hs[i].proc, [&w, i] { w.destroy(0, (int)i); }); c.run(); }
		for (int g : { ob, ob2 }) { c.spawn(8, 7, [&w, g] { probe(w, 8, g); }); c.run(); }
		if (sim::openMaps()) s.fail("%s: %d shared memory mappings are left after destroying all handles", kname[k], sim::openMaps());
		if (sim::maskLeft()) s.fail("the file mode creation mask of a process was changed");
				if (sim::openFds()) s.fail("%s: %d file descriptors are left open", kname[k], sim::openFds());
		w.judge();
	}
	if (pbt::liveNew != new0) s.fail("%ld allocations are left after destroying all handles", pbt::liveNew - new0);
	if (faults || uses > 1) s.nontrivial(hsh);
}
#define FRULE "one thread, two handles created again and again for one name, another name or no name: creating (with failing shm_open/mmap too), waiting with a failing clock, using, destroying, and using handles that have no object.  Non-trivial: a fault hit or two uses without an object."
PROP(Y01, mutex_faults, 1, FRULE) { faultCase(s, MUT, false); }
PROP(Y02, semaphore_faults, 1, FRULE) { faultCase(s, SEM, false); }
PROP(Y03, event_faults, 1, FRULE) { faultCase(s, EVT, false); }
PROP(Y04, rwlock_faults, 1, FRULE) { faultCase(s, RWL, false); }
PROP(Y05, create_faults, 2, FRULE) { faultCase(s, SHM, true); }

// Large numbers: deep recursion, many readers, permits, handles and waiters.
namespace
{
	size_t deepN(Src &s, size_t max) { static const size_t e[] = { 8, 16, 31, 127, 255, 256, 1024, 32767, 65535, 65536 }; size_t n = s.chance(60) ? e[s.draw(9)] + s.draw(4) : 1 + s.draw(s.flip() ? 300 : max); return std::min(n, max); }
	struct Deep
	{
		Src &s; sim::Case c; Deep(Src &src) : s(src), c(src) { c.slow = false; c.spurious = 0; c.timeJump = 0; c.maxGap = 0; c.maxSteps = 1ULL << 40; }
		void as(int id, int proc, std::function<void()> f) { c.spawn(id, proc, f); c.run(); if (c.deadlock) s.fail("thread %d waits forever", id); }
	};
	#define DEEP(cond, ...) do { if (!(cond)) sim::bad(__VA_ARGS__); } while (0)
	void deepMutex(Src &s)
	{
		Deep d(s); bool named = s.flip(), all = s.chance(30); std::string nm = genName(s); size_t n = deepN(s, 70000), part = all ? s.draw(n - 1) : n - 1; s.note("%s mutex locked %zu times, unlocked %zu times%s", named ? "named" : "unnamed", n, part, all ? ", then unlocked for all" : "");
		Sync::Mutex *a = NULL, *b = NULL; d.as(0, 0, [&] { a = new Sync::Mutex(); DEEP(a->Create(named ? nm.c_str() : NULL), "Create() failed"); });
		if (named) d.as(1, 1, [&] { b = new Sync::Mutex(); DEEP(b->Create(nm.c_str()), "Create() failed"); });
		auto other = [&](bool want, const char *when) { d.as(1, named ? 1 : 0, [&] { Sync::Mutex *x = named ? b : a; bool r = x->Lock(0); if (r) x->Unlock(); DEEP(r == want, "another thread %s the mutex %s", r ? "gets" : "does not get", when); if (!want) { DEEP(!x->Unlock(), "another thread unlocks the mutex"); if (!named) { DEEP(!a->Create(s.flip() ? NULL : nm.c_str()), "the handle can be created anew while another thread holds the mutex"); DEEP(!x->Lock(0) && !x->Unlock(true), "an attempt to create the handle anew freed the mutex"); } } }); };
		d.as(0, 0, [&] { for (size_t i = 0; i < n; i++) DEEP(a->Lock(i & 1 ? 0 : INFINITE), "lock %zu of its owner failed", i + 1); }); other(false, "that is locked");
		d.as(0, 0, [&] { for (size_t i = 0; i < part; i++) DEEP(a->Unlock(), "unlock %zu of %zu was refused", i + 1, n); }); other(false, "that was not unlocked as often as locked");
		d.as(0, 0, [&] { DEEP(a->Unlock(all), "the last unlock was refused"); }); other(true, "that was unlocked as often as locked"); d.as(0, 0, [&] { DEEP(!a->Unlock(), "one unlock too many was accepted"); DEEP(a->Lock(0), "cannot be locked again"); }); other(false, "that is locked again");
		d.as(0, 0, [&] { delete a; }); if (named) { other(true, "whose owner is gone"); d.as(1, 1, [&] { delete b; }); }
		if (n > 100) s.nontrivial();
	}
	void deepSem(Src &s)
	{
		Deep d(s); bool named = s.flip(); std::string nm = genName(s); size_t n = deepN(s, 70000), k = 1 + s.draw(n - 1), extra = s.draw(3); s.note("%s semaphore of %zu permits, %zu returned, %zu too many", named ? "named" : "unnamed", n, k, extra);
		Sync::Semaphore *a = NULL; int prev; d.as(0, 0, [&] { a = new Sync::Semaphore(); DEEP(a->Create(named ? nm.c_str() : NULL, (int)n), "Create() failed"); });
		d.as(1, 0, [&] { for (size_t i = 0; i < n; i++) DEEP(a->Lock(0), "lock %zu of %zu permits failed", i + 1, n); DEEP(!a->Lock(0), "lock %zu of %zu permits succeeded", n + 1, n); });
		d.as(2, 0, [&] { for (size_t i = 0; i < k; i++) { prev = -7; DEEP(a->Unlock(&prev) && prev == (int)i, "unlock %zu reports %d permits before it", i + 1, prev); } for (size_t i = 0; i < k; i++) DEEP(a->Lock(0), "permit %zu of %zu was lost", i + 1, k); DEEP(!a->Lock(0), "more permits than returned"); });
		d.as(1, 0, [&] { for (size_t i = 0; i < n; i++) { prev = -7; DEEP(a->Unlock(&prev) && prev == (int)i, "unlock %zu reports %d permits before it", i + 1, prev); } for (size_t i = 0; i < extra; i++) { prev = -7; a->Unlock(&prev); DEEP(prev == (int)n, "a surplus unlock reports %d permits of %zu", prev, n); } for (size_t i = 0; i < n; i++) DEEP(a->Lock(0), "permit %zu of %zu was lost", i + 1, n); DEEP(!a->Lock(0), "lock %zu of %zu permits succeeded", n + 1, n); });
		d.as(0, 0, [&] { delete a; }); if (n > 100) s.nontrivial();
	}
	void deepRw(Src &s)
	{
		Deep d(s); bool named = s.flip(); std::string nm = genName(s); size_t n = deepN(s, 70000); s.note("%s lock with %zu readers", named ? "named" : "unnamed", n);
		Sync::ReadWriteLock *a = NULL, *b = NULL; d.as(0, 0, [&] { a = new Sync::ReadWriteLock(); DEEP(a->Create(named ? nm.c_str() : NULL), "Create() failed"); }); if (named) d.as(1, 1, [&] { b = new Sync::ReadWriteLock(); DEEP(b->Create(nm.c_str()), "Create() failed"); }); else b = a;
		auto writer = [&](bool want, size_t left) { d.as(1, named ? 1 : 0, [&] { bool r = b->WriteLock(0); if (r) b->WriteUnlock(); DEEP(r == want, "a writer %s with %zu of %zu readers left", r ? "gets in" : "does not get in", left, n); }); };
		writer(true, 0); d.as(0, 0, [&] { for (size_t i = 0; i < n; i++) DEEP(a->ReadLock(i & 1 ? 0 : INFINITE), "reader %zu does not get in", i + 1); }); writer(false, n);
		d.as(2, 0, [&] { for (size_t i = 0; i + 1 < n; i++) DEEP(a->ReadUnlock(), "read unlock %zu of %zu was refused", i + 1, n); }); writer(false, 1); d.as(0, 0, [&] { DEEP(a->ReadUnlock(), "the last read unlock was refused"); }); writer(true, 0); d.as(0, 0, [&] { DEEP(!a->ReadUnlock(), "a read unlock without a reader was accepted"); }); writer(true, 0);
		if (named) d.as(1, 1, [&] { delete b; }); d.as(0, 0, [&] { delete a; }); if (n > 100) s.nontrivial();
	}
	void deepNames(Src &s)
	{
		Deep d(s); std::string nm = genName(s); size_t n = deepN(s, 400), size = 1 + s.draw(5000); s.note("%zu handles of %zu bytes of shared memory", n, size); std::vector<Sync::SharedMem *> v(n); std::vector<size_t> order(n);
		for (size_t i = 0; i < n; i++) d.as(0, (int)(i % 3), [&] { v[i] = new Sync::SharedMem(); DEEP(v[i]->Create(nm.c_str(), size), "Create() %zu failed", i + 1); DEEP(v[i]->First() == (i == 0), "handle %zu reports that it %s the first", i + 1, v[i]->First() ? "is" : "is not"); if (!i) memset(v[i]->RawData(), 0x33, size); DEEP(v[i]->RawData()[0] == 0x33 && v[i]->RawData()[size - 1] == 0x33, "handle %zu shows other bytes", i + 1); });
		for (size_t i = 0; i < n; i++) order[i] = i; for (size_t i = n; i > 1; i--) std::swap(order[i - 1], order[s.draw(i - 1)]);
		for (size_t i = 0; i < n; i++) { size_t k = order[i]; d.as(0, (int)(k % 3), [&] { delete v[k]; v[k] = NULL; }); if (i + 1 < n && (i % 16 == 0 || i + 2 == n)) d.as(1, 1, [&] { Sync::SharedMem x; DEEP(x.Create(nm.c_str(), size), "Create() failed"); DEEP(!x.First() && x.RawData()[0] == 0x33, "started anew with %zu of %zu handles open", n - i - 1, n); }); }
		d.as(1, 1, [&] { Sync::SharedMem x; DEEP(x.Create(nm.c_str(), size), "Create() failed"); DEEP(x.First() && !x.RawData()[0] && !x.RawData()[size - 1], "did not start anew after all %zu handles were closed", n); }); if (sim::openMaps()) s.fail("%d mappings are left", sim::openMaps());
		if (n > 100) s.nontrivial();
	}
	void crowd(Src &s, Kind k)
	{
		Deep d(s); d.c.maxGap = s.flip() ? 0 : 60; bool named = s.flip(); std::string nm = genName(s); size_t n = k == MUT || k == SEM || k == RWL ? deepN(s, 300) : deepN(s, 300); bool manual = s.flip(); int in = 0; size_t done = 0; unsigned per = 1 + (unsigned)s.draw(2); s.note("%zu threads wait for a %s %s", n, named ? "named" : "unnamed", k == EVT ? manual ? "manual event" : "automatic event" : kname[k]);
		Sync::Mutex *m = NULL; Sync::Semaphore *q = NULL; Sync::Event *e = NULL; Sync::ReadWriteLock *r = NULL; const char *name = named ? nm.c_str() : NULL;
		d.as(0, 0, [&] { switch (k) { case MUT: m = new Sync::Mutex(); DEEP(m->Create(name) && m->Lock(), "setup"); break; case SEM: q = new Sync::Semaphore(); DEEP(q->Create(name, (int)per), "setup"); for (unsigned i = 0; i < per; i++) DEEP(q->Lock(), "setup"); break; case EVT: e = new Sync::Event(); DEEP(e->Create(name, manual, false), "setup"); break; default: r = new Sync::ReadWriteLock(); DEEP(r->Create(name) && r->WriteLock(), "setup"); break; } });
		for (size_t i = 0; i < n; i++) d.c.spawn(100 + (int)i, 0, [&, i] {
			u32 w = i % 3 ? INFINITE : 3600000; switch (k)
			{
				case MUT: DEEP(m->Lock(w), "a lock failed"); DEEP(++in == 1, "two threads hold the mutex"); sim::point(); in--; DEEP(m->Unlock(), "an unlock failed"); break;
				case SEM: DEEP(q->Lock(w), "a lock failed"); DEEP(++in <= (int)per, "%d threads hold %u permits", in, per); sim::point(); in--; DEEP(q->Unlock(), "an unlock failed"); break;
				case EVT: DEEP(e->Wait(w), "a wait failed"); break;
				default: if (i % 4 == 0) { DEEP(r->WriteLock(w), "a write lock failed"); DEEP(in == 0, "a writer is not alone"); in = -1; sim::point(); in = 0; DEEP(r->WriteUnlock(), "an unlock failed"); } else { DEEP(r->ReadLock(w), "a read lock failed"); DEEP(in >= 0, "a reader joins a writer"); in++; sim::point(); in--; DEEP(r->ReadUnlock(), "an unlock failed"); } break;
			}
			done++;
		});
		d.c.spawn(0, 0, [&] {
			sim::sleepMs(50); DEEP(done == 0, "%zu threads got through at once", done);
			switch (k)
			{
				case MUT: DEEP(m->Unlock(), "unlock failed"); break; case SEM: for (unsigned i = 0; i < per; i++) DEEP(q->Unlock(), "unlock failed"); break; case RWL: DEEP(r->WriteUnlock(), "unlock failed"); break;
				default: if (manual) DEEP(e->Fire(), "Fire() failed"); else for (size_t i = 0; i < n; i++) { DEEP(!e->Wait(0), "Wait(0) succeeded without a signal"); DEEP(e->Fire(), "Fire() failed"); DEEP(i + 1 == n || !e->Wait(0), "Wait(0) overtook %zu waiting threads", n - i); sim::sleepMs(1); DEEP(done == i + 1, "%zu of %zu threads got through after firing %zu times", done, n, i + 1); } break;
			}
		});
		d.c.run(); if (d.c.deadlock || done != n) s.fail("%zu of %zu threads never got through", n - done, n);
		d.as(0, 0, [&] { switch (k) { case MUT: DEEP(m->Lock(0), "still locked"); delete m; break; case SEM: for (unsigned i = 0; i < per; i++) DEEP(q->Lock(0), "a permit was lost"); DEEP(!q->Lock(0), "a permit was added"); delete q; break; case EVT: DEEP(e->Wait(0) == manual, "signal left over or lost"); delete e; break; default: DEEP(r->WriteLock(0), "still locked"); delete r; break; } });
		if (n > 100) s.nontrivial();
	}
}
#define DRULE "numbers around 8, 16, 127, 255, 1024, 32767 and 65535.  Non-trivial: more than 100."
#define CRULE "up to 300 threads waiting at once, all of which have to get through, and nothing left over.  Non-trivial: more than 100 threads."
PROP(Y01, mutex_deep, 1, "mutexes locked up to 70000 times by their owner, unlocked as often or once for all; another thread or process tries at every stage; " DRULE) { deepMutex(s); }
PROP(Y01, mutex_crowd, 1, CRULE) { crowd(s, MUT); }
PROP(Y02, semaphore_deep, 1, "semaphores of up to 70000 permits, all taken, returned in part and in full, with surplus unlocks; " DRULE) { deepSem(s); }
PROP(Y02, semaphore_crowd, 1, CRULE) { crowd(s, SEM); }
PROP(Y03, event_crowd, 1, CRULE) { crowd(s, EVT); }
PROP(Y04, rwlock_deep, 1, "up to 70000 readers at once, a writer tries at every stage; " DRULE) { deepRw(s); }
PROP(Y04, rwlock_crowd, 1, CRULE) { crowd(s, RWL); }
PROP(Y05, handles_deep, 1, "up to 400 handles of one name in three processes, closed in any order, with creators coming and going in between; " DRULE) { deepNames(s); }
