#include "pbt.h"
#include <algorithm>
#include <map>
#include <set>
#include <new>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define PBT_ASAN 1
# endif
#endif

namespace pbt
{
	static const size_t MAXCH = 1 << 15;      // Choices per case
	static const size_t TABSZ = 1 << 21;      // Distinct-hash table
	static const size_t MSGSZ = 1 << 14;

	struct Slot                                // One per worker; shared memory.
	{
		volatile u64 heartbeat_ms;              // Start of current case
		volatile u64 caseno;
		volatile size_t nch;                    // Choices of the current case
		volatile int propidx;
		volatile int status;                    // 0 running, 1 ok, 2 failed, 3 discarded
		volatile u64 evals, nontriv, discards, corpus, feats;
		volatile int quit;
		u64 ch[MAXCH];
		char msg[MSGSZ];
		char text[MSGSZ * 4];
	};
	struct Shared
	{
		volatile u64 distinct;
		volatile u64 tab[TABSZ];
		volatile int stop;
		Slot slots[1];
	};
	static Shared *SH;
	static Slot *CUR;
	static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
	void reg(const Prop &p) { props().push_back(p); }

	static u64 now_ms() { struct timespec t; syscall(228 /* clock_gettime */, 1, &t); return (u64)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
	static u64 mix(u64 x) { x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }
	u64 hashBytes(const void *p, size_t n, u64 h) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; } return mix(h); }

	// ---------------------------------------------------------------- coverage
	static const size_t MAXCNT = 1 << 20;
	static unsigned char *cntBeg[64], *cntEnd[64]; static size_t nCnt;
	static unsigned char seen[MAXCNT];
	static const unsigned DICT = 256;
	static u64 dict[DICT]; static unsigned ndict, dictpos;
	static bool dictOn;
	static inline __attribute__((no_sanitize("coverage", "address"))) void dictAdd(u64 v)
	{
		if (!dictOn || v < 4 || v + 4 < 8) return;
		unsigned n = ndict < DICT ? ndict : DICT;
		// Cheap duplicate filter.
		unsigned q = (unsigned)(mix(v) % DICT);
		for (unsigned i = 0; i < 4; i++) if (dict[(q + i) % DICT] == v) return;
		(void)n;
		dict[(q + (dictpos++ & 3)) % DICT] = v;
		if (ndict < DICT) ndict++;
	}

	// ---------------------------------------------------------------- Src
	u64 Src::rnd() { rng += 0x9E3779B97F4A7C15ULL; u64 x = rng; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }
	static u64 rec(Src &s, u64 max, bool haveSuggest, u64 suggest)
	{
		u64 v;
		if (s.pos < s.prelen) v = s.pre[s.pos];
		else if (!s.fresh) v = 0;
		else if (haveSuggest) v = suggest;
		else v = s.rnd();
		if (max != ~0ULL && v > max) v %= max + 1;
		if (s.pos >= MAXCH) throw Discard();
		CUR->ch[s.pos++] = v;
		CUR->nch = s.pos;
		return v;
	}
	u64 Src::draw(u64 max) { return rec(*this, max, false, 0); }
	u64 Src::drawTo(u64 max, u64 v) { return rec(*this, max, true, v); }
	bool Src::chance(unsigned pct)
	{
		// Shrinks towards false: values 0..99, true iff >= 100 - pct.
		return draw(99) >= 100 - pct;
	}
	static bool dictPick(Src &s, u64 lo, u64 hi, u64 &out)
	{
		if (!ndict) return false;
		for (int i = 0; i < 12; i++)
		{
			u64 v = dict[s.rnd() % DICT];
			switch (s.rnd() % 6) { case 0: v += 1; break; case 1: v -= 1; break; default: break; }
			if (v >= lo && v <= hi) { out = v; return true; }
		}
		return false;
	}
	u64 Src::range(u64 lo, u64 hi)
	{
		u64 span = hi - lo, v;
		if (fresh && pos >= prelen)
		{
			u64 r = rnd() % 16, t;
			if (r == 0) v = lo + (span ? rnd() % (span < 3 ? span + 1 : 3) : 0);
			else if (r == 1) v = hi - (span ? rnd() % (span < 3 ? span + 1 : 3) : 0);
			else if (r <= 3 && dictPick(*this, lo, hi, t)) v = t;
			else if (r <= 6 && span > 64)
			{
				// Log-uniform.
				unsigned bits = 0; while (bits < 63 && (span >> bits) > 1) bits++;
				u64 m = (1ULL << (rnd() % (bits + 1)));
				t = m - 1 + rnd() % (m + 1) - (rnd() & 1);
				v = lo + (t <= span ? t : span);
			}
			else v = lo + (span == ~0ULL ? rnd() : rnd() % (span + 1));
			return lo + drawTo(span, v - lo);
		}
		return lo + draw(span);
	}
	size_t Src::len(size_t max)
	{
		if (fresh && pos >= prelen)
		{
			u64 v, t, r = rnd() % 16;
			if (r < 9) v = rnd() % (std::min<size_t>(max, 8) + 1);
			else if (r < 13) v = rnd() % (std::min<size_t>(max, 40) + 1);
			else if (r < 14 && dictPick(*this, 0, max, t)) v = t;
			else v = rnd() % (max + 1);
			return (size_t)drawTo(max, v);
		}
		return (size_t)draw(max);
	}
	u64 Src::u64any()
	{
		if (fresh && pos >= prelen)
		{
			u64 v, t, r = rnd() % 16;
			if (r < 2) v = rnd() % 32;
			else if (r < 3) v = 0 - rnd() % 32;
			else if (r < 5) { v = 1ULL << (rnd() % 64); v += rnd() % 5; v -= 2; }
			else if (r < 7) { v = 1; for (u64 k = rnd() % 20; k; k--) v *= 10; v += rnd() % 5; v -= 2; if (rnd() & 1) v = 0 - v; }
			else if (r < 9 && dictPick(*this, 0, ~0ULL, t)) v = t;
			else if (r < 14) { v = rnd() >> (rnd() % 64); if (rnd() % 4 == 0) v = 0 - v; }
			else v = rnd();
			return drawTo(~0ULL, v);
		}
		return draw(~0ULL);
	}
	unsigned Src::weighted(const std::vector<unsigned> &w)
	{
		u64 t = 0; for (unsigned x : w) t += x;
		u64 r = draw(t - 1);
		unsigned i = 0;
		while (r >= w[i]) r -= w[i++];
		return i;
	}
	std::string Src::bytes(size_t n, const char *al)
	{
		std::string r;
		size_t k = al ? strlen(al) : 0;
		for (size_t i = 0; i < n; i++) r.push_back(al ? al[draw(k - 1)] : (char)range(0, 255));
		return r;
	}
	void Src::note(const char *fmt, ...)
	{
		if (!verbose || text.size() > MSGSZ * 3) return;
		char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
		text += b; text += '\n';
		// Keep it readable even if the case crashes.
		if (CUR) { size_t n = text.size(); if (n < sizeof CUR->text) { memcpy(CUR->text, text.c_str(), n + 1); } }
	}
	void Src::fail(const char *fmt, ...)
	{
		char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
		Failure f; f.msg = b; throw f;
	}
	std::string quote(const std::string &x, size_t maxlen)
	{
		std::string r = "\""; char b[8];
		for (size_t i = 0; i < x.size(); i++)
		{
			if (i >= maxlen) { snprintf(b, sizeof b, "..."); r += b; break; }
			unsigned char c = x[i];
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
			else r += c;
		}
		return r + "\"(" + std::to_string(x.size()) + ")";
	}

	// ---------------------------------------------------------------- running one case
	static int runOne(const Prop &p, Src &s)
	{
		CUR->nch = 0; CUR->status = 0; CUR->msg[0] = 0; CUR->text[0] = 0; if (s.verbose) s.text.reserve(MSGSZ * 4);
		s.trivial = true; s.h = 0; s.marked = false; s.pos = 0; s.text.clear();
		int st = 1;
		dictOn = true;
		try { p.fn(s); }
		catch (Failure &f) { st = 2; snprintf(CUR->msg, MSGSZ, "%s", f.msg.c_str()); }
		catch (Discard &) { st = 3; }
		dictOn = false;
		CUR->status = st;
		return st;
	}
	static bool tabInsert(u64 h)
	{
		if (!h) h = 1;
		size_t i = h % TABSZ;
		for (size_t k = 0; k < 64; k++, i = (i + 1) % TABSZ)
		{
			u64 v = SH->tab[i];
			if (v == h) return false;
			if (!v && __sync_bool_compare_and_swap(&SH->tab[i], 0, h)) { __sync_fetch_and_add(&SH->distinct, 1); return true; }
			if (SH->tab[i] == h) return false;
		}
		return false;   // Table full: under-count.
	}

	static unsigned bucket(unsigned c) { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
	static __attribute__((no_sanitize("coverage", "address"))) bool newCoverage(u64 &feats)
	{
		bool r = false; size_t k = 0;
		for (size_t m = 0; m < nCnt; m++)
			for (unsigned char *c = cntBeg[m]; c < cntEnd[m]; c++, k++)
			{
				if (!*c) continue;
				unsigned b = bucket(*c);
				*c = 0;
				if (k < MAXCNT && !(seen[k] & b)) { seen[k] |= b; r = true; feats++; }
			}
		return r;
	}

	struct Opt { std::string prop, replay, out, rdir; u64 seed, cases; double secs; int jobs; u64 hang; std::string one; };

	static void worker(const Prop &p, int pi, const Opt &o, int wi, u64 startCase, u64 endMs)
	{
		CUR = &SH->slots[wi];
		CUR->propidx = pi;
		struct Ent { std::vector<u64> ch; };
		std::vector<Ent> corpus;
		u64 feats = 0;
		Src s; s.verbose = false;
		u64 mrng = mix(o.seed * 1000003 + wi * 7919 + startCase + hashStr(p.name));
		auto R = [&]() { mrng = mix(mrng); return mrng; };
		std::vector<u64> pre;
		u64 quota = (o.cases + o.jobs - 1) / o.jobs;
		for (u64 c = startCase; c < quota; c++)
		{
			CUR->caseno = c;
			CUR->heartbeat_ms = now_ms();
			if ((c & 15) == 0 && (CUR->heartbeat_ms >= endMs || SH->stop)) break;
			pre.clear();
			s.fresh = true;
			s.rng = mix(mix(o.seed) ^ mix((u64)wi << 40 ^ c) ^ hashStr(p.name));
			if (corpus.size() && R() % 2)
			{
				pre = corpus[R() % 4 ? corpus.size() - 1 - R() % std::min<size_t>(corpus.size(), 32) : R() % corpus.size()].ch;
				unsigned nm = 1 + R() % 4;
				for (unsigned k = 0; k < nm && pre.size(); k++)
				{
					size_t i = R() % pre.size();
					switch (R() % 8)
					{
						case 0: pre[i] = R(); break;
						case 1: pre[i] ^= 1ULL << (R() % 8); break;
						case 2: pre[i] += 1; break;
						case 3: pre[i] -= pre[i] ? 1 : 0; break;
						case 4: pre[i] = R() % 16; break;
						case 5: { size_t n = std::min<size_t>(1 + R() % 8, pre.size() - i); pre.erase(pre.begin() + i, pre.begin() + i + n); break; }
						case 6:
						{
							const std::vector<u64> &q = corpus[R() % corpus.size()].ch;
							if (!q.size()) break;
							size_t b = R() % q.size(), n = std::min<size_t>(1 + R() % 16, q.size() - b);
							pre.insert(pre.begin() + i, q.begin() + b, q.begin() + b + n);
							break;
						}
						case 7:
							if (ndict) pre[i] = dict[R() % DICT] + R() % 3 - 1;
							break;
					}
				}
				if (R() % 4 == 0 && pre.size()) pre.resize(R() % pre.size());    // Fresh tail.
				if (pre.size() > MAXCH) pre.resize(MAXCH);
			}
			s.pre = pre.data(); s.prelen = pre.size();
			int st = runOne(p, s);
			CUR->evals++;
			if (st == 2) { SH->stop = 1; _exit(77); }
			bool nc = newCoverage(feats);
			if (st == 3) { CUR->discards++; continue; }
			if (!s.trivial)
			{
				CUR->nontriv++;
				u64 h = s.marked ? s.h : hashBytes((const void *)CUR->ch, CUR->nch * 8);
				tabInsert(h ^ mix(pi + 1));
			}
			if (nc && corpus.size() < 4096) { Ent e; e.ch.assign(CUR->ch, CUR->ch + CUR->nch); corpus.push_back(e); CUR->corpus = corpus.size(); }
			CUR->feats = feats;
		}
		CUR->quit = 1;
		_exit(0);
	}

	// Runs choices in a forked child.  Returns 1 ok, 2 failed, 3 discard, 4 crash, 5 hang.
	static int isolated(const Prop &p, const std::vector<u64> &ch, u64 hangMs, bool verbose, std::string *msg, std::string *text, std::vector<u64> *used, bool fresh = false, u64 rng = 0)
	{
		Slot *sl = &SH->slots[0];
		CUR = sl;
		sl->status = 0; sl->msg[0] = 0; sl->text[0] = 0; sl->nch = 0;
		char errf[64]; snprintf(errf, sizeof errf, "/tmp/pbt_err_%d", (int)getpid());
		pid_t pid = fork();
		if (pid == 0)
		{
			setpgid(0, 0);
			int fd = open(errf, O_CREAT | O_TRUNC | O_WRONLY, 0600);
			dup2(fd, 2); dup2(fd, 1);
			Src s; s.pre = ch.data(); s.prelen = ch.size(); s.fresh = fresh; s.rng = rng; s.verbose = verbose;
			int st = runOne(p, s);
			if (s.trivial && st == 1) sl->quit = 5; else sl->quit = 0;
			_exit(st == 2 ? 77 : 0);
		}
		u64 t0 = now_ms(); int ws = 0; bool hung = false;
		for (;;)
		{
			pid_t r = waitpid(pid, &ws, WNOHANG);
			if (r == pid) break;
			if (now_ms() - t0 > hangMs) { hung = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &ws, 0); break; }
			usleep(now_ms() - t0 < 20 ? 200 : 2000);
		}
		kill(-pid, SIGKILL);
		int st = sl->status;
		if (hung) st = 5;
		else if (!(WIFEXITED(ws) && (WEXITSTATUS(ws) == 0 || WEXITSTATUS(ws) == 77))) st = 4;
		if (msg)
		{
			*msg = sl->msg;
			if (st == 5) *msg = "case does not finish (hang) within " + std::to_string(hangMs) + " ms";
			if (st == 4)
			{
				char b[300]; snprintf(b, sizeof b, "process died (wait status 0x%x)", ws); *msg = b;
				FILE *fp = fopen(errf, "r"); char line[1024]; std::string head; int n = 0;
				while (fp && fgets(line, sizeof line, fp)) { if (strstr(line, "SUMMARY") || strstr(line, "ERROR: ")) *msg += std::string("; ") + line; if (n++ < 40) head += line; }
				if (fp) fclose(fp);
				*msg += "\n" + head;
			}
		}
		unlink(errf);
		if (text) *text = sl->text;
		if (used) used->assign(sl->ch, sl->ch + std::min((size_t)sl->nch, (size_t)MAXCH));
		return st;
	}
	static bool bad(int st) { return st == 2 || st == 4 || st == 5; }

	static std::vector<u64> shrink(const Prop &p, std::vector<u64> best, u64 hangMs, double secs, u64 &tries)
	{
		u64 end = now_ms() + (u64)(secs * 1000);
		auto attempt = [&](const std::vector<u64> &c) -> bool
		{
			if (now_ms() > end) return false;
			tries++;
			std::vector<u64> used;
			int st = isolated(p, c, hangMs, false, NULL, NULL, &used);
			if (!bad(st)) return false;
			std::vector<u64> r = c;
			if (st == 2 && used.size() < r.size()) r = used;
			while (r.size() && r.back() == 0) r.pop_back();
			if (r.size() < best.size() || (r.size() == best.size() && r < best)) { best = r; return true; }
			return false;
		};
		bool progress = true;
		while (progress && now_ms() < end)
		{
			progress = false;
			for (size_t n = best.size() / 2; n >= 1; n /= 2)
				for (size_t i = 0; i + n <= best.size() && now_ms() < end;)
				{
					std::vector<u64> c = best; c.erase(c.begin() + i, c.begin() + i + n);
					if (attempt(c)) progress = true; else i += n;
				}
			// Delete with fixing an earlier count.
			for (size_t i = 0; i < best.size() && best.size() < 400 && now_ms() < end; i++)
			{
				if (!best[i] || best[i] > 4096) continue;
				for (size_t n = 1; n <= 4; n++)
					for (size_t j = i + 1; j + n <= best.size() && j < i + 40; j++)
					{
						if (i >= best.size() || !best[i]) break;
						std::vector<u64> c = best; c[i]--; c.erase(c.begin() + j, c.begin() + j + n);
						if (attempt(c)) progress = true;
					}
			}
			for (size_t i = 0; i < best.size() && now_ms() < end; i++)
			{
				if (!best[i]) continue;
				std::vector<u64> c = best; c[i] = 0;
				if (attempt(c)) { progress = true; continue; }
				u64 lo = 0;
				while (i < best.size() && lo + 1 < best[i])
				{
					u64 mid = lo + (best[i] - lo) / 2;
					c = best; c[i] = mid;
					if (attempt(c)) progress = true; else lo = mid;
				}
			}
		}
		return best;
	}

	static std::string jstr(const std::string &x)
	{
		std::string r = "\""; char b[8];
		for (unsigned char c : x)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c == '\n') r += "\\n";
			else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += c;
		}
		return r + "\"";
	}

	static int doReplay(const Opt &o)
	{
		FILE *fp = fopen(o.replay.c_str(), "r");
		if (!fp) { fprintf(stderr, "cannot open %s\n", o.replay.c_str()); return 2; }
		char line[4096]; std::string name; std::vector<u64> ch;
		while (fgets(line, sizeof line, fp))
		{
			if (!strncmp(line, "prop ", 5)) { name = line + 5; while (name.size() && name.back() == '\n') name.pop_back(); }
			if (!strncmp(line, "choice ", 7)) ch.push_back(strtoull(line + 7, NULL, 10));
		}
		fclose(fp);
		for (auto &p : props()) if (name == p.name)
		{
			std::string msg, text;
			int st = isolated(p, ch, o.hang * 3, true, &msg, &text, NULL);
			printf("%s\n%s\nreplay status: %s\n", text.c_str(), msg.c_str(), bad(st) ? "FAILED" : "ok");
			return bad(st) ? 1 : 0;
		}
		fprintf(stderr, "no such prop: %s\n", name.c_str());
		return 2;
	}

	int main_(int argc, char **argv)
	{
		Opt o; o.seed = 1; o.cases = 1000; o.secs = 30; o.jobs = 8; o.hang = 20000;
		for (int i = 1; i + 1 < argc; i += 2)
		{
			std::string k = argv[i], v = argv[i + 1];
			if (k == "--prop") o.prop = v; else if (k == "--replay") o.replay = v; else if (k == "--out") o.out = v;
			else if (k == "--replay-dir") o.rdir = v; else if (k == "--seed") o.seed = strtoull(v.c_str(), NULL, 10);
			else if (k == "--cases") o.cases = strtoull(v.c_str(), NULL, 10); else if (k == "--secs") o.secs = atof(v.c_str());
			else if (k == "--jobs") o.jobs = atoi(v.c_str()); else if (k == "--hang") o.hang = strtoull(v.c_str(), NULL, 10);
			else if (k == "--only") o.one = v;
		}
		size_t sz = sizeof(Shared) + sizeof(Slot) * o.jobs;
		SH = (Shared *)mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (SH == MAP_FAILED) { perror("mmap"); return 2; }
		if (o.replay.size()) return doReplay(o);

		std::vector<size_t> sel; u64 wsum = 0;
		for (size_t i = 0; i < props().size(); i++) if ((o.prop.empty() || o.prop == props()[i].id) && (o.one.empty() || o.one == props()[i].name)) { sel.push_back(i); wsum += props()[i].weight; }
		if (sel.empty()) { fprintf(stderr, "no property selected\n"); return 2; }

		std::string jprops, jsamples, jflaky; int rc = 0; u64 totE = 0, totN = 0, totD = 0, flaky = 0;
		std::string rules, violReplay, violMsg;
		for (size_t pi : sel)
		{
			const Prop &p = props()[pi];
			Opt q = o; q.cases = o.cases * p.weight / wsum; q.secs = o.secs * p.weight / wsum;
			u64 d0 = SH->distinct;
			u64 t0 = now_ms(), endMs = t0 + (u64)(q.secs * 1000);
			u64 E = 0, N = 0, D = 0, C = 0, F = 0;
			bool failed = false;
			// A failure that cannot be reproduced in a fresh process restarts the search (other random choices, remaining time).
			for (int round = 0; round < 6 && !failed; round++)
			{
			if (round && now_ms() >= endMs) break;
			memset((void *)SH->slots, 0, sizeof(Slot) * o.jobs);
			SH->stop = 0;
			if (round) q.seed = mix(o.seed + round);
			std::vector<pid_t> pid(o.jobs, 0); std::vector<bool> hungKill(o.jobs, false);
			auto spawn = [&](int w, u64 start)
			{
				fflush(NULL);
				pid_t x = fork();
				if (x == 0)
				{
					setpgid(0, 0);
					int fd = open(getenv("VERIF_DEBUG") ? getenv("VERIF_DEBUG") : "/dev/null", O_RDWR | O_APPEND); dup2(fd, 2); dup2(fd, 1);
					worker(p, (int)pi, q, w, start, endMs);
				}
				pid[w] = x;
			};
			for (int w = 0; w < o.jobs; w++) spawn(w, 0);
			int alive = o.jobs;
			std::vector<std::vector<u64>> failing; std::vector<bool> isHang; std::vector<std::string> failMsg;
			while (alive)
			{
				bool any = false;
				for (int w = 0; w < o.jobs; w++)
				{
					if (!pid[w]) continue;
					int ws; pid_t r = waitpid(pid[w], &ws, WNOHANG);
					Slot &sl = SH->slots[w];
					if (r == 0)
					{
						u64 hb = sl.heartbeat_ms;
						if (hb && !sl.quit && now_ms() > hb && now_ms() - hb > o.hang) { hungKill[w] = true; kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); }
						continue;
					}
					any = true;
					kill(-pid[w], SIGKILL);
					pid[w] = 0;
					if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) { alive--; continue; }
					// Failure, crash or hang: remember the choices.
					failMsg.push_back((const char *)sl.msg); failing.push_back(std::vector<u64>(sl.ch, sl.ch + std::min((size_t)sl.nch, (size_t)MAXCH)));
					isHang.push_back(hungKill[w]);
					hungKill[w] = false;
					if (failing.size() >= 4) SH->stop = 1;
					// Confirm later; stop this worker.
					SH->stop = 1;
					alive--;
				}
				if (!any) usleep(2000);
			}
			for (int w = 0; w < o.jobs; w++) { Slot &sl = SH->slots[w]; E += sl.evals; N += sl.nontriv; D += sl.discards; C += sl.corpus; F = std::max(F, (u64)sl.feats); }
			for (size_t f = 0; f < failing.size() && !failed; f++)
			{
				std::string msg, text;
				u64 hang = isHang[f] ? o.hang * 3 : o.hang * 2;
				int st = 0;
				for (int k = 0; k < (isHang[f] ? 1 : 4) && !bad(st); k++) st = isolated(p, failing[f], hang, false, &msg, NULL, NULL);
				if (!bad(st)) { flaky++; jflaky += (jflaky.size() ? ", " : "") + jstr(p.name); fprintf(stderr, "note: %s: a failure did not reproduce in isolation: %s\n", p.name, failMsg[f].c_str()); continue; }
				failed = true; rc = 1;
				u64 tries = 0;
				u64 sh = st == 5 ? std::max<u64>(2000, o.hang / 4) : o.hang;
				std::vector<u64> best = shrink(p, failing[f], sh, st == 5 ? 40 : 40, tries);
				int st2 = isolated(p, best, st == 5 ? o.hang : o.hang, true, &msg, &text, NULL);
				if (!bad(st2)) { best = failing[f]; isolated(p, best, hang, true, &msg, &text, NULL); }
				char path[1024]; snprintf(path, sizeof path, "%s/%s-%s-%016llx.replay", o.rdir.empty() ? "." : o.rdir.c_str(), p.id, p.name, (unsigned long long)hashBytes(best.data(), best.size() * 8));
				FILE *fp = fopen(path, "w");
				if (fp)
				{
					fprintf(fp, "prop %s\nproperty %s\nseed %llu\nshrink-attempts %llu\n", p.name, p.id, (unsigned long long)o.seed, (unsigned long long)tries);
					for (u64 c : best) fprintf(fp, "choice %llu\n", (unsigned long long)c);
					fprintf(fp, "--- case\n%s--- failure\n%s\n", text.c_str(), msg.c_str());
					fclose(fp);
				}
				violReplay = path; violMsg = msg;
				fprintf(stderr, "FAILED %s (%s)\n%s%s\n", p.name, p.id, text.c_str(), msg.c_str());
			}
			if (failing.empty()) break;
			}
			totE += E; totN += N; totD += D;
			u64 dist = SH->distinct - d0;
			u64 wall = now_ms() - t0;
			// Samples: replay a few fresh cases verbosely.
			int got = 0;
			for (u64 k = 0; k < 40 && got < 2 && !failed; k++)
			{
				std::string text, msg; std::vector<u64> none;
				SH->slots[0].quit = 0;
				int st = isolated(p, none, o.hang, true, &msg, &text, NULL, true, mix(o.seed * 31 + k));
				if (st != 1 || SH->slots[0].quit == 5) continue;
				if (text.size() > 1500) text = text.substr(0, 1500) + "...";
				jsamples += (jsamples.size() ? ",\n" : "") + ("{\"test\": " + jstr(p.name) + ", \"case\": " + jstr(text) + "}");
				got++;
			}
			char b[1024]; snprintf(b, sizeof b, "{\"test\": \"%s\", \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"discarded\": %llu, \"corpus\": %llu, \"coverage_features\": %llu, \"wall_ms\": %llu}",
				p.name, (unsigned long long)E, (unsigned long long)N, (unsigned long long)dist, (unsigned long long)D, (unsigned long long)C, (unsigned long long)F, (unsigned long long)wall);
			jprops += (jprops.size() ? ",\n" : "") + std::string(b);
			rules += (rules.size() ? "  " : "") + std::string(p.name) + ": " + p.rule;
			fprintf(stderr, "%-28s evals %9llu  nontrivial %9llu  distinct %8llu  discards %llu  corpus %llu  feats %llu  %llu ms%s\n", p.name, (unsigned long long)E, (unsigned long long)N, (unsigned long long)dist, (unsigned long long)D, (unsigned long long)C, (unsigned long long)F, (unsigned long long)wall, failed ? "  FAILED" : "");
			if (failed) break;
		}
		if (o.out.size())
		{
			FILE *fp = fopen(o.out.c_str(), "w");
			if (!fp) { perror("out"); return 2; }
			fprintf(fp, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"discarded\": %llu, \"unconfirmed_failures\": %llu,\n\"rule\": %s,\n\"tests\": [%s],\n\"samples\": [%s],\n\"violation\": %s, \"message\": %s}\n",
				(unsigned long long)totE, (unsigned long long)totN, (unsigned long long)SH->distinct, (unsigned long long)totD, (unsigned long long)flaky, jstr(rules).c_str(), jprops.c_str(), jsamples.c_str(), jstr(violReplay).c_str(), jstr(violMsg).c_str());
			fclose(fp);
		}
		return rc;
	}
}

extern "C"
{
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_8bit_counters_init(char *b, char *e) { if (b != e && pbt::nCnt < 64) { for (size_t i = 0; i < pbt::nCnt; i++) if (pbt::cntBeg[i] == (unsigned char *)b) return; pbt::cntBeg[pbt::nCnt] = (unsigned char *)b; pbt::cntEnd[pbt::nCnt++] = (unsigned char *)e; } }
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_pcs_init(const std::uintptr_t *, const std::uintptr_t *) {}
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_cmp1(std::uint8_t, std::uint8_t) {}
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_cmp2(std::uint16_t a, std::uint16_t b) { pbt::dictAdd(a); pbt::dictAdd(b); }
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_cmp4(std::uint32_t, std::uint32_t) {}
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_cmp8(std::uint64_t, std::uint64_t) {}
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_const_cmp1(std::uint8_t a, std::uint8_t) { pbt::dictAdd(a); }
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_const_cmp2(std::uint16_t a, std::uint16_t) { pbt::dictAdd(a); }
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_const_cmp4(std::uint32_t a, std::uint32_t) { pbt::dictAdd(a); }
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_const_cmp8(std::uint64_t a, std::uint64_t) { pbt::dictAdd(a); }
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_switch(std::uint64_t, std::uint64_t *c) { for (std::uint64_t i = 0; i < c[0] && i < 64; i++) pbt::dictAdd(c[2 + i]); }
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_div4(std::uint32_t) {}
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_div8(std::uint64_t) {}
	__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_gep(std::uintptr_t) {}
}

#ifndef PBT_NO_NEW
namespace pbt { long liveNew = 0; thread_local volatile int inNew = 0; }
// New memory never happens to be zero.
static void *pbtAlloc(size_t n) { pbt::inNew = pbt::inNew + 1; void *p = malloc(n); pbt::inNew = pbt::inNew - 1; if (p) memset(p, 0xA5, n < 8192 ? n : 8192); return p; }
static void pbtFree(void *p) { pbt::inNew = pbt::inNew + 1; free(p); pbt::inNew = pbt::inNew - 1; }
void *operator new(size_t n) { void *p = pbtAlloc(n ? n : 1); if (!p) throw std::bad_alloc(); __sync_fetch_and_add(&pbt::liveNew, 1); return p; }
void *operator new[](size_t n) { void *p = pbtAlloc(n); if (!p) throw std::bad_alloc(); __sync_fetch_and_add(&pbt::liveNew, 1); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { void *p = pbtAlloc(n ? n : 1); if (p) __sync_fetch_and_add(&pbt::liveNew, 1); return p; }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { void *p = pbtAlloc(n); if (p) __sync_fetch_and_add(&pbt::liveNew, 1); return p; }
void operator delete(void *p) noexcept { if (p) { __sync_fetch_and_add(&pbt::liveNew, -1); pbtFree(p); } }
void operator delete[](void *p) noexcept { if (p) { __sync_fetch_and_add(&pbt::liveNew, -1); pbtFree(p); } }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }
#endif

int main(int argc, char **argv) { return pbt::main_(argc, argv); }
