// Q01, Q02, H01, H02, H03, K01, V01: containers.
#include "pbt.h"
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include "templates/detachable_queue.h"
#include "templates/detachable_list.h"
#include "templates/detachable_ordered_hash.h"
#include "templates/packed_ordered_hash.h"
#include "templates/cache.h"
#include "templates/static_vector.h"
#include "templates/static_2d_array.h"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <algorithm>
using namespace CubicleSoft;
using pbt::Src; using pbt::u64; using pbt::quote;

namespace
{
	// Heap-owning value: ASan sees double frees and uses of dead values, liveNew sees leaks.
	// Trivially relocatable, as the packed hash requires.
	// A value that owns memory and knows its own address (as a short std::string does).
	bool moved;
	struct Tr
	{
		int *p; Tr *self;
		Tr() : p(new int(0)), self(this) {}
		Tr(int v) : p(new int(v)), self(this) {}
		Tr(const Tr &o) : p(new int(*o.p)), self(this) { o.ok(); }
		Tr &operator=(const Tr &o) { ok(); o.ok(); if (this != &o) *p = *o.p; return *this; }
		~Tr() { ok(); delete p; p = NULL; }
		bool operator==(const Tr &o) const { return *p == *o.p; }
		void ok() const { if (self != this) moved = true; }
		int v() const { ok(); return *p; }
	};
	// A value that can be neither copied nor moved.
	struct Fixed { int *p; Fixed() : p(new int(0)) {} ~Fixed() { delete p; p = NULL; } int v() const { return *p; } private: Fixed(const Fixed &); Fixed &operator=(const Fixed &); };
	struct LeakGuard
	{
		Src &s; long start; bool armed;
		LeakGuard(Src &s_) : s(s_), start(pbt::liveNew), armed(true) { moved = false; }
		void done() { if (moved) s.fail("a value was moved in memory without its constructor"); long d = pbt::liveNew - start; if (d) s.fail("%ld allocations %s after everything was destroyed", d < 0 ? -d : d, d > 0 ? "leaked" : "over-freed"); }
	};

	// ------------------------------------------------------------------ Queue
	template <class Q, bool COPY> void queueCase(Src &s)
	{
		typedef QueueNode<Tr> N;
		LeakGuard lg(s);
		{
			std::vector<std::unique_ptr<Q>> q; std::vector<std::vector<std::pair<N *, int>>> m(3);
			std::vector<std::pair<N *, int>> det;
			struct Fin { std::vector<std::pair<N *, int>> &d; ~Fin() { for (auto &x : d) delete x.first; } } fin{ det };
			for (int i = 0; i < 3; i++)
			{
				if (s.chance(20)) { int v = (int)s.uni(0, 99); q.emplace_back(new Q(Tr(v))); m[i].push_back({ q[i]->First(), v }); s.note("q%d = Queue(%d)", i, v); }
				else q.emplace_back(new Q());
			}
			unsigned n = (unsigned)s.len(60); size_t moves = 0, maxlen = 0;
			auto verify = [&](int i)
			{
				size_t k = 0; N *last = NULL;
				for (N *x = q[i]->First(); x; x = x->Next(), k++)
				{
					CHECK(s, k < m[i].size(), "q%d: more nodes than expected (%zu)", i, m[i].size());
					CHECK(s, (!m[i][k].first || x == m[i][k].first) && x->Value.v() == m[i][k].second, "q%d: node %zu is not the expected one (value %d, expected %d)", i, k, x->Value.v(), m[i][k].second);
					m[i][k].first = x;
					last = x;
				}
				CHECK(s, k == m[i].size(), "q%d: %zu nodes reachable, expected %zu", i, k, m[i].size());
				CHECK(s, q[i]->GetSize() == m[i].size(), "q%d: GetSize() %zu, expected %zu", i, q[i]->GetSize(), m[i].size());
				CHECK(s, q[i]->Last() == last, "q%d: Last() is wrong", i);
			};
			for (unsigned k = 0; k < n; k++)
			{
				int i = (int)s.draw(2), j = (int)s.draw(2); int v = (int)s.uni(0, 999);
				Q &A = *q[i];
				switch (s.weighted({ 6, 4, 6, 3, 3, 4, 3, 2, 2, 2, 1 }))
				{
					case 0: if (s.flip()) { N *x = A.Push(Tr(v)); CHECK(s, x && x->Value.v() == v, "Push returned a wrong node"); m[i].push_back({ x, v }); } else { Q &r = (A += Tr(v)); CHECK(s, &r == &A, "+= result"); m[i].push_back({ NULL, v }); } s.note("q%d push %d", i, v); break;
					case 1: { N *x = A.Unshift(Tr(v)); m[i].insert(m[i].begin(), { x, v }); s.note("q%d unshift %d", i, v); break; }
					case 2:
					{
						N *x = A.Shift(); s.note("q%d shift", i);
						if (m[i].empty()) { CHECK(s, !x, "Shift of an empty queue returned a node"); break; }
						CHECK(s, x == m[i][0].first && x->Value.v() == m[i][0].second, "Shift returned a wrong node");
						CHECK(s, x->Next() == NULL, "a detached node still links to the queue");
						det.push_back(m[i][0]); m[i].erase(m[i].begin()); moves++;
						break;
					}
					case 3: if (det.size() < 8) { N *x; if (s.flip()) { x = Q::CreateNode(Tr(v)); CHECK(s, x->Value.v() == v, "CreateNode(value) holds %d, expected %d", x->Value.v(), v); } else { x = Q::CreateNode(); x->Value = Tr(v); } det.push_back({ x, v }); s.note("create node %d", v); } break;
					case 4: case 5:
						if (det.size())
						{
							size_t d = s.draw(det.size() - 1); auto x = det[d]; det.erase(det.begin() + d); moves++;
							if (s.flip()) { CHECK(s, A.Unshift(x.first) == x.first, "Unshift(node) refused a detached node"); m[i].insert(m[i].begin(), x); s.note("q%d unshift node %d", i, x.second); }
							else { if (s.flip()) A += x.first; else CHECK(s, A.Push(x.first) == x.first, "Push(node) refused a detached node"); m[i].push_back(x); s.note("q%d push node %d", i, x.second); }
						}
						break;
					case 6: if (i != j) { A.DetachAllAndAppend(*q[j]); m[i].insert(m[i].end(), m[j].begin(), m[j].end()); m[j].clear(); s.note("q%d append all of q%d", i, j); moves++; } break;
					case 7: A.Empty(); m[i].clear(); s.note("q%d empty", i); break;
					case 8:
						if (m[i].size() >= 2)
						{
							// Attached nodes with a successor are refused.
							size_t d = s.draw(m[i].size() - 2); N *x = m[i][d].first;
							if (!x) break;
							CHECK(s, q[j]->Push(x) == NULL, "Push accepted an attached node");
							CHECK(s, q[j]->Unshift(x) == NULL, "Unshift accepted an attached node");
							s.note("q%d push/unshift attached node of q%d (refused)", j, i);
						}
						break;
					case 9:
						if constexpr (COPY) { *q[i] = *q[j]; if (i != j) { m[i] = m[j]; for (auto &x : m[i]) x.first = NULL; } s.note("q%d = q%d", i, j); }
						break;
					case 10:
						if constexpr (COPY) { std::unique_ptr<Q> c(new Q(*q[j])); q[i] = std::move(c); m[i] = m[j]; for (auto &x : m[i]) x.first = NULL; s.note("q%d copy-constructed from q%d", i, j); }
						break;
				}
				for (int t = 0; t < 3; t++) verify(t);
				for (auto &x : det) CHECK(s, x.first->Value.v() == x.second, "a detached node's value changed");
				maxlen = std::max(maxlen, m[i].size());
			}
			for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b) for (auto &x : m[a]) for (auto &y : m[b]) CHECK(s, x.first != y.first, "two queues share a node");
			if (moves >= 2 && maxlen >= 2) s.nontrivial();
		}
		lg.done();
	}

	// ------------------------------------------------------------------ List
	template <class L, bool COPY> void listCase(Src &s)
	{
		typedef ListNode<Tr> N;
		LeakGuard lg(s);
		{
			std::vector<std::unique_ptr<L>> q; std::vector<std::vector<std::pair<N *, int>>> m(3);
			std::vector<std::pair<N *, int>> det;
			struct Fin { std::vector<std::pair<N *, int>> &d; ~Fin() { for (auto &x : d) delete x.first; } } fin{ det };
			for (int i = 0; i < 3; i++)
			{
				if (s.chance(20)) { int v = (int)s.uni(0, 99); q.emplace_back(new L(Tr(v))); m[i].push_back({ q[i]->First(), v }); s.note("l%d = List(%d)", i, v); }
				else q.emplace_back(new L());
			}
			unsigned n = (unsigned)s.len(60); size_t moves = 0, mid = 0;
			auto verify = [&](int i)
			{
				size_t k = 0; N *last = NULL;
				for (N *x = q[i]->First(); x; x = x->Next(), k++)
				{
					CHECK(s, k < m[i].size(), "l%d: more nodes than expected (%zu)", i, m[i].size());
					CHECK(s, (!m[i][k].first || x == m[i][k].first) && x->Value.v() == m[i][k].second, "l%d: node %zu is not the expected one (value %d, expected %d)", i, k, x->Value.v(), m[i][k].second);
					CHECK(s, x->Prev() == last, "l%d: backward link of node %zu is wrong", i, k);
					m[i][k].first = x;
					last = x;
				}
				CHECK(s, k == m[i].size(), "l%d: %zu nodes reachable, expected %zu", i, k, m[i].size());
				CHECK(s, q[i]->GetSize() == m[i].size(), "l%d: GetSize() %zu, expected %zu", i, q[i]->GetSize(), m[i].size());
				CHECK(s, q[i]->Last() == last, "l%d: Last() is wrong", i);
			};
			for (unsigned k = 0; k < n; k++)
			{
				int i = (int)s.draw(2), j = (int)s.draw(2); int v = (int)s.uni(0, 999);
				L &A = *q[i]; size_t sz = m[i].size();
				switch (s.weighted({ 5, 3, 4, 4, 4, 4, 6, 6, 5, 4, 3, 3, 1, 2, 2, 1 }))
				{
					case 0: if (s.flip()) { N *x = A.Push(Tr(v)); m[i].push_back({ x, v }); } else { A += Tr(v); m[i].push_back({ NULL, v }); } s.note("l%d push %d", i, v); break;
					case 1: { N *x = A.Unshift(Tr(v)); m[i].insert(m[i].begin(), { x, v }); s.note("l%d unshift %d", i, v); break; }
					case 2: case 3:
					{
						bool pop = s.flip(); N *x = pop ? A.Pop() : A.Shift(); s.note("l%d %s", i, pop ? "pop" : "shift");
						if (!sz) { CHECK(s, !x, "removal from an empty list returned a node"); break; }
						auto e = pop ? m[i].back() : m[i][0];
						CHECK(s, x == e.first && x->Value.v() == e.second, "removal returned a wrong node");
						CHECK(s, !x->Next() && !x->Prev(), "a detached node still has links");
						det.push_back(e); m[i].erase(pop ? m[i].end() - 1 : m[i].begin()); moves++;
						break;
					}
					case 4: case 5:
						if (sz)
						{
							size_t d = s.draw(sz - 1); auto e = m[i][d]; if (!e.first) break;
							if (d && d + 1 < sz) mid++;
							if (s.flip()) { CHECK(s, A.Detach(e.first), "Detach failed"); CHECK(s, !e.first->Next() && !e.first->Prev(), "a detached node still has links"); det.push_back(e); s.note("l%d detach #%zu", i, d); moves++; }
							else { CHECK(s, A.Remove(e.first), "Remove failed"); s.note("l%d remove #%zu", i, d); }
							m[i].erase(m[i].begin() + d);
						}
						else CHECK(s, !A.Detach(NULL) && !A.Remove(NULL), "Detach(NULL) succeeded");
						break;
					case 6: case 7:
					{
						bool before = s.flip(); size_t d = s.draw(sz); N *at = d < sz ? m[i][d].first : NULL;
						if (d < sz && !at) break;
						if (d && d + 1 < sz) mid++;
						size_t pos = at ? (before ? d : d + 1) : (before ? sz : 0);
						if (s.flip()) { N *x = before ? A.InsertBefore(at, Tr(v)) : A.InsertAfter(at, Tr(v)); CHECK(s, x && x->Value.v() == v, "insert returned a wrong node"); m[i].insert(m[i].begin() + pos, { x, v }); s.note("l%d insert %s #%zu value %d", i, before ? "before" : "after", d, v); }
						else if (det.size())
						{
							size_t e = s.draw(det.size() - 1); auto x = det[e]; det.erase(det.begin() + e);
							N *r = before ? A.InsertBefore(at, x.first) : A.InsertAfter(at, x.first);
							CHECK(s, r == x.first, "insert refused a detached node"); m[i].insert(m[i].begin() + pos, x); s.note("l%d insert %s #%zu node %d", i, before ? "before" : "after", d, x.second); moves++;
						}
						break;
					}
					case 8: if (det.size() < 8) { N *x; if (s.flip()) { x = L::CreateNode(Tr(v)); CHECK(s, x->Value.v() == v, "CreateNode(value) holds %d, expected %d", x->Value.v(), v); } else { x = L::CreateNode(); x->Value = Tr(v); } det.push_back({ x, v }); s.note("create node %d", v); } break;
					case 9:
						if (det.size())
						{
							size_t d = s.draw(det.size() - 1); auto x = det[d]; det.erase(det.begin() + d); moves++;
							if (s.flip()) { CHECK(s, A.Unshift(x.first) == x.first, "Unshift(node) refused a detached node"); m[i].insert(m[i].begin(), x); s.note("l%d unshift node %d", i, x.second); }
							else { if (s.flip()) A += x.first; else CHECK(s, A.Push(x.first) == x.first, "Push(node) refused a detached node"); m[i].push_back(x); s.note("l%d push node %d", i, x.second); }
						}
						break;
					case 10: case 11: if (i != j) { A.DetachAllAndAppend(*q[j]); m[i].insert(m[i].end(), m[j].begin(), m[j].end()); m[j].clear(); s.note("l%d append all of l%d", i, j); moves++; } break;
					case 12: A.Empty(); m[i].clear(); s.note("l%d empty", i); break;
					case 13:
						if (sz >= 2)
						{
							N *x = m[i][s.draw(sz - 1)].first; if (!x) break;
							CHECK(s, !q[j]->Push(x) && !q[j]->Unshift(x), "an attached node was accepted"); s.note("l%d insert attached node of l%d (refused)", j, i);
						}
						break;
					case 14: if constexpr (COPY) { *q[i] = *q[j]; if (i != j) { m[i] = m[j]; for (auto &x : m[i]) x.first = NULL; } s.note("l%d = l%d", i, j); } break;
					case 15: if constexpr (COPY) { std::unique_ptr<L> c(new L(*q[j])); q[i] = std::move(c); m[i] = m[j]; for (auto &x : m[i]) x.first = NULL; s.note("l%d copy-constructed from l%d", i, j); } break;
				}
				for (int t = 0; t < 3; t++) verify(t);
				for (auto &x : det) CHECK(s, x.first->Value.v() == x.second, "a detached node's value changed");
			}
			for (int a = 0; a < 3; a++) for (int b = 0; b < a; b++) for (auto &x : m[a]) for (auto &y : m[b]) CHECK(s, x.first != y.first, "two lists share a node");
			if (moves >= 2 && mid >= 1) s.nontrivial();
		}
		lg.done();
	}

	// ------------------------------------------------------------------ Hash keys
	struct Key { bool str; std::int64_t i; std::string t; bool operator==(const Key &o) const { return str == o.str && (str ? t == o.t : i == o.i); } bool operator<(const Key &o) const { return str != o.str ? str < o.str : str ? t < o.t : i < o.i; } };
	// seed: of the fast hash in use, for keys whose hashes are all equal.
	Key genKey(Src &s, unsigned spread, u64 seed)
	{
		Key k; k.i = 0;
		switch (s.weighted({ 6, 2, 4, 2, 2, 3 }))
		{
			case 0: k.str = false; k.i = s.irange(-3, (std::int64_t)spread); break;
			case 1: k.str = false; k.i = s.i64any(); break;
			case 2: { k.str = true; size_t n = s.uni(0, 3); k.t = s.bytes(n, "ab"); break; }
			case 3: { k.str = true; std::int64_t v = s.irange(-3, 12); k.t.assign((char *)&v, 8); break; }      // Same bytes as an integer key.
			case 5: { std::uint32_t w[2]; w[0] = (std::uint32_t)s.uni(0, 5); w[1] = (((std::uint32_t)seed * 33) ^ w[0]) * 33 ^ 0x1234567; k.str = s.flip(); if (k.str) k.t.assign((char *)w, 8); else memcpy(&k.i, w, 8); break; }
			default: { k.str = true; k.t = s.bytes(s.chance(5) ? s.range(200, 700) : s.len(40)); if (s.flip()) k.t.push_back('\0'); break; }
		}
		return k;
	}
	std::string kq(const Key &k) { return k.str ? quote(k.t) : std::to_string(k.i); }

	// Exact-size heap copy so that over-reads of keys are seen.
	struct Buf { char *p; Buf(const std::string &x) : p((char *)malloc(x.size())) { memcpy(p, x.data(), x.size()); } ~Buf() { free(p); } };

	template <class H, bool COPY> void orderedCase(Src &s)
	{
		typedef OrderedHashNode<Tr> N;
		struct E { Key k; int v; N *n; };
		LeakGuard lg(s);
		{
			bool own = s.chance(40), sip = s.flip(); u64 k1 = s.u64any(), k2 = s.u64any();
			auto mk = [&]() { if (own) { sip = s.flip(); k1 = s.chance(20) ? 5381 : s.u64any(); k2 = s.u64any(); } size_t est = s.range(0, 64); s.note("%s key1 %llu key2 %llu size %zu", sip ? "SipHash" : "DJB", (unsigned long long)k1, (unsigned long long)k2, est); return sip ? new H(est, k1, k2) : s.flip() && k1 == 5381 ? new H(est) : new H(est, k1); };
			std::vector<std::unique_ptr<H>> q; std::vector<std::vector<E>> m(3); std::vector<E> det;
			struct Fin { std::vector<E> &d; ~Fin() { for (auto &x : d) delete x.n; } } fin{ det };
			for (int i = 0; i < 3; i++) q.emplace_back(mk());
			unsigned spread = (unsigned)s.uni(2, 40), n = (unsigned)s.len(70); size_t dups = 0, found = 0, removals = 0;
			std::vector<Key> seenKeys;
			auto idx = [&](int i, const Key &k) -> int { for (size_t x = 0; x < m[i].size(); x++) if (m[i][x].k == k) return (int)x; return -1; };
			auto find = [&](int i, const Key &k) -> N * { if (!k.str) return q[i]->Find(k.i); Buf b(k.t); return q[i]->Find(b.p, k.t.size()); };
			auto keyOf = [&](N *x) -> Key { Key k; k.str = x->GetStrKey() != NULL; k.i = x->GetIntKey(); if (k.str) k.t.assign(x->GetStrKey(), (size_t)k.i); return k; };
			// Hashes with different keys: nodes that move must not keep the hash key of the other one.
			auto rekey = [&](E &x) { if (!own) return; if (x.k.str) { Buf b(x.k.t); x.n->SetStrKey(b.p, x.k.t.size(), true); } else x.n->SetIntKey(x.k.i, true); };
			auto verify = [&](int i)
			{
				size_t k = 0; N *last = NULL;
				for (N *x = q[i]->FirstList(); x; x = x->NextList(), k++)
				{
					CHECK(s, k < m[i].size(), "h%d: more nodes than expected (%zu)", i, m[i].size());
					CHECK(s, !m[i][k].n || x == m[i][k].n, "h%d: node %zu is not the expected one", i, k);
					CHECK(s, keyOf(x) == m[i][k].k && x->Value.v() == m[i][k].v, "h%d: entry %zu is %s=>%d, expected %s=>%d", i, k, kq(keyOf(x)).c_str(), x->Value.v(), kq(m[i][k].k).c_str(), m[i][k].v);
					CHECK(s, x->PrevList() == last, "h%d: backward link of entry %zu is wrong", i, k);
					m[i][k].n = x; last = x;
				}
				CHECK(s, k == m[i].size(), "h%d: %zu entries reachable, expected %zu", i, k, m[i].size());
				CHECK(s, q[i]->GetListSize() == m[i].size(), "h%d: GetListSize() %zu, expected %zu", i, q[i]->GetListSize(), m[i].size());
				CHECK(s, q[i]->LastList() == last, "h%d: LastList() is wrong", i);
			};
			auto verifyKeys = [&](int i)
			{
				for (auto &e : m[i]) { N *x = find(i, e.k); CHECK(s, x == e.n, "h%d: Find(%s) returns %s", i, kq(e.k).c_str(), x ? "a wrong node" : "nothing"); CHECK(s, q[i]->Find(e.n) == e.n, "h%d: Find(node) fails for %s", i, kq(e.k).c_str()); }
				for (auto &k : seenKeys) if (idx(i, k) < 0) CHECK(s, !find(i, k), "h%d: Find(%s) finds a key that is not there", i, kq(k).c_str());
				// By a node of the caller that is in no hash.
				for (auto &k : seenKeys) { N probe; if (k.str) { Buf b(k.t); probe.SetStrKey(b.p, k.t.size(), true); } else probe.SetIntKey(k.i, false); CHECK(s, q[i]->Find(&probe) == find(i, k), "h%d: Find(node with the key %s) and Find(key) differ", i, kq(k).c_str()); }
				size_t inHash = 0;
				for (size_t b = 0; b < q[i]->GetHashSize(); b++) { N *p = NULL; for (N *x = q[i]->RawHash()[b]; x; p = x, x = x->NextHash()) { inHash++; CHECK(s, x->PrevHash() == p, "h%d: hash chain back link is wrong", i); CHECK(s, inHash <= m[i].size(), "h%d: hash chains hold extra nodes", i); } }
				CHECK(s, inHash == m[i].size(), "h%d: hash chains hold %zu nodes, expected %zu", i, inHash, m[i].size());
			};
			for (unsigned k = 0; k < n; k++)
			{
				int i = (int)s.draw(2), j = (int)s.draw(2); H &A = *q[i]; int v = (int)s.uni(0, 999); size_t sz = m[i].size();
				switch (s.weighted({ 12, 6, 5, 6, 6, 4, 5, 3, 2, 1, 2, 2, 2, 3 }))
				{
					case 0: case 1:
					{
						// Insert by key and value at an end or next to an entry.
						Key key = genKey(s, spread, k1); seenKeys.push_back(key); if (seenKeys.size() > 12) seenKeys.erase(seenKeys.begin());
						unsigned how = (unsigned)s.draw(3); size_t d = s.draw(sz); N *at = d < sz ? m[i][d].n : NULL; if (d < sz && !at) at = NULL;
						size_t pos; N *x; int at_ = at ? (int)d : -1; Buf b(key.t);
						switch (how)
						{
							case 0: pos = sz; x = key.str ? A.Push(b.p, key.t.size(), Tr(v)) : A.Push(key.i, Tr(v)); break;
							case 1: pos = 0; x = key.str ? A.Unshift(b.p, key.t.size(), Tr(v)) : A.Unshift(key.i, Tr(v)); break;
							case 2: pos = at ? d : sz; x = key.str ? A.InsertBefore(at, b.p, key.t.size(), Tr(v)) : A.InsertBefore(at, key.i, Tr(v)); break;
							default: pos = at ? d + 1 : 0; x = key.str ? A.InsertAfter(at, b.p, key.t.size(), Tr(v)) : A.InsertAfter(at, key.i, Tr(v)); break;
						}
						static const char *hn[] = { "push", "unshift", "insert-before", "insert-after" };
						s.note("h%d %s(%d) %s => %d: %s", i, hn[how], at_, kq(key).c_str(), v, x ? "ok" : "refused");
						if (idx(i, key) >= 0) { CHECK(s, !x, "a second entry with key %s was accepted", kq(key).c_str()); dups++; }
						else { CHECK(s, x, "a new key %s was refused", kq(key).c_str()); m[i].insert(m[i].begin() + pos, E{ key, v, x }); }
						break;
					}
					case 2: if (det.size() < 8)
					{
						Key key = genKey(s, spread, k1); Buf b(key.t); N *x;
						switch (s.draw(2)) { case 0: x = key.str ? H::CreateNode(b.p, key.t.size(), Tr(v)) : H::CreateNode(key.i, Tr(v)); break;
							case 1: x = H::CreateNode(); x->Value = Tr(v); if (key.str) x->SetStrKey(b.p, key.t.size(), true); else x->SetIntKey(key.i, true); break;
							default: x = H::CreateNode(); x->Value = Tr(v); if (key.str) { char *own = new char[key.t.size()]; memcpy(own, key.t.data(), key.t.size()); x->SetStrKey(own, key.t.size(), false); } else x->SetIntKey(key.i, false); break; }
						det.push_back(E{ key, v, x }); s.note("create node %s => %d", kq(key).c_str(), v);
						break;
					}
					case 3: if (det.size())
					{
						// Attach a detached node.
						size_t e = s.draw(det.size() - 1); E x = det[e]; unsigned how = (unsigned)s.draw(3); size_t d = s.draw(sz); N *at = d < sz ? m[i][d].n : NULL; size_t pos; N *r;
						// Chains of detached nodes may be forged through NextListNode.
						if (s.chance(25)) x.n->NextListNode = det[s.draw(det.size() - 1)].n;
						switch (how) { case 0: pos = sz; r = A.Push(x.n); break; case 1: pos = 0; r = A.Unshift(x.n); break; case 2: pos = at ? d : sz; r = A.InsertBefore(at, x.n); break; default: pos = at ? d + 1 : 0; r = A.InsertAfter(at, x.n); break; }
						s.note("h%d attach node %s (mode %u at %zu): %s", i, kq(x.k).c_str(), how, d, r ? "ok" : "refused");
						if (idx(i, x.k) >= 0) { CHECK(s, !r, "a second entry with key %s was accepted", kq(x.k).c_str()); dups++; rekey(det[e]); }
						else { CHECK(s, r == x.n, "a detached node with a new key was refused"); m[i].insert(m[i].begin() + pos, x); det.erase(det.begin() + e); }
						break;
					}
					case 4: case 5:
					{
						unsigned how = (unsigned)s.draw(3); bool rs = s.flip() || own; N *x; size_t d; 
						if (!sz) { CHECK(s, !A.Pop(rs) && !A.Shift(rs) && !A.Detach(NULL, rs) && !A.Remove(NULL), "removal from an empty hash succeeded"); break; }
						if (how == 0) { d = sz - 1; x = A.Pop(rs); } else if (how == 1) { d = 0; x = A.Shift(rs); } else { d = s.draw(sz - 1); x = m[i][d].n; if (!x) break; if (how == 3) { CHECK(s, A.Remove(x), "Remove failed"); s.note("h%d remove #%zu", i, d); m[i].erase(m[i].begin() + d); removals++; break; } CHECK(s, A.Detach(x, rs), "Detach failed"); }
						s.note("h%d detach #%zu (mode %u, reset %d)", i, d, how, rs);
						CHECK(s, x == m[i][d].n, "a wrong node was detached");
						CHECK(s, !x->NextList() && !x->PrevList() && !x->NextHash() && !x->PrevHash(), "a detached node still has links");
						det.push_back(m[i][d]); m[i].erase(m[i].begin() + d); removals++;
						break;
					}
					case 6: { Key key = genKey(s, spread, k1); N *x = find(i, key); int d = idx(i, key); s.note("h%d find %s: %d", i, kq(key).c_str(), x != NULL); CHECK(s, d < 0 ? !x : x == m[i][d].n, "Find(%s) is wrong", kq(key).c_str()); if (x) { found++; x->Value = Tr(v); m[i][d].v = v; } break; }
					case 7: { size_t ns = s.range(1, 200); CHECK(s, A.ResizeHash(ns), "ResizeHash failed"); CHECK(s, A.GetHashSize() == ns, "GetHashSize() after ResizeHash"); CHECK(s, !A.ResizeHash(0), "ResizeHash(0) succeeded"); s.note("h%d resize %zu", i, ns); break; }
					case 8:
					{
						bool del = s.flip(), rs = s.flip() || own; s.note("h%d empty(delete %d, reset %d)", i, del, rs);
						if (!del && det.size() + sz > 40) del = true;
						A.Empty(del, rs);
						if (!del) for (auto &e : m[i]) det.push_back(e);
						m[i].clear(); removals++;
						break;
					}
					case 9:
					{
						// Bulk: crosses automatic growth.
						size_t cnt = s.range(10, 120); std::int64_t base = s.irange(0, 1000);
						for (size_t t = 0; t < cnt; t++) { Key key{ false, base + (std::int64_t)t * 7, "" }; N *x = A.Push(key.i, Tr((int)t)); CHECK(s, (x != NULL) == (idx(i, key) < 0), "bulk push of %lld", (long long)key.i); if (x) m[i].push_back(E{ key, (int)t, x }); }
						s.note("h%d bulk push %zu from %lld", i, cnt, (long long)base);
						break;
					}
					case 10: if constexpr (COPY) { *q[i] = *q[j]; if (i != j) { m[i] = m[j]; for (auto &x : m[i]) x.n = NULL; } s.note("h%d = h%d", i, j); } break;
					case 11: if constexpr (COPY) { std::unique_ptr<H> c(new H(*q[j])); q[i] = std::move(c); m[i] = m[j]; for (auto &x : m[i]) x.n = NULL; s.note("h%d copy-constructed from h%d", i, j); } break;
					case 12: if (det.size())
					{
						// Rename a detached node.
						E &x = det[s.draw(det.size() - 1)]; Key key = genKey(s, spread, k1); Buf b(key.t);
						if (key.str) x.n->SetStrKey(b.p, key.t.size(), true); else x.n->SetIntKey(key.i, true);
						x.k = key; s.note("rename detached node to %s", kq(key).c_str());
						break;
					}
					case 13:
					{
						// Copies of a node carry its data only.
						N *src = sz ? m[i][s.draw(sz - 1)].n : NULL; if (!src || det.size() > 8) break;
						N *c; if (s.flip()) c = new N(*src); else { c = H::CreateNode(s.irange(0, 5), Tr(1)); if (s.flip()) c->SetStrKey("abcdef", s.uni(0, 6), true); *c = *src; }
						Key key = keyOf(src); E x{ key, src->Value.v(), c }; CHECK(s, keyOf(c) == key && c->Value.v() == x.v, "node copy differs");
						rekey(x); det.push_back(x); s.note("copy node %s of h%d", kq(key).c_str(), i);
						break;
					}
				}
				for (int t = 0; t < 3; t++) verify(t);
				verifyKeys(i);
				for (auto &x : det) CHECK(s, keyOf(x.n) == x.k && x.n->Value.v() == x.v, "a detached node's data changed");
			}
			for (int t = 0; t < 3; t++) verifyKeys(t);
			if (removals && (dups || found)) s.nontrivial();
		}
		lg.done();
	}

	template <class H, bool COPY> void packedCase(Src &s)
	{
		typedef PackedOrderedHashNode<Tr> N;
		struct E { Key k; int v; };
		LeakGuard lg(s);
		{
			bool own = s.chance(40), sip = s.flip(); u64 k1 = s.u64any(), k2 = s.u64any();
			auto mk = [&]() { if (own) { sip = s.flip(); k1 = s.u64any(); k2 = s.u64any(); } size_t est = s.range(0, 40); s.note("%s key1 %llu key2 %llu size %zu", sip ? "SipHash" : "DJB", (unsigned long long)k1, (unsigned long long)k2, est); return sip ? new H(est, k1, k2) : new H(est, k1); };
			std::vector<std::unique_ptr<H>> q; std::vector<std::vector<E>> m(2);
			for (int i = 0; i < 2; i++) q.emplace_back(mk());
			unsigned spread = (unsigned)s.uni(2, 40), n = (unsigned)s.len(70); size_t unsets = 0, moved = 0, hits = 0;
			std::vector<Key> seenKeys;
			auto idx = [&](int i, const Key &k) -> int { for (size_t x = 0; x < m[i].size(); x++) if (m[i][x].k == k) return (int)x; return -1; };
			auto keyOf = [&](N *x) -> Key { Key k; k.str = x->GetStrKey() != NULL; k.i = k.str ? 0 : x->GetIntKey(); if (k.str) k.t.assign(x->GetStrKey(), x->GetStrLen()); return k; };
			auto find = [&](int i, const Key &k, size_t &pos) -> N * { if (!k.str) return q[i]->Find(k.i, pos); Buf b(k.t); return q[i]->Find(b.p, k.t.size(), pos); };
			auto verify = [&](int i)
			{
				H &A = *q[i];
				CHECK(s, A.GetSize() == m[i].size(), "p%d: GetSize() %zu, expected %zu", i, A.GetSize(), m[i].size());
				CHECK(s, A.GetNextPos() >= A.GetSize() && A.GetHashSize() >= A.GetNextPos(), "p%d: size %zu, next position %zu, capacity %zu", i, A.GetSize(), A.GetNextPos(), A.GetHashSize());
				size_t pos = A.GetNextPos(), k = 0, lastpos = 0;
				while (N *x = A.Next(pos))
				{
					CHECK(s, k < m[i].size(), "p%d: iteration yields more than %zu entries", i, m[i].size());
					CHECK(s, keyOf(x) == m[i][k].k && x->Value.v() == m[i][k].v, "p%d: entry %zu is %s=>%d, expected %s=>%d", i, k, kq(keyOf(x)).c_str(), x->Value.v(), kq(m[i][k].k).c_str(), m[i][k].v);
					CHECK(s, A.GetPos(x) == pos && A.Get(pos) == x, "p%d: Get/GetPos disagree with iteration at %zu", i, pos);
					CHECK(s, k == 0 || pos > lastpos, "p%d: positions not increasing", i);
					lastpos = pos; k++;
				}
				CHECK(s, k == m[i].size(), "p%d: iteration yields %zu entries, expected %zu", i, k, m[i].size());
				CHECK(s, pos >= A.GetNextPos(), "p%d: Next() ended at a position inside the table", i);
				while (N *x = A.Prev(pos)) { CHECK(s, k > 0, "p%d: backward iteration yields too many entries", i); k--; CHECK(s, keyOf(x) == m[i][k].k, "p%d: backward iteration differs at %zu", i, k); }
				CHECK(s, k == 0, "p%d: backward iteration stops early (%zu left)", i, k);
				// Either direction starts over after its end, and any position past the end is the end.
				N *x = A.Prev(pos); CHECK(s, m[i].empty() ? !x : x && keyOf(x) == m[i].back().k, "p%d: backward iteration does not start over at the end", i);
				pos = A.GetNextPos() + 1 + (m[i].size() & 1 ? 0 : ((size_t)1 << 40)); x = A.Prev(pos); CHECK(s, m[i].empty() ? !x : x && keyOf(x) == m[i].back().k, "p%d: backward iteration from a position past the end does not start at the end", i);
				pos = A.GetNextPos() + 1; x = A.Next(pos); CHECK(s, m[i].empty() ? !x : x && keyOf(x) == m[i][0].k, "p%d: forward iteration from a position past the end does not start at the beginning", i); while (A.Next(pos)) {} x = A.Next(pos); CHECK(s, m[i].empty() ? !x : x && keyOf(x) == m[i][0].k, "p%d: forward iteration does not start over at the beginning", i);
				size_t used = 0; for (size_t x = 0; x < A.GetHashSize() + 2; x++) if (A.Get(x)) used++;
				CHECK(s, used == m[i].size(), "p%d: Get() sees %zu entries, expected %zu", i, used, m[i].size());
			};
			auto verifyKeys = [&](int i)
			{
				size_t pos;
				for (auto &e : m[i]) { N *x = find(i, e.k, pos); { Buf b(e.k.t); CHECK(s, (e.k.str ? q[i]->Find(b.p, e.k.t.size()) : q[i]->Find(e.k.i)) == x, "p%d: Find() with and without a position differ", i); } CHECK(s, x && keyOf(x) == e.k && x->Value.v() == e.v, "p%d: Find(%s) %s", i, kq(e.k).c_str(), x ? "returns a wrong entry" : "finds nothing"); CHECK(s, q[i]->Get(pos) == x, "p%d: Find position wrong", i); }
				for (auto &k : seenKeys) if (idx(i, k) < 0) CHECK(s, !find(i, k, pos), "p%d: Find(%s) finds a key that is not there", i, kq(k).c_str());
			};
			for (unsigned k = 0; k < n; k++)
			{
				int i = (int)s.draw(1), j = (int)s.draw(1); H &A = *q[i]; int v = (int)s.uni(0, 999); size_t sz = m[i].size();
				switch (s.weighted({ 16, 8, 3, 4, 3, 2, 3, 2, 2, 2, 2 }))
				{
					case 0:
					{
						Key key = genKey(s, spread, k1); seenKeys.push_back(key); if (seenKeys.size() > 12) seenKeys.erase(seenKeys.begin());
						bool val = s.flip(); Buf b(key.t); int d = idx(i, key);
						// The value may be that of an entry of the same hash.
						N *from = val && sz && s.chance(25) ? A.Next(*std::unique_ptr<size_t>(new size_t(A.GetNextPos() ? s.draw(A.GetNextPos()) : 0))) : NULL; if (from) { v = from->Value.v(); s.note("p%d: the value of %s", i, kq(keyOf(from)).c_str()); }
						N *x = from ? (key.str ? A.Set(b.p, key.t.size(), from->Value) : A.Set(key.i, from->Value)) : val ? (key.str ? A.Set(b.p, key.t.size(), Tr(v)) : A.Set(key.i, Tr(v))) : (key.str ? A.Set(b.p, key.t.size()) : A.Set(key.i));
						s.note("p%d set %s => %d%s", i, kq(key).c_str(), v, val ? "" : " (no value)");
						CHECK(s, x && keyOf(x) == key, "Set returned a wrong entry");
						if (d < 0) { CHECK(s, x->Value.v() == (val ? v : 0), "new entry has value %d", x->Value.v()); m[i].push_back(E{ key, val ? v : 0 }); }
						else { hits++; if (val) m[i][d].v = v; CHECK(s, x->Value.v() == m[i][d].v, "existing entry has value %d", x->Value.v()); }
						if (!val) { x->Value = Tr(v); m[i][d < 0 ? m[i].size() - 1 : d].v = v; }
						break;
					}
					case 1: case 2:
					{
						Key key = sz && s.chance(70) ? m[i][s.draw(sz - 1)].k : genKey(s, spread, k1); int d = idx(i, key); Buf b(key.t); bool r; size_t pos;
						if (s.chance(30)) { N *x = find(i, key, pos); r = A.Unset(x); if (x) CHECK(s, !A.Unset(x), "a second Unset of the same entry succeeded"); } else r = key.str ? A.Unset(b.p, key.t.size()) : A.Unset(key.i);
						s.note("p%d unset %s: %d", i, kq(key).c_str(), r);
						CHECK(s, r == (d >= 0), "Unset(%s) returned %d", kq(key).c_str(), r);
						if (r) { m[i].erase(m[i].begin() + d); unsets++; }
						break;
					}
					case 3: { bool so = A.ShouldOptimize(); if (so) CHECK(s, A.GetNextPos() > A.GetSize(), "ShouldOptimize() with nothing to compact"); CHECK(s, A.Optimize(), "Optimize failed"); CHECK(s, A.GetNextPos() == sz, "GetNextPos() %zu after Optimize with %zu entries", A.GetNextPos(), sz); s.note("p%d optimize", i); moved++; break; }
					case 4: A.AutoResizeHash(); s.note("p%d auto resize -> %zu", i, A.GetHashSize()); moved++; break;
					case 5: { size_t ns = s.range(1, 1200); A.ResizeHash(ns); s.note("p%d resize %zu -> %zu", i, ns, A.GetHashSize()); moved++; break; }
					case 6:
					{
						size_t cnt = s.range(5, 150); std::int64_t base = s.irange(0, 1000);
						for (size_t t = 0; t < cnt; t++) { Key key{ false, base + (std::int64_t)t * 3, "" }; if (t % 5 == 4) { key.str = true; key.i = 0; key.t = "k" + std::to_string(base + t); } int d = idx(i, key); if (key.str) A.Set(key.t.data(), key.t.size(), Tr((int)t)); else A.Set(key.i, Tr((int)t)); if (d < 0) m[i].push_back(E{ key, (int)t }); else m[i][d].v = (int)t; }
						s.note("p%d bulk set %zu from %lld", i, cnt, (long long)base);
						break;
					}
					case 7:
					{
						// Bulk unset with a stride.
						if (!sz) break;
						size_t st = s.uni(1, 4), off = s.draw(st - 1); std::vector<E> keep;
						for (size_t t = 0; t < sz; t++) { if ((t + off) % st) { keep.push_back(m[i][t]); continue; } Key &key = m[i][t].k; CHECK(s, key.str ? A.Unset(key.t.data(), key.t.size()) : A.Unset(key.i), "bulk Unset(%s) failed", kq(key).c_str()); unsets++; }
						m[i] = keep; s.note("p%d bulk unset every %zu", i, st);
						break;
					}
					case 8: if constexpr (COPY) { *q[i] = *q[j]; m[i] = m[j]; s.note("p%d = p%d", i, j); moved++; } break;
					case 9: if constexpr (COPY) { std::unique_ptr<H> c(new H(*q[j])); q[i] = std::move(c); m[i] = m[j]; s.note("p%d copy-constructed from p%d", i, j); moved++; } break;
					case 10: { Key key = genKey(s, spread, k1); size_t pos; N *x = find(i, key, pos); int d = idx(i, key); s.note("p%d find %s: %d", i, kq(key).c_str(), x != NULL); CHECK(s, (x != NULL) == (d >= 0), "Find(%s) is wrong", kq(key).c_str()); break; }
				}
				for (int t = 0; t < 2; t++) verify(t);
				verifyKeys(i);
			}
			for (int t = 0; t < 2; t++) verifyKeys(t);
			if (unsets && (moved || hits)) s.nontrivial();
		}
		lg.done();
	}

	// ------------------------------------------------------------------ Cache
	template <class C, bool COPY> void cacheCase(Src &s)
	{
		struct E { bool used; std::string k; int v; };
		LeakGuard lg(s);
		{
			std::vector<std::unique_ptr<C>> q; std::vector<std::vector<E>> m(2);
			for (int i = 0; i < 2; i++) { size_t n = s.range(1, 24); q.emplace_back(new C(n)); m[i].assign(n, E{ false, "", 0 }); s.note("c%d size %zu", i, n); }
			unsigned n = (unsigned)s.len(60); size_t overw = 0, hit = 0, miss = 0;
			for (unsigned k = 0; k < n; k++)
			{
				int i = (int)s.draw(1), j = (int)s.draw(1); C &A = *q[i];
				std::string key = s.bytes(s.uni(0, 2), "abc"); size_t h = s.chance(60) ? (size_t)s.uni(0, 8) : (size_t)s.u64any(); int v = (int)s.uni(0, 999);
				E &e = m[i][h % m[i].size()];
				switch (s.weighted({ 8, 4, 4, 6, 1, 2, 1, 1 }))
				{
					case 0: A.Insert(h, key, Tr(v)); if (e.used && e.k != key) overw++; e = E{ true, key, v }; s.note("c%d insert %zu %s=%d", i, h, key.c_str(), v); break;
					case 1: { bool r = A.Remove(h, key); s.note("c%d remove %zu %s: %d", i, h, key.c_str(), r); CHECK(s, r == (e.used && e.k == key), "Remove returned %d", r); if (r) e.used = false; break; }
					case 2: { bool r = A.Exists(h, key); s.note("c%d exists %zu %s: %d", i, h, key.c_str(), r); CHECK(s, r == (e.used && e.k == key), "Exists returned %d", r); break; }
					case 3: { Tr out(-7); bool r = A.Find(out, h, key); s.note("c%d find %zu %s: %d", i, h, key.c_str(), r); CHECK(s, r == (e.used && e.k == key), "Find returned %d", r); CHECK(s, out.v() == (r ? e.v : -7), "Find produced %d", out.v()); if (r) hit++; else miss++; break; }
					case 4: A.Empty(); for (auto &x : m[i]) x.used = false; s.note("c%d empty", i); break;
					case 5: if constexpr (COPY) { *q[i] = *q[j]; m[i] = m[j]; s.note("c%d = c%d", i, j); } break;
					case 6: if constexpr (COPY) { std::unique_ptr<C> c(new C(*q[j])); q[i] = std::move(c); m[i] = m[j]; s.note("c%d copy of c%d", i, j); } break;
					case 7: CHECK(s, A.GetSize() == m[i].size(), "GetSize() %zu", A.GetSize()); break;
				}
				for (int t = 0; t < 2; t++)
				{
					CHECK(s, q[t]->GetSize() == m[t].size(), "GetSize() %zu, expected %zu", q[t]->GetSize(), m[t].size());
					for (size_t x = 0; x < m[t].size(); x++)
					{
						auto &nd = q[t]->RawData()[x];
						CHECK(s, nd.Used == m[t][x].used, "c%d slot %zu used=%d, expected %d", t, x, nd.Used, m[t][x].used);
						if (nd.Used) { CHECK(s, nd.Key == m[t][x].k && nd.Value.v() == m[t][x].v, "c%d slot %zu holds a wrong entry", t, x); Tr out; CHECK(s, q[t]->Find(out, x, m[t][x].k) && out.v() == m[t][x].v, "c%d: entry in slot %zu cannot be found", t, x); }
					}
				}
			}
			if (hit && miss && overw) s.nontrivial();
		}
		lg.done();
	}
}

// ------------------------------------------------------------------ Large containers
namespace
{
	size_t bigN(Src &s) { switch (s.weighted({ 3, 2, 3, 1 })) { case 0: return s.range(1, 3000); case 1: return 254 + s.uni(0, 4); case 2: return 65530 + s.uni(0, 12); default: return s.range(3000, 90000); } }
	const size_t MAXBIG = 150000;
	template <class Q> void queueLarge(Src &s)
	{
		LeakGuard lg(s); size_t big = 0;
		{
			Q q[2]; std::deque<int> m[2]; int next = 1; unsigned n = (unsigned)s.uni(1, 5);
			for (unsigned k = 0; k < n; k++)
			{
				int i = (int)s.draw(1); size_t c = bigN(s); if (m[i].size() + c > MAXBIG) c = 1; unsigned op = s.weighted({ 4, 3, 3, 3, 1 }); s.note("q%d: operation %u, %zu times", i, op, c);
				switch (op)
				{
					case 0: while (c--) { q[i].Push(next); m[i].push_back(next++); } break;
					case 1: while (c--) { q[i].Unshift(next); m[i].push_front(next++); } break;
					case 2: while (c-- && m[i].size()) { auto *x = q[i].Shift(); CHECK(s, x && x->Value == m[i].front(), "Shift() gave a wrong node at size %zu", m[i].size()); delete x; m[i].pop_front(); } break;
					case 3: q[i].DetachAllAndAppend(q[!i]); m[i].insert(m[i].end(), m[!i].begin(), m[!i].end()); m[!i].clear(); break;
					default: q[i].Empty(); m[i].clear();
				}
				for (int t = 0; t < 2; t++) { big = std::max(big, m[t].size()); CHECK(s, q[t].GetSize() == m[t].size(), "q%d: size %zu, expected %zu", t, q[t].GetSize(), m[t].size()); auto it = m[t].begin(); decltype(q[t].First()) last = NULL; for (auto *x = q[t].First(); x; x = x->Next(), ++it) { CHECK(s, it != m[t].end() && x->Value == *it, "q%d: wrong node %zu", t, (size_t)(it - m[t].begin())); last = x; } CHECK(s, it == m[t].end() && q[t].Last() == last, "q%d: ends after %zu of %zu", t, (size_t)(it - m[t].begin()), m[t].size()); }
			}
		}
		lg.done(); if (big > 256) s.nontrivial();
	}
	template <class L> void listLarge(Src &s)
	{
		LeakGuard lg(s); size_t big = 0;
		{
			L q[2]; std::deque<int> m[2]; int next = 1; unsigned n = (unsigned)s.uni(1, 5);
			for (unsigned k = 0; k < n; k++)
			{
				int i = (int)s.draw(1); size_t c = bigN(s); if (m[i].size() + c > MAXBIG) c = 1; unsigned op = s.weighted({ 4, 3, 3, 3, 1, 2, 2 }); s.note("l%d: operation %u, %zu times", i, op, c);
				switch (op)
				{
					case 0: while (c--) { q[i].Push(next); m[i].push_back(next++); } break;
					case 1: while (c--) { q[i].Unshift(next); m[i].push_front(next++); } break;
					case 2: while (c-- && m[i].size()) { bool pop = c & 1; auto *x = pop ? q[i].Pop() : q[i].Shift(); CHECK(s, x && x->Value == (pop ? m[i].back() : m[i].front()), "removal gave a wrong node at size %zu", m[i].size()); delete x; if (pop) m[i].pop_back(); else m[i].pop_front(); } break;
					case 3: q[i].DetachAllAndAppend(q[!i]); m[i].insert(m[i].end(), m[!i].begin(), m[!i].end()); m[!i].clear(); break;
					case 4: q[i].Empty(); m[i].clear(); break;
					case 5: { auto *at = q[i].First(); size_t pos = 0, d = m[i].size() ? s.draw(std::min<size_t>(m[i].size() - 1, 1000)) : 0; while (at && pos < d) { at = at->Next(); pos++; } std::deque<int> add; if (!at) pos = m[i].size(); while (c--) { q[i].InsertBefore(at, next); add.push_back(next++); } m[i].insert(m[i].begin() + pos, add.begin(), add.end()); break; }
					default: { auto *at = q[i].Last(); while (c-- && at) { auto *p = at->Prev(); if (c % 3) { CHECK(s, q[i].Remove(at), "Remove() failed"); } at = p; } m[i].clear(); for (auto *x = q[i].First(); x && m[i].size() <= MAXBIG; x = x->Next()) m[i].push_back(x->Value); }
				}
				for (int t = 0; t < 2; t++) { big = std::max(big, m[t].size()); CHECK(s, q[t].GetSize() == m[t].size(), "l%d: size %zu, expected %zu", t, q[t].GetSize(), m[t].size()); auto it = m[t].begin(); decltype(q[t].First()) last = NULL; for (auto *x = q[t].First(); x; x = x->Next(), ++it) { CHECK(s, it != m[t].end() && x->Value == *it && x->Prev() == last, "l%d: wrong node %zu", t, (size_t)(it - m[t].begin())); last = x; } CHECK(s, it == m[t].end() && q[t].Last() == last, "l%d: ends after %zu of %zu", t, (size_t)(it - m[t].begin()), m[t].size()); }
			}
		}
		lg.done(); if (big > 256) s.nontrivial();
	}
	// Key number t as an integer or as a string.
	Key bigKey(std::int64_t t) { Key k; k.str = t % 5 == 4; k.i = k.str ? 0 : t; if (k.str) { k.t = "key " + std::to_string(t); if (t % 1000 == 999) k.t.resize(t % 66000 + 20, '.'); } return k; }
	template <class H> void orderedLarge(Src &s)
	{
		LeakGuard lg(s); size_t big = 0;
		{
			H q((size_t)s.range(1, 100), s.u64any(), s.u64any()); std::deque<std::pair<std::int64_t, int>> m; std::int64_t next = 0; unsigned n = (unsigned)s.uni(1, 5);
			auto find = [&](std::int64_t t) { Key k = bigKey(t); return k.str ? q.Find(k.t.data(), k.t.size()) : q.Find(k.i); };
			for (unsigned k = 0; k < n; k++)
			{
				size_t c = bigN(s); if (m.size() + c > MAXBIG) c = 1; unsigned op = s.weighted({ 5, 2, 3, 2, 2 }); s.note("operation %u, %zu times", op, c); std::int64_t gone = -1;
				switch (op)
				{
					case 0: case 1: while (c--) { Key y = bigKey(next); int v = (int)(next * 3); auto *x = op ? (y.str ? q.Unshift(y.t.data(), y.t.size(), v) : q.Unshift(y.i, v)) : (y.str ? q.Push(y.t.data(), y.t.size(), v) : q.Push(y.i, v)); CHECK(s, x, "a new key was refused at size %zu", m.size()); if (op) m.push_front({ next, v }); else m.push_back({ next, v }); next++; } break;
					case 2: while (c-- && m.size()) { bool pop = c & 1; auto e = pop ? m.back() : m.front(); gone = e.first; if (c % 3 == 0) { auto *x = find(e.first); CHECK(s, x && q.Remove(x), "Remove() failed"); } else { auto *x = pop ? q.Pop(c & 2) : q.Shift(c & 2); CHECK(s, x && x->Value == e.second, "removal gave a wrong node at size %zu", m.size()); delete x; } if (pop) m.pop_back(); else m.pop_front(); } break;
					case 3: c = std::max(c, m.size() / 8 + 1); CHECK(s, q.ResizeHash(c) && q.GetHashSize() == c, "ResizeHash(%zu)", c); break;
					default: q.Empty(); m.clear();
				}
				big = std::max(big, m.size()); CHECK(s, q.GetListSize() == m.size(), "size %zu, expected %zu", q.GetListSize(), m.size()); if (gone >= 0) CHECK(s, !find(gone), "a removed key is found");
				size_t i = 0; for (auto *x = q.FirstList(); x; x = x->NextList(), i++) { CHECK(s, i < m.size() && x->Value == m[i].second, "wrong entry %zu", i); CHECK(s, find(m[i].first) == x, "key number %lld is not found at size %zu", (long long)m[i].first, m.size()); } CHECK(s, i == m.size(), "%zu entries, expected %zu", i, m.size());
			}
		}
		lg.done(); if (big > 256) s.nontrivial();
	}
	template <class H> void packedLarge(Src &s)
	{
		LeakGuard lg(s); size_t big = 0;
		{
			H q((size_t)s.range(1, 100), s.u64any(), s.u64any()); std::deque<std::pair<std::int64_t, int>> m; std::int64_t next = 0; unsigned n = (unsigned)s.uni(1, 5);
			auto find = [&](std::int64_t t) { Key k = bigKey(t); return k.str ? q.Find(k.t.data(), k.t.size()) : q.Find(k.i); };
			auto unset = [&](std::int64_t t) { Key k = bigKey(t); return k.str ? q.Unset(k.t.data(), k.t.size()) : q.Unset(k.i); };
			for (unsigned k = 0; k < n; k++)
			{
				size_t c = bigN(s); if (m.size() + c > MAXBIG) c = 1; unsigned op = s.weighted({ 5, 2, 2, 1, 1, 1 }); s.note("operation %u, %zu times", op, c); std::int64_t gone = -1;
				switch (op)
				{
					case 0: while (c--) { Key y = bigKey(next); int v = (int)(next * 3); auto *x = y.str ? q.Set(y.t.data(), y.t.size(), v) : q.Set(y.i, v); CHECK(s, x && x->Value == v, "Set() failed at size %zu", m.size()); m.push_back({ next++, v }); } break;
					case 1: while (c-- && m.size()) { bool pop = c & 1; auto e = pop ? m.back() : m.front(); gone = e.first; CHECK(s, unset(e.first), "Unset() failed at size %zu", m.size()); if (pop) m.pop_back(); else m.pop_front(); } break;
					case 2: { size_t st = 2 + c % 3; std::deque<std::pair<std::int64_t, int>> keep; for (size_t i = 0; i < m.size(); i++) if (i % st == 0) { gone = m[i].first; CHECK(s, unset(gone), "Unset() failed"); } else keep.push_back(m[i]); m.swap(keep); break; }
					case 3: q.ResizeHash(c); break;
					case 4: CHECK(s, q.Optimize(), "Optimize() failed"); break;
					default: for (auto &e : m) if (e.first % 2) { e.second++; Key y = bigKey(e.first); if (y.str) q.Set(y.t.data(), y.t.size(), e.second); else q.Set(y.i, e.second); }
				}
				big = std::max(big, m.size()); CHECK(s, q.GetSize() == m.size(), "size %zu, expected %zu", q.GetSize(), m.size()); if (gone >= 0) CHECK(s, !find(gone), "a removed key is found");
				size_t i = 0, pos = q.GetNextPos(); while (auto *x = q.Next(pos)) { CHECK(s, i < m.size() && x->Value == m[i].second, "wrong entry %zu", i); CHECK(s, find(m[i].first) == x, "key number %lld is not found at size %zu", (long long)m[i].first, m.size()); i++; } CHECK(s, i == m.size(), "%zu entries, expected %zu", i, m.size());
			}
		}
		lg.done(); if (big > 256) s.nontrivial();
	}
}
#define LARGE "bulk operations on containers of up to 150000 elements (sizes around 256 and 65536 favoured), every element and view compared after each.  Non-trivial: more than 256 elements."
PROP(Q01, queue_large, 1, LARGE) { if (s.flip()) queueLarge<Queue<int>>(s); else queueLarge<QueueNoCopy<int>>(s); }
PROP(Q02, list_large, 1, LARGE) { if (s.flip()) listLarge<List<int>>(s); else listLarge<ListNoCopy<int>>(s); }
PROP(H01, ordered_hash_large, 1, LARGE) { if (s.flip()) orderedLarge<OrderedHash<int>>(s); else orderedLarge<OrderedHashNoCopy<int>>(s); }
PROP(H02, packed_hash_large, 1, LARGE) { if (s.flip()) packedLarge<PackedOrderedHash<int>>(s); else packedLarge<PackedOrderedHashNoCopy<int>>(s); }
PROP(K01, cache_large, 1, "caches of up to 90000 slots filled with as many keys, against a slot-array model, copied and assigned.  Non-trivial: more than 256 slots.")
{
	LeakGuard lg(s); size_t n = bigN(s), c = bigN(s); u64 mul = s.u64any() | 1;
	{
		typedef Cache<int, int> C; std::unique_ptr<C> q(new C(n)); std::vector<std::pair<bool, std::pair<int, int>>> m(n); s.note("%zu slots, %zu keys, hash key times %llu", n, c, (unsigned long long)mul);
		for (size_t i = 0; i < c; i++) { size_t h = (size_t)((u64)i * mul); q->Insert(h, (int)i, (int)i * 7); m[h % n] = { true, { (int)i, (int)i * 7 } }; if (i % 11 == 10) { size_t j = i / 2, g = (size_t)((u64)j * mul); bool r = q->Remove(g, (int)j), w = m[g % n].first && m[g % n].second.first == (int)j; CHECK(s, r == w, "Remove() returned %d", r); if (w) m[g % n].first = false; } }
		if (s.flip()) { std::unique_ptr<C> k(new C(*q)); q = std::move(k); } else if (s.flip()) { std::unique_ptr<C> k(new C(s.range(1, 20))); *k = *q; q = std::move(k); }
		CHECK(s, q->GetSize() == n, "size %zu", q->GetSize());
		for (size_t i = 0; i < c; i++) { size_t h = (size_t)((u64)i * mul); int out = -1; bool r = q->Find(out, h, (int)i), w = m[h % n].first && m[h % n].second.first == (int)i; CHECK(s, r == w && (!w || out == (int)i * 7), "key %zu of %zu in %zu slots: found %d, expected %d", i, c, n, r, w); }
	}
	lg.done(); if (n > 256) s.nontrivial();
}

PROP(Q01, queue_model, 6, "stateful: operations on three queues plus a pool of detached nodes against a vector model with node identity, values own heap memory.  Non-trivial: >= 2 nodes moved between containers/pool and a queue of length >= 2.")
{ queueCase<Queue<Tr>, true>(s); }
PROP(Q01, queue_nocopy_model, 3, "as queue_model for the non-copyable queue.")
{ queueCase<QueueNoCopy<Tr>, false>(s); }
PROP(Q02, list_model, 6, "stateful: operations on three lists plus a pool of detached nodes against a vector model with node identity.  Non-trivial: >= 2 nodes moved and an insert or removal in the middle.")
{ listCase<List<Tr>, true>(s); }
PROP(Q02, list_nocopy_model, 3, "as list_model for the non-copyable list.")
{ listCase<ListNoCopy<Tr>, false>(s); }
PROP(H01, ordered_hash_model, 6, "stateful: operations on three ordered hashes (both hash functions) plus a pool of detached nodes against an insertion-ordered association model; keys include byte-identical int/string pairs and embedded NULs.  Non-trivial: a removal and (a duplicate insert or a successful lookup).")
{ orderedCase<OrderedHash<Tr>, true>(s); }
PROP(H01, ordered_hash_nocopy_model, 3, "as ordered_hash_model for the non-copyable variant.")
{ orderedCase<OrderedHashNoCopy<Tr>, false>(s); }
PROP(H02, packed_hash_model, 6, "stateful: operations on two packed hashes (both hash functions) against an insertion-ordered association model, including compaction, resizing, copying and bulk changes.  Non-trivial: an unset and (a compaction/resize/copy or an overwrite).")
{ packedCase<PackedOrderedHash<Tr>, true>(s); }
PROP(H02, packed_hash_nocopy_model, 3, "as packed_hash_model for the non-copyable variant.")
{ packedCase<PackedOrderedHashNoCopy<Tr>, false>(s); }
PROP(H02, packed_hash_uncopyable, 1, "set, overwrite, unset, compact and resize in a non-copyable packed hash of values that can not be copied.  Non-trivial: an unset and more than eight entries.")
{
	LeakGuard lg(s); size_t unsets = 0, most = 0;
	{
		PackedOrderedHashNoCopy<Fixed> q((size_t)s.range(0, 20), s.u64any(), s.u64any()); std::vector<std::pair<int, int>> m; unsigned n = (unsigned)s.len(80);
		for (unsigned k = 0; k < n; k++)
		{
			int key = (int)s.uni(0, 40), v = (int)s.uni(1, 999); auto at = m.begin(); while (at != m.end() && at->first != key) ++at; std::string name = "key " + std::to_string(key);
			switch (s.weighted({ 10, 3, 1, 1 }))
			{
				case 0: { auto *x = key % 3 ? q.Set(key) : q.Set(name.data(), name.size()); s.note("set %d to %d", key, v); CHECK(s, x && x->Value.v() == (at == m.end() ? 0 : at->second), "Set(%d) gave another value", key); *x->Value.p = v; if (at == m.end()) m.push_back({ key, v }); else at->second = v; break; }
				case 1: { bool r = key % 3 ? q.Unset(key) : q.Unset(name.data(), name.size()); s.note("unset %d", key); CHECK(s, r == (at != m.end()), "Unset(%d) returned %d", key, r); if (r) { m.erase(at); unsets++; } break; }
				case 2: s.note("optimize"); CHECK(s, q.Optimize(), "Optimize() failed"); break;
				default: s.note("resize"); q.ResizeHash(s.range(0, 60));
			}
			most = std::max(most, m.size()); CHECK(s, q.GetSize() == m.size(), "size %zu, expected %zu", q.GetSize(), m.size()); size_t i = 0, pos = q.GetNextPos(); while (auto *x = q.Next(pos)) { CHECK(s, i < m.size() && x->Value.v() == m[i].second, "entry %zu differs", i); i++; } CHECK(s, i == m.size(), "%zu entries, expected %zu", i, m.size());
		}
	}
	lg.done(); if (unsets && most > 8) s.nontrivial();
}
PROP(K01, cache_model, 6, "stateful: operations on two caches against a slot-array model.  Non-trivial: an overwrite by another key, a hit and a miss.")
{ cacheCase<Cache<std::string, Tr>, true>(s); }
PROP(K01, cache_nocopy_model, 2, "as cache_model for the non-copyable variant.")
{ cacheCase<CacheNoCopy<std::string, Tr>, false>(s); }
PROP(K01, cache_hash_keys, 2, "cache keys derived with the helper: equal byte strings give equal hash keys whatever surrounds them in memory, at any alignment.  Non-trivial: length >= 2.")
{
	std::string t = s.str(40); if (s.chance(5)) { size_t n = s.range(200, 1100); while (t.size() < n) t += t.substr(0, n - t.size()) + "q"; t.resize(n); } size_t a = s.draw(7), b = s.draw(7);
	std::vector<std::uint8_t> x(t.size() + 16, (std::uint8_t)s.draw(255)), y(t.size() + 16, (std::uint8_t)s.draw(255));
	memcpy(x.data() + a, t.data(), t.size()); memcpy(y.data() + b, t.data(), t.size());
	s.note("%s at offsets %zu and %zu", quote(t).c_str(), a, b);
	std::unique_ptr<std::uint8_t[]> ex(new std::uint8_t[t.size()]); memcpy(ex.get(), t.data(), t.size());
	size_t h = CacheUtil::GetHashKey(ex.get(), t.size());
	CHECK(s, h == CacheUtil::GetHashKey(x.data() + a, t.size()) && h == CacheUtil::GetHashKey(y.data() + b, t.size()), "hash key depends on surrounding memory");
	std::uint32_t w = 5381, u; size_t q = 0; for (; q + 4 <= t.size(); q += 4) { memcpy(&u, t.data() + q, 4); w = w * 33 ^ u; } for (size_t k = t.size(); k > q; k--) w = w * 33 ^ (unsigned char)t[k - 1];
	CHECK(s, h == w, "hash key %zx is not the documented function of the bytes (%x)", h, w);
	std::string z(t.c_str()); std::unique_ptr<char[]> ez(new char[z.size() + 1]); strcpy(ez.get(), z.c_str());
	size_t r = 5381; for (char c : z) r = r * 33 ^ (size_t)c;
	CHECK(s, CacheUtil::GetHashKey(ez.get()) == r, "string hash key is not djb2 of the string");
	if (t.size() >= 2) s.nontrivial();
}

// ------------------------------------------------------------------ Hash functions
namespace
{
	u64 rotl(u64 x, int b) { return x << b | x >> (64 - b); }
	u64 refSip(const std::string &in, u64 k0, u64 k1, size_t c, size_t d)
	{
		u64 v0 = k0 ^ 0x736f6d6570736575ULL, v1 = k1 ^ 0x646f72616e646f6dULL, v2 = k0 ^ 0x6c7967656e657261ULL, v3 = k1 ^ 0x7465646279746573ULL;
		auto round = [&]() { v0 += v1; v1 = rotl(v1, 13) ^ v0; v0 = rotl(v0, 32); v2 += v3; v3 = rotl(v3, 16) ^ v2; v0 += v3; v3 = rotl(v3, 21) ^ v0; v2 += v1; v1 = rotl(v1, 17) ^ v2; v2 = rotl(v2, 32); };
		std::string p = in; u64 b = (u64)in.size() << 56; while (p.size() % 8) p.push_back('\0');
		if (in.size() % 8 == 0) p += std::string(8, '\0');
		for (size_t i = 0; i < p.size(); i += 8) { u64 m = 0; for (int k = 7; k >= 0; k--) m = m << 8 | (unsigned char)p[i + k]; if (i + 8 == p.size()) m |= b; v3 ^= m; for (size_t r = 0; r < c; r++) round(); v0 ^= m; }
		v2 ^= 0xff; for (size_t r = 0; r < d; r++) round();
		return v0 ^ v1 ^ v2 ^ v3;
	}
}
PROP(H03, siphash_reference, 5, "random byte strings (0..1100 bytes at any alignment, exactly allocated) and keys: both hash utilities against an independent SipHash implementation written from the specification.  Non-trivial: more than 8 bytes.")
{
	std::string t = s.chance(4) ? s.bytes(s.uni(1, 40)) : s.str(80); if (s.chance(10)) { size_t n = s.range(200, 1100); while (t.size() < n) t += t.substr(0, n - t.size()) + "q"; t.resize(n); } u64 a = s.u64any(), b = s.u64any(); size_t c = s.chance(70) ? 2 : s.uni(0, 4), d = s.chance(70) ? 4 : s.uni(0, 6); size_t off = s.draw(7);
	s.note("SipHash-%zu-%zu key %llx %llx of %s", c, d, (unsigned long long)a, (unsigned long long)b, quote(t).c_str());
	std::unique_ptr<std::uint8_t[]> e(new std::uint8_t[t.size() + off]); memcpy(e.get() + off, t.data(), t.size());
	u64 r = refSip(t, a, b, c, d), x = OrderedHashUtil::GetSipHashKey(e.get() + off, t.size(), a, b, c, d), y = PackedOrderedHashUtil::GetSipHashKey(e.get() + off, t.size(), a, b, c, d);
	CHECK(s, x == r, "ordered hash: %llx, expected %llx", (unsigned long long)x, (unsigned long long)r);
	CHECK(s, y == r, "packed ordered hash: %llx, expected %llx", (unsigned long long)y, (unsigned long long)r);
	if (t.size() > 8) s.nontrivial();
}
PROP(H03, djb_reference, 3, "random byte strings and seeds: the fast hash is a function of the bytes and the seed only, at any alignment, equal in both utilities and to an independent word-at-a-time implementation.  Non-trivial: more than 4 bytes.")
{
	std::string t = s.str(80); if (s.chance(10)) { size_t n = s.range(200, 1100); while (t.size() < n) t += t.substr(0, n - t.size()) + "q"; t.resize(n); } u64 seed = s.flip() ? 5381 : s.u64any(); size_t off = s.draw(7);
	s.note("seed %llu of %s", (unsigned long long)seed, quote(t).c_str());
	std::unique_ptr<std::uint8_t[]> e(new std::uint8_t[t.size() + off]); memcpy(e.get() + off, t.data(), t.size());
	std::uint32_t r = (std::uint32_t)seed; size_t i = 0;
	for (; i + 4 <= t.size(); i += 4) { std::uint32_t w; memcpy(&w, t.data() + i, 4); r = r * 33 ^ w; }
	for (size_t k = t.size(); k > i; k--) r = r * 33 ^ (unsigned char)t[k - 1];
	size_t x = OrderedHashUtil::GetDJBX33XHashKey(e.get() + off, t.size(), (size_t)seed), y = PackedOrderedHashUtil::GetDJBX33XHashKey(e.get() + off, t.size(), (size_t)seed);
	CHECK(s, x == r && y == r, "got %zx and %zx, expected %x", x, y, r);
	if (t.size() > 4) s.nontrivial();
}

// ------------------------------------------------------------------ Vector, 2D array
PROP(V01, static_vector_model, 5, "stateful: three fixed vectors of random sizes against std::vector: element writes, copies, assignment between sizes, self-assignment, comparison.  Non-trivial: an assignment between different sizes or a comparison of equal sizes.")
{
	LeakGuard lg(s);
	{
		std::vector<std::unique_ptr<StaticVector<Tr>>> q; std::vector<std::vector<int>> m(3); size_t nt = 0;
		for (int i = 0; i < 3; i++) { size_t n = s.draw(6); q.emplace_back(new StaticVector<Tr>(n)); m[i].assign(n, 0); s.note("v%d size %zu", i, n); }
		unsigned n = (unsigned)s.len(30);
		for (unsigned k = 0; k < n; k++)
		{
			int i = (int)s.draw(2), j = (int)s.draw(2);
			switch (s.draw(4))
			{
				case 0: if (m[i].size()) { size_t p = s.draw(m[i].size() - 1); int v = (int)s.draw(2); if (s.flip()) (*q[i])[p] = Tr(v); else q[i]->RawData()[p] = Tr(v); m[i][p] = v; s.note("v%d[%zu] = %d", i, p, v); } break;
				case 1: if (m[i].size() != m[j].size()) nt++; *q[i] = *q[j]; m[i] = m[j]; s.note("v%d = v%d", i, j); break;
				case 2: { std::unique_ptr<StaticVector<Tr>> c(new StaticVector<Tr>(*q[j])); q[i] = std::move(c); m[i] = m[j]; s.note("v%d copy of v%d", i, j); break; }
				case 3: case 4: if (m[i].size() == m[j].size()) nt++; CHECK(s, (*q[i] == *q[j]) == (m[i] == m[j]), "v%d == v%d is wrong", i, j); CHECK(s, (*q[i] != *q[j]) == (m[i] != m[j]), "v%d != v%d is wrong", i, j); s.note("compare v%d v%d", i, j); break;
			}
			for (int t = 0; t < 3; t++) { CHECK(s, q[t]->GetSize() == m[t].size(), "v%d size %zu", t, q[t]->GetSize()); for (size_t x = 0; x < m[t].size(); x++) CHECK(s, (*q[t])[x].v() == m[t][x] && &(*q[t])[x] == q[t]->RawData() + x, "v%d[%zu] is %d, expected %d", t, x, (*q[t])[x].v(), m[t][x]); }
		}
		if (nt) s.nontrivial();
	}
	lg.done();
}
PROP(V01, static_2d_array_model, 5, "stateful: three fixed 2D arrays of random shapes (including same area, different shape) against a row-major model: element writes through rows, copies, assignment between shapes, comparison.  Non-trivial: an assignment between different shapes or a comparison of equal shapes.")
{
	LeakGuard lg(s);
	{
		struct M { size_t w, h; std::vector<int> d; bool operator==(const M &o) const { return w == o.w && h == o.h && d == o.d; } };
		typedef Static2DArray<Tr> A2;
		std::vector<std::unique_ptr<A2>> q; std::vector<M> m(3); size_t nt = 0;
		for (int i = 0; i < 3; i++) { size_t w = s.draw(5), h = s.draw(5); q.emplace_back(new A2(w, h)); m[i] = M{ w, h, std::vector<int>(w * h, 0) }; s.note("a%d %zux%zu", i, w, h); }
		unsigned n = (unsigned)s.len(30);
		for (unsigned k = 0; k < n; k++)
		{
			int i = (int)s.draw(2), j = (int)s.draw(2);
			switch (s.draw(4))
			{
				case 0: if (m[i].d.size()) { size_t x = s.draw(m[i].w - 1), y = s.draw(m[i].h - 1); int v = (int)s.draw(2); if (s.flip()) (*q[i])[y][x] = Tr(v); else q[i]->RawData()[y][x] = Tr(v); m[i].d[y * m[i].w + x] = v; s.note("a%d[%zu][%zu] = %d", i, y, x, v); } break;
				case 1: if (m[i].w != m[j].w || m[i].h != m[j].h) nt++; *q[i] = *q[j]; m[i] = m[j]; s.note("a%d = a%d", i, j); break;
				case 2: { std::unique_ptr<A2> c(new A2(*q[j])); q[i] = std::move(c); m[i] = m[j]; s.note("a%d copy of a%d", i, j); break; }
				case 3: case 4: if (m[i].w == m[j].w && m[i].h == m[j].h) nt++; CHECK(s, (*q[i] == *q[j]) == (m[i] == m[j]), "a%d == a%d is wrong", i, j); CHECK(s, (*q[i] != *q[j]) == !(m[i] == m[j]), "a%d != a%d is wrong", i, j); s.note("compare a%d a%d", i, j); break;
			}
			for (int t = 0; t < 3; t++)
			{
				CHECK(s, q[t]->GetWidth() == m[t].w && q[t]->GetHeight() == m[t].h, "a%d shape %zux%zu", t, q[t]->GetWidth(), q[t]->GetHeight());
				for (size_t y = 0; y < m[t].h; y++) for (size_t x = 0; x < m[t].w; x++) CHECK(s, (*q[t])[y][x].v() == m[t].d[y * m[t].w + x], "a%d[%zu][%zu] is %d, expected %d", t, y, x, (*q[t])[y][x].v(), m[t].d[y * m[t].w + x]);
			}
		}
		if (nt) s.nontrivial();
	}
	lg.done();
}
PROP(V01, static_large, 1, "vectors of up to 90000 elements and arrays of as large an area, copied, assigned and compared with one element different.  Non-trivial: more than 256 elements.")
{
	LeakGuard lg(s); size_t n = bigN(s), at = s.range(0, n - 1);
	{
		StaticVector<int> a(n), b(s.uni(0, 5)); for (size_t i = 0; i < n; i++) a[i] = (int)i * 3; b = a; StaticVector<int> c(a); s.note("%zu elements, difference at %zu", n, at);
		CHECK(s, b.GetSize() == n && c.GetSize() == n && a == b && a == c && !(a != b), "copies of %zu elements differ", n); b[at]++; CHECK(s, a != b && !(a == b) && a == c, "a difference at %zu of %zu is not seen", at, n); for (size_t i = 0; i < n; i++) CHECK(s, a[i] == (int)i * 3 && c[i] == (int)i * 3, "element %zu changed", i);
		size_t w = s.flip() ? s.range(1, std::min<size_t>(n, 600)) : s.flip() ? n : 1, h = std::max<size_t>(1, n / w), y = s.range(0, h - 1), x = s.range(0, w - 1);
		Static2DArray<int> p(w, h), q(s.uni(0, 3), s.uni(0, 3)); for (size_t j = 0; j < h; j++) for (size_t i = 0; i < w; i++) p[j][i] = (int)(j * w + i); q = p; Static2DArray<int> r(p); s.note("%zu x %zu, difference at %zu, %zu", w, h, x, y);
		CHECK(s, q.GetWidth() == w && q.GetHeight() == h && p == q && p == r && !(p != r), "copies of %zu x %zu differ", w, h); q[y][x]++; CHECK(s, p != q && !(p == q) && p == r, "a difference is not seen"); for (size_t j = 0; j < h; j++) for (size_t i = 0; i < w; i++) CHECK(s, p[j][i] == (int)(j * w + i) && r[j][i] == (int)(j * w + i) && (q[j][i] == (int)(j * w + i)) == (i != x || j != y), "element %zu, %zu changed", i, j);
	}
	lg.done(); if (n > 256) s.nontrivial();
}
