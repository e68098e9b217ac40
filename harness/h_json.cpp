// J01, J02, J03: the JSON serializer.
#include <clocale>
#include <unistd.h>
#include <sys/stat.h>
#include "pbt.h"
#include "json/json_serializer.h"
#include <memory>
#include <cmath>
#include <cstdlib>
using namespace CubicleSoft;
using pbt::Src; using pbt::u64; using pbt::quote;

namespace
{
	struct Val
	{
		enum T { Null, Bool, Int, UInt, Dbl, Str, Obj, Arr, Num } t;
		bool b; std::int64_t i; u64 u; double d; std::string ref;      // ref: expected number text
		std::string s; std::vector<std::pair<std::string, Val>> kids;
		Val(T t_ = Null) : t(t_), b(false), i(0), u(0), d(0) {}
	};

	// Strict RFC 8259 parser over bytes >= 0x80 as opaque.
	struct Parser
	{
		const std::string &in; size_t p; std::string err;
		Parser(const std::string &x) : in(x), p(0) {}
		void ws() { while (p < in.size() && (in[p] == ' ' || in[p] == '\t' || in[p] == '\n' || in[p] == '\r')) p++; }
		bool bad(const char *m) { if (err.empty()) err = std::string(m) + " at offset " + std::to_string(p); return false; }
		bool str(std::string &o)
		{
			if (p >= in.size() || in[p] != '"') return bad("expected string");
			p++;
			for (;;)
			{
				if (p >= in.size()) return bad("unterminated string");
				unsigned char c = in[p++];
				if (c == '"') return true;
				if (c < 0x20) { p--; return bad("raw control character in string"); }
				if (c != '\\') { o += (char)c; continue; }
				if (p >= in.size()) return bad("unterminated escape");
				c = in[p++];
				switch (c)
				{
					case '"': case '\\': case '/': o += (char)c; break;
					case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
					case 'u':
					{
						if (p + 4 > in.size()) return bad("short \\u");
						unsigned v = 0;
						for (int k = 0; k < 4; k++) { char h = in[p++]; v *= 16; if (h >= '0' && h <= '9') v += h - '0'; else if (h >= 'a' && h <= 'f') v += h - 'a' + 10; else if (h >= 'A' && h <= 'F') v += h - 'A' + 10; else return bad("bad \\u"); }
						if (v < 0x80) o += (char)v;
						else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); }
						else { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
						break;
					}
					default: return bad("bad escape");
				}
			}
		}
		bool num(Val &v)
		{
			size_t b = p;
			if (p < in.size() && in[p] == '-') p++;
			if (p >= in.size()) return bad("bad number");
			if (in[p] == '0') p++;
			else if (in[p] >= '1' && in[p] <= '9') while (p < in.size() && isdigit((unsigned char)in[p])) p++;
			else return bad("bad number");
			if (p < in.size() && in[p] == '.') { p++; if (p >= in.size() || !isdigit((unsigned char)in[p])) return bad("bad fraction"); while (p < in.size() && isdigit((unsigned char)in[p])) p++; }
			if (p < in.size() && (in[p] == 'e' || in[p] == 'E')) { p++; if (p < in.size() && (in[p] == '+' || in[p] == '-')) p++; if (p >= in.size() || !isdigit((unsigned char)in[p])) return bad("bad exponent"); while (p < in.size() && isdigit((unsigned char)in[p])) p++; }
			v.t = Val::Num; v.s = in.substr(b, p - b);
			return true;
		}
		bool lit(const char *l) { size_t n = strlen(l); if (in.compare(p, n, l)) return bad("bad literal"); p += n; return true; }
		bool val(Val &v)
		{
			ws();
			if (p >= in.size()) return bad("missing value");
			char c = in[p];
			if (c == 'n') { v.t = Val::Null; return lit("null"); }
			if (c == 't') { v.t = Val::Bool; v.b = true; return lit("true"); }
			if (c == 'f') { v.t = Val::Bool; v.b = false; return lit("false"); }
			if (c == '"') { v.t = Val::Str; return str(v.s); }
			if (c == '[' || c == '{')
			{
				bool o = c == '{'; v.t = o ? Val::Obj : Val::Arr; p++; ws();
				if (p < in.size() && in[p] == (o ? '}' : ']')) { p++; return true; }
				for (;;)
				{
					std::pair<std::string, Val> kv;
					ws();
					if (o) { if (!str(kv.first)) return false; ws(); if (p >= in.size() || in[p] != ':') return bad("expected :"); p++; }
					if (!val(kv.second)) return false;
					v.kids.push_back(kv);
					ws();
					if (p >= in.size()) return bad("unterminated container");
					if (in[p] == ',') { p++; continue; }
					if (in[p] == (o ? '}' : ']')) { p++; return true; }
					return bad("expected , or close");
				}
			}
			return num(v);
		}
		bool doc(Val &v) { if (!val(v)) return false; ws(); if (p != in.size()) return bad("trailing text"); return true; }
	};

	bool same(const Val &e, const Val &g, std::string &why)
	{
		switch (e.t)
		{
			case Val::Null: if (g.t != Val::Null) { why = "expected null"; return false; } return true;
			case Val::Bool: if (g.t != Val::Bool || g.b != e.b) { why = "bool differs"; return false; } return true;
			case Val::Int: case Val::UInt:
				if (g.t != Val::Num || g.s != e.ref) { why = "integer " + e.ref + " came back as " + g.s; return false; } return true;
			case Val::Dbl:
				if (g.t != Val::Num || strtod(g.s.c_str(), NULL) != strtod(e.ref.c_str(), NULL)) { why = "double " + e.ref + " came back as " + g.s; return false; } return true;
			case Val::Str: if (g.t != Val::Str || g.s != e.s) { why = "string " + quote(e.s) + " came back as " + quote(g.s); return false; } return true;
			default:
				if (g.t != e.t) { why = "container type differs"; return false; }
				if (g.kids.size() != e.kids.size()) { why = "member count differs: " + std::to_string(e.kids.size()) + " vs " + std::to_string(g.kids.size()); return false; }
				for (size_t i = 0; i < e.kids.size(); i++)
				{
					if (e.kids[i].first != g.kids[i].first) { why = "key " + quote(e.kids[i].first) + " came back as " + quote(g.kids[i].first); return false; }
					if (!same(e.kids[i].second, g.kids[i].second, why)) return false;
				}
				return true;
		}
	}

	std::string genText(Src &s, bool zeros)
	{
		std::string r; size_t n = s.len(48);
		for (size_t i = 0; i < n; i++)
		{
			switch (s.weighted({ 6, 5, 3, 2, 2 }))
			{
				case 0: r += (char)s.uni('a', 'z'); break;
				case 1: r += "\"\\/\b\f\n\r\t"[s.draw(7)]; break;
				case 2: r += (char)s.uni(zeros ? 0 : 1, 31); break;
				case 3: r += (char)s.range(zeros ? 0 : 1, 255); break;
				case 4: { static const char *u[] = { "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xE2\x80\xA8", "</script>", "\x7F", "\\u0041" }; r += u[s.draw(6)]; break; }
			}
		}
		if (!zeros) r = std::string(r.c_str());
		return r;
	}
	size_t escLen(const std::string &x, bool slashes)
	{
		size_t n = 0;
		for (unsigned char c : x) n += (c == '"' || c == '\\' || c == '\b' || c == '\f' || c == '\n' || c == '\r' || c == '\t') ? 2 : c == '/' ? (slashes ? 2 : 1) : c < 32 ? 6 : 1;
		return n;
	}

	struct Frame { char m; bool first; Val *v; };      // m: R root, O object, A array, S string

	// mode 0: roomy buffers, flush (ResetPos) streaming.  mode 1: tight buffers, misuse.
	// size 1: long strings.  size 2: deep nesting.
	void enlarge(Src &s, std::string &r, bool always = false) { if (r.empty() || (!always && !s.chance(40))) return; static const size_t t[] = { 256, 1024, 4096, 8192, 32768, 65536 }; size_t n = s.chance(60) ? t[s.draw(5)] - 3 + (size_t)s.draw(6) : (size_t)s.draw(70000); std::string h = r; while (r.size() < n) r += h; }
	void jsonCase(Src &s, bool tight, unsigned big = 0)
	{
		static const char *KS[] = { ": ", ":", " : ", ":\n\t" };
		static const char *VS[] = { ", ", ",", " , ", ",\r\n  " };
		bool esc = s.flip();
		std::string ks = KS[s.draw(3)], vs = VS[s.draw(3)];
		size_t maxDepth = big == 2 ? (s.flip() ? 512 : s.uni(100, 800)) : s.chance(30) ? s.uni(0, 6) : 512;
		size_t bufSize;
		if (tight) bufSize = s.range(1, 200); else bufSize = s.chance(50) ? 70000 : s.range(400, 6000);
		if (big) bufSize = tight ? s.range(1000, 100000) : 600000;
		const std::string ks0 = ks, vs0 = vs; JSON::Serializer j(esc, ks0.c_str(), vs0.c_str(), maxDepth);
		s.note("Serializer(EscapeSlashes=%d, KeySplitter=%s, ValSplitter=%s, MaxDepth=%zu) buffer %zu bytes", esc, quote(ks).c_str(), quote(vs).c_str(), maxDepth, bufSize);
		std::unique_ptr<std::uint8_t[]> buf(new std::uint8_t[bufSize]);
		memset(buf.get(), 0xEE, bufSize);
		bool reused = false;
		if (!tight ? s.chance(15) : s.chance(10))
		{
			// A used serializer behaves like a new one after Reset.
			j.SetBuffer(buf.get(), bufSize); j.StartObject(); j.StartArray("x"); if (s.flip()) { j.StartStr(); j.AppendStr("abc"); } j.Reset();
			reused = s.flip(); s.note("(used, then Reset%s)", reused ? ", same buffer" : "");
		}
		// Reset() keeps the buffer.
		if (!reused) j.SetBuffer(buf.get(), bufSize);
		CHECK(s, j.GetBufferSize() == bufSize - 1, "GetBufferSize() is %zu for a %zu byte buffer", j.GetBufferSize(), bufSize);
		size_t cap = bufSize - 1;
		CHECK(s, j.GetBuffer() == buf.get() && j.GetCurrPos() == 0, "GetBuffer() or GetCurrPos() is wrong after SetBuffer()");
		std::string out;          // Text flushed so far
		Val root; std::vector<Frame> st; st.push_back({ 'R', true, &root });
		bool any = false; size_t refused = 0, accepted = 0, special = 0;
		unsigned nops = big == 2 ? (unsigned)s.uni(maxDepth > 200 ? maxDepth - 100 : 1, maxDepth + 30) : big ? (unsigned)s.len(16) : (unsigned)s.len(tight ? 40 : 60);
		for (unsigned k = 0; k < nops; k++)
		{
			Frame &f = st.back();
			size_t pos = j.GetCurrPos();
			std::string before((char *)buf.get(), pos);
			bool obj = f.m == 'O';
			bool wantKey = obj;
			if (tight && s.chance(15)) wantKey = !wantKey;
			bool down = big == 2 && !s.chance(3); std::string key; if (down) key = "k"; else key = genText(s, false); if (big == 1) enlarge(s, key);
			if (f.m == 'S') { /* A key means nothing inside a string: not generated. */ wantKey = false; }
			const char *kp = wantKey ? key.c_str() : NULL;
			// Legal here?
			bool legalVal = f.m != 'S' && ((f.m == 'R' && f.first && !kp) || (f.m == 'A' && !kp) || (f.m == 'O' && kp));
			size_t prefix = (f.m != 'R' && !f.first ? vs.size() : 0) + (kp ? escLen(key, esc) + 2 + ks.size() : 0);
			unsigned op = down ? (unsigned)s.draw(1) : s.weighted({ 5, 4, 2, 4, 5, 5, 4, 7, 3, 2, 4, 2, 2 });
			bool ok = false, legal = false; size_t need = 0, needMax = 0; Val nv; bool isVal = false; char push = 0; bool pop = false, strAppend = false; std::string chunk;
			switch (op)
			{
				case 0: ok = j.StartObject(kp); legal = legalVal && st.size() < maxDepth; need = prefix + 1; push = 'O'; nv.t = Val::Obj; isVal = true; s.note("StartObject(%s) = %d", kp ? quote(key).c_str() : "", ok); break;
				case 1: ok = j.StartArray(kp); legal = legalVal && st.size() < maxDepth; need = prefix + 1; push = 'A'; nv.t = Val::Arr; isVal = true; s.note("StartArray(%s) = %d", kp ? quote(key).c_str() : "", ok); break;
				case 2: ok = j.AppendNull(kp); legal = legalVal; need = prefix + 4; nv.t = Val::Null; isVal = true; s.note("AppendNull(%s) = %d", kp ? quote(key).c_str() : "", ok); break;
				case 3: nv.b = s.flip(); ok = kp ? j.AppendBool(kp, nv.b) : j.AppendBool(nv.b); legal = legalVal; need = prefix + (nv.b ? 4 : 5); needMax = prefix + 5; nv.t = Val::Bool; isVal = true; s.note("AppendBool(%s, %d) = %d", kp ? quote(key).c_str() : "", nv.b, ok); break;
				case 4: { nv.i = s.i64any(); char t[64]; snprintf(t, sizeof t, "%lld", (long long)nv.i); nv.ref = t; ok = kp ? j.AppendInt(kp, nv.i) : j.AppendInt(nv.i); legal = legalVal; need = prefix + strlen(t); nv.t = Val::Int; isVal = true; s.note("AppendInt(%s, %s) = %d", kp ? quote(key).c_str() : "", t, ok); break; }
				case 5: { nv.u = s.u64any(); char t[64]; snprintf(t, sizeof t, "%llu", (unsigned long long)nv.u); nv.ref = t; ok = kp ? j.AppendUInt(kp, nv.u) : j.AppendUInt(nv.u); legal = legalVal; need = prefix + strlen(t); nv.t = Val::UInt; isVal = true; s.note("AppendUInt(%s, %s) = %d", kp ? quote(key).c_str() : "", t, ok); break; }
				case 6:
				{
					u64 bits; double d;
					switch (s.draw(3)) { case 0: d = (double)s.irange(-100000, 100000) / 64.0; break; case 1: bits = s.u64any(); memcpy(&d, &bits, 8); break; case 2: d = (double)s.i64any(); break; default: d = strtod((std::to_string(s.irange(-99999, 99999)) + "e" + std::to_string(s.irange(-330, 305))).c_str(), NULL); break; }
					bool defP = s.flip(); size_t P = defP ? (kp ? 100 : 16) : s.range(0, 120);
					char t[2048]; snprintf(t, sizeof t, "%1.*g", (int)P, d); nv.ref = t; nv.d = d; nv.t = Val::Dbl; isVal = true;
					if (kp) ok = defP ? j.AppendDouble(kp, d) : j.AppendDouble(kp, d, P); else ok = defP ? j.AppendDouble(d) : j.AppendDouble(d, P);
					legal = legalVal; need = prefix + strlen(t); special++;
					s.note("AppendDouble(%s, %a, precision %zu) = %d", kp ? quote(key).c_str() : "", d, P, ok);
					if (!std::isfinite(d)) { nv.t = Val::Null; if (ok) need = j.GetCurrPos() - pos; else legal = false; }     // Refused, or written as null.
					break;
				}
				case 7:
				{
					bool sized = s.flip(); std::string v = genText(s, sized); if (big == 1) enlarge(s, v);
					size_t body = escLen(v, esc);
					size_t calc = sized ? j.CalculateStrSize(v.data(), v.size()) : j.CalculateStrSize(v.c_str());
					size_t calcK = sized ? j.CalculateStrSize(v.data(), v.size(), true) : j.CalculateStrSize(v.c_str(), true);
					CHECK(s, calc == body + (f.m == 'S' ? 0 : 2), "CalculateStrSize(%s) = %zu, expected %zu", quote(v).c_str(), calc, body + (f.m == 'S' ? 0 : 2));
					CHECK(s, calcK == calc + ks.size(), "CalculateStrSize with key splitter = %zu, expected %zu", calcK, calc + ks.size());
					// Exact-size source so that reads past it are caught.
					std::unique_ptr<char[]> src(new char[v.size() + (sized ? 0 : 1)]); memcpy(src.get(), v.data(), v.size()); if (!sized) src[v.size()] = 0;
					ok = sized ? kp || s.flip() ? j.AppendStr(kp, src.get(), v.size()) : j.AppendStr(src.get(), v.size()) : kp || s.flip() ? j.AppendStr(kp, src.get()) : j.AppendStr(src.get());
					s.note("AppendStr(%s, %s%s) = %d", kp ? quote(key).c_str() : "", quote(v).c_str(), sized ? ", sized" : "", ok);
					if (f.m == 'S') { legal = true; need = body; strAppend = true; chunk = v; }
					else { legal = legalVal; need = prefix + body + 2; nv.t = Val::Str; nv.s = v; isVal = true; }
					if (body != v.size()) special++;
					break;
				}
				case 8: ok = j.StartStr(kp); legal = legalVal && st.size() < maxDepth; need = prefix + 1; push = 'S'; nv.t = Val::Str; isVal = true; s.note("StartStr(%s) = %d", kp ? quote(key).c_str() : "", ok); break;
				case 9: case 10: case 11:
				{
					char w = f.m;
					if (tight && s.chance(25)) w = "OAS"[s.draw(2)];
					else if (w == 'R') w = "OAS"[op - 9];
					ok = w == 'O' ? j.EndObject() : w == 'A' ? j.EndArray() : j.EndStr();
					legal = w == f.m; need = 1; pop = true; s.note("End %c = %d", w, ok); break;
				}
				case 12:
				{
					if (s.chance(30)) { unsigned x = (unsigned)s.draw(3); bool key = s.flip(); if (key) { ks = KS[x]; j.SetKeySplitter(KS[x]); } else { vs = VS[x]; j.SetValSplitter(VS[x]); } s.note("Set%sSplitter(%s)", key ? "Key" : "Val", quote(key ? KS[x] : VS[x]).c_str()); continue; }
					if (s.flip()) { esc = s.flip(); j.SetEscapeSlashes(esc); s.note("SetEscapeSlashes(%d)", esc); continue; }
					if (s.chance(20)) { CHECK(s, !j.AppendStr(kp, (const char *)NULL), "AppendStr(NULL) succeeded"); CHECK(s, j.GetCurrPos() == pos, "AppendStr(NULL) moved the position"); continue; }
					if (f.m == 'S') continue;
					// Whitespace is allowed between tokens.
					std::string w = s.bytes(s.len(6), " \n\t\r");
					ok = s.flip() ? j.Append(w.c_str()) : j.Append(w.data(), w.size()); legal = true; need = w.size(); s.note("Append(%s) = %d", quote(w).c_str(), ok);
					break;
				}
			}
			if (needMax < need) needMax = need;
			size_t npos = j.GetCurrPos();
			CHECK(s, npos <= cap, "position %zu beyond capacity %zu", npos, cap);
			bool mustAccept = legal && pos + needMax <= cap, mustRefuse = !legal || pos + need > cap;
			CHECK(s, !(ok && mustRefuse), "accepted although %s", legal ? "it does not fit" : "it is not allowed here");
			CHECK(s, !(!ok && mustAccept), "refused although legal and %zu bytes fit in %zu", need, cap - pos);
			CHECK(s, memcmp(before.data(), buf.get(), pos) == 0, "earlier output was modified");
			if (ok)
			{
				CHECK(s, npos == pos + need, "wrote %zu bytes, expected %zu", npos - pos, need);
				CHECK(s, npos == 0 || buf[npos] == 0, "output not terminated");
				accepted++;
				if (isVal)
				{
					Val *nvp;
					if (f.m == 'R') { root = nv; nvp = &root; any = true; }
					else { f.v->kids.push_back(std::make_pair(kp ? key : std::string(), nv)); nvp = &f.v->kids.back().second; }
					f.first = false;
					if (push) st.push_back({ push, true, nvp });
				}
				if (strAppend) f.v->s += chunk;
				if (pop) st.pop_back();
			}
			else
			{
				refused++;
				CHECK(s, npos == pos, "a refused call moved the position from %zu to %zu", pos, npos);
				CHECK(s, pos == 0 || buf[pos] == 0, "a refused call damaged the terminator");
			}
			JSON::Serializer::ModeType m = j.GetCurrMode();
			Frame &g = st.back();
			JSON::Serializer::ModeType em = g.m == 'R' ? (g.first ? JSON::Serializer::ModeRootFirst : JSON::Serializer::ModeRootNext) : g.m == 'O' ? (g.first ? JSON::Serializer::ModeObjectFirst : JSON::Serializer::ModeObjectNext) : g.m == 'A' ? (g.first ? JSON::Serializer::ModeArrayFirst : JSON::Serializer::ModeArrayNext) : JSON::Serializer::ModeStr;
			CHECK(s, m == em, "GetCurrMode() is %d, expected %d", (int)m, (int)em);
			CHECK(s, j.IsKeyRequired() == (g.m == 'O'), "IsKeyRequired() is wrong");
			// Streaming: take what is there and start over at the front of the buffer.
			if (s.chance(tight ? 25 : 10)) { out.append((char *)buf.get(), npos); j.ResetPos(); s.note("(flush %zu)", npos); }
		}
		// Close everything (flushing when it does not fit).
		if (s.flip()) { out.append((char *)buf.get(), j.GetCurrPos()); j.ResetPos(); s.note("(flush, Finish)"); } else s.note("(Finish)");
		if (!any) return;
		for (size_t guard = 0; st.size() > 1 && guard < 2000; guard++)
		{
			if (cap == 0) { CHECK(s, !j.Finish(), "Finish() succeeded with no room"); return; }
			size_t pos = j.GetCurrPos(), room = cap - pos, open = st.size() - 1;
			bool fin = j.Finish();
			CHECK(s, fin == (open <= room), "Finish() returned %d with %zu levels open and room for %zu bytes", fin, open, room);
			CHECK(s, j.GetCurrPos() == pos + (fin ? open : room) && buf[j.GetCurrPos()] == 0, "Finish() wrote %zu bytes with %zu levels open and room for %zu bytes", j.GetCurrPos() - pos, open, room);
			if (!fin) st.resize(st.size() - room);
			out.append((char *)buf.get(), j.GetCurrPos());
			j.ResetPos();
			if (fin) { st.resize(1); break; }
		}
		out.append((char *)buf.get(), j.GetCurrPos()); j.ResetPos();
		CHECK(s, st.size() == 1, "Finish() never succeeds");
		CHECK(s, j.GetCurrMode() == JSON::Serializer::ModeRootNext, "mode after Finish() is %d", (int)j.GetCurrMode());
		Val got; Parser p(out);
		CHECK(s, p.doc(got), "output is not valid JSON (%s): %s", p.err.c_str(), quote(out, 400).c_str());
		std::string why;
		CHECK(s, same(root, got, why), "document does not decode to what was appended: %s; output %s", why.c_str(), quote(out, 400).c_str());
		if (tight ? (refused && accepted) : (accepted >= 3 && special)) s.nontrivial(pbt::hashStr(out));
	}
}

PROP(J01, json_document, 10, "random call sequences (objects, arrays, streamed strings, all scalar types, hostile text, whitespace, flush/ResetPos) on random separators/escape settings; the concatenated output is parsed by an independent strict RFC 8259 parser and compared with the appended values.  Non-trivial: >= 3 accepted calls, at least one double or string that needs escaping.")
{
	jsonCase(s, false);
}

PROP(J02, json_tight, 10, "as json_document, in exactly-sized buffers of 1..200 bytes with illegal calls mixed in; acceptance is predicted from the nesting rules and the exact space needed.  Non-trivial: at least one call accepted and one refused.")
{
	jsonCase(s, true);
}

PROP(J01, json_large, 2, "as json_document, with keys and strings of up to 70000 bytes, or nesting to the depth limit (100 to 800).  Non-trivial: as json_document.") { jsonCase(s, false, 1 + (unsigned)s.draw(1)); }
PROP(J02, json_tight_large, 1, "as json_tight, with keys and strings of up to 70000 bytes in buffers of 1000 to 100000 bytes, or nesting past the depth limit (100 to 800).  Non-trivial: as json_tight.") { jsonCase(s, true, 1 + (unsigned)s.draw(1)); }

PROP(J02, json_no_room, 1, "calls on a serializer that has no buffer, or is handed a buffer of 0 bytes in the middle of a document, then a real one: nothing is written while there is no room, refused calls change nothing, and the document continues where it stopped.  Non-trivial: the calls without room were made inside a value.")
{
	JSON::Serializer j(s.flip()); std::vector<std::uint8_t> big(4000); std::string out; unsigned where = (unsigned)s.draw(4); bool given = where || s.flip();
	if (where) { j.SetBuffer(big.data(), big.size()); if (where == 1) CHECK(s, j.StartObject(), "failed"); if (where == 2) CHECK(s, j.StartArray(), "failed"); if (where >= 3) CHECK(s, j.StartStr() && (where == 3 || j.AppendStr("ab")), "failed"); out.append((char *)big.data(), j.GetCurrPos()); s.nontrivial(); }
	std::unique_ptr<std::uint8_t[]> none(new std::uint8_t[0]);
	if (given) { j.SetBuffer(s.flip() ? none.get() : NULL, 0); CHECK(s, j.GetBufferSize() == 0, "GetBufferSize() is %zu for a 0 byte buffer", j.GetBufferSize()); }
	JSON::Serializer::ModeType m = j.GetCurrMode(); bool obj = where == 1; const char *k = obj ? "k" : NULL;
	for (unsigned i = 0, n = (unsigned)s.uni(1, 8); i < n; i++)
	{
		bool ok = false, empty = false; unsigned op = (unsigned)s.draw(13);
		switch (op)
		{
			case 0: ok = j.StartObject(k); break; case 1: ok = j.StartArray(k); break; case 2: ok = j.StartStr(k); break; case 3: ok = j.AppendNull(k); break;
			case 4: ok = j.AppendBool(k, true); break; case 5: ok = j.AppendInt(k, 5); break; case 6: ok = j.AppendUInt(k, 5); break; case 7: ok = j.AppendDouble(k, 0.5); break;
			case 8: empty = where >= 3; ok = j.AppendStr(k, ""); break; case 9: ok = j.AppendStr(k, "x", 1); break; case 10: empty = true; ok = j.Append("", 0); break;
			case 11: ok = j.Append(" "); break; case 12: ok = where == 1 ? j.EndObject() : where == 2 ? j.EndArray() : where ? j.EndStr() : false; break; default: ok = where ? j.Finish() : false; break;
		}
		s.note("call %u without room = %d", op, ok);
		CHECK(s, !ok || empty, "call %u succeeded without room", op);
		CHECK(s, j.GetCurrPos() == 0 && j.GetCurrMode() == m, "call %u changed the state without room: position %zu, mode %d", op, j.GetCurrPos(), (int)j.GetCurrMode());
	}
	j.SetBuffer(big.data(), big.size()); if (!where) CHECK(s, j.AppendInt(NULL, 7), "AppendInt failed"); if (where == 2) CHECK(s, j.AppendNull(NULL), "AppendNull failed");
	CHECK(s, j.Finish(), "Finish() failed"); out.append((char *)big.data(), j.GetCurrPos());
	static const char *W[] = { "7", "{}", "[null]", "\"\"", "\"ab\"" };
	CHECK(s, out == W[where], "the document is %s", quote(out).c_str());
}

namespace {
void exactFit(Src &s, bool large)
{
	bool esc = s.flip(), obj = s.flip(); std::string key = genText(s, false), v; unsigned kind = (unsigned)s.draw(5);
	bool sized = s.flip(), b = s.flip(); v = genText(s, sized); if (large) { if (s.chance(70)) kind = 0; enlarge(s, v, true); if (obj) enlarge(s, key); } std::int64_t i = s.i64any(); u64 u = s.u64any(); double d = (double)s.irange(-1000000, 1000000) / 128.0;
	auto run = [&](JSON::Serializer &j) -> bool
	{
		const char *k = obj ? key.c_str() : NULL;
		switch (kind) { case 0: return sized ? j.AppendStr(k, v.data(), v.size()) : j.AppendStr(k, v.c_str()); case 1: return j.AppendInt(k, i); case 2: return j.AppendUInt(k, u); case 3: return j.AppendDouble(k, d); case 4: return j.AppendNull(k); default: return j.AppendBool(k, b); }
	};
	std::vector<std::uint8_t> big(large ? 1000000 : 4096);
	JSON::Serializer r(esc); r.SetBuffer(big.data(), big.size()); if (obj) r.StartObject();
	CHECK(s, run(r), "refused in a buffer that is large enough");
	size_t n = r.GetCurrPos(); size_t slack = kind == 5 && b ? 1 : 0;
	s.note("kind %u key %s str %s int %lld uint %llu double %g bool %d: %zu bytes", kind, obj ? quote(key).c_str() : "-", quote(v).c_str(), (long long)i, (unsigned long long)u, d, b, n);
	for (size_t sz = large && n > 4 ? n - 2 - s.draw(n - 4) : 1; sz <= n + 4; sz = large && sz + 4 < n ? n - 3 : sz + 1)
	{
		std::unique_ptr<std::uint8_t[]> buf(new std::uint8_t[sz]);
		memset(buf.get(), 0xA5, sz);
		JSON::Serializer j(esc); j.SetBuffer(buf.get(), sz);
		if (obj && !j.StartObject()) { CHECK(s, sz == 1, "StartObject refused in %zu bytes", sz); continue; }
		size_t pos = j.GetCurrPos();
		bool ok = run(j);
		CHECK(s, !ok || sz - 1 >= n, "accepted %zu bytes in a %zu byte buffer", n, sz);
		CHECK(s, ok || sz - 1 < n + slack, "refused %zu bytes in a %zu byte buffer", n, sz);
		if (ok) { CHECK(s, j.GetCurrPos() == n && !memcmp(buf.get(), big.data(), n + 1), "output depends on the buffer size"); }
		else CHECK(s, j.GetCurrPos() == pos && (!pos || buf[pos] == 0), "a refused call changed the output");
	}
	if (n >= (large ? 200u : 2u)) s.nontrivial();
}
}
PROP(J02, json_exact_fit, 3, "one value (or key/value) serialized into every buffer size from 1 to needed+3.  Non-trivial: the value needs at least 2 bytes.") { exactFit(s, false); }
PROP(J02, json_exact_fit_large, 1, "as json_exact_fit, with texts and keys of up to 70000 characters (mostly around powers of two), in buffers around the exact fit and one smaller.  Non-trivial: 200 bytes or more.") { exactFit(s, true); }

namespace
{
	// Switches to a locale whose decimal separator is a comma (1) or a two byte character (2), made on the spot.
	bool otherLocale(int which)
	{
		static locale_t made[3]; const char *name = which == 1 ? "vv_V1" : "vv_V2";
		if (made[which]) { uselocale(made[which]); return true; }
		char dir[] = "/tmp/verif_lcXXXXXX"; if (!mkdtemp(dir)) return false;
		std::string d = std::string(dir) + "/" + name, f = d + "/LC_NUMERIC"; std::uint32_t off[8] = { 0x20031114, 6, 0x20, 0x22, 0x24, 0x28, 0x2C, 0x30 }; std::string t;
		if (which == 2) { off[3] = 0x23; off[4] = 0x25; t = std::string("\xD9\xAB\0.\0\3\3\0", 8); } else t = std::string(",\0.\0\3\3\0\0", 8);
		std::uint32_t wide[2] = { which == 2 ? 0x66Bu : (std::uint32_t)',', '.' }; std::string all((char *)off, sizeof off); all += t; all.append((char *)wide, sizeof wide); all += which == 2 ? std::string("UTF-8\0", 6) : std::string("ANSI_X3.4-1968\0", 15);
		bool ok = false; if (!mkdir(d.c_str(), 0700)) if (FILE *fp = fopen(f.c_str(), "wb")) { ok = fwrite(all.data(), 1, all.size(), fp) == all.size(); fclose(fp); }
		if (ok) { setenv("LOCPATH", dir, 1); made[which] = newlocale(LC_NUMERIC_MASK, name, (locale_t)0); ok = made[which] != (locale_t)0; unsetenv("LOCPATH"); }
		unlink(f.c_str()); rmdir(d.c_str()); rmdir(dir); if (ok) uselocale(made[which]); return ok;
	}
}
PROP(J01, json_double_locale, 1, "doubles of any size and precision, alone, in arrays and under keys, while the process uses a locale with another decimal separator (comma, or a two byte character): the text is the one of the C locale.  Non-trivial: the number has a decimal separator.")
{
	unsigned n = (unsigned)s.uni(1, 4); bool obj = s.flip(); std::vector<std::uint8_t> buf(8000); JSON::Serializer j; j.SetBuffer(buf.data(), buf.size()); std::string want = obj ? "{" : "["; bool nt = false;
	struct Back { ~Back() { uselocale(LC_GLOBAL_LOCALE); } } back; int which = 1 + (int)s.draw(1); CHECK(s, obj ? j.StartObject() : j.StartArray(), "refused"); std::vector<std::pair<double, size_t>> v;
	for (unsigned i = 0; i < n; i++)
	{
		double d = 0; switch (s.draw(3)) { case 0: d = (double)s.irange(-1000000, 1000000) / 128; break; case 1: d = (double)s.i64any(); break; case 2: { u64 b = s.u64any(); memcpy(&d, &b, 8); if (d - d != 0) d = 2.5e-300; break; } default: d = (double)s.irange(-9, 9) * 1e-7; }
		size_t p = s.flip() ? 16 : s.uni(1, 20); char t[400]; snprintf(t, sizeof t, "%1.*g", (int)p, d); if (strchr(t, '.')) nt = true; v.push_back({ d, p }); want += std::string(i ? ", " : "") + (obj ? "\"k" + std::to_string(i) + "\" : " : "") + t; s.note("%s", t);
	}
	if (!otherLocale(which)) throw pbt::Discard(); char probe[40]; snprintf(probe, sizeof probe, "%g", 1.5); if (strchr(probe, '.')) throw pbt::Discard();
	for (unsigned i = 0; i < n; i++) { std::string k = "k" + std::to_string(i); CHECK(s, j.AppendDouble(obj ? k.c_str() : NULL, v[i].first, v[i].second), "AppendDouble() refused"); }
	CHECK(s, obj ? j.EndObject() : j.EndArray(), "refused"); uselocale(LC_GLOBAL_LOCALE); want += obj ? "}" : "]"; std::string got((char *)buf.data());
	// Only the numbers matter here.
	auto strip = [](const std::string &a) { std::string r; for (char c : a) if (c != ' ') r += c; return r; }; CHECK(s, strip(got) == strip(want), "in a locale with '%s' as separator, got %s, expected %s", which == 1 ? "," : "two bytes", quote(got, 200).c_str(), quote(want, 200).c_str());
	if (nt) s.nontrivial();
}
