// Text filters: counting, measuring, cutting, padding, picking, inserting, replacing, as their manuals say.
#include "model.h"
#include "unidata.h"
#include "scores.h"

struct Span { uint32_t a, b; char k; };
struct Data {
	std::vector<Span> width;
	std::map<std::string, std::vector<Span>> cls;
	std::vector<std::string> names;
	Data() {
		for (auto &w : split(UD_WIDTH, ' ')) if (!w.empty()) width.push_back(span(w));
		for (auto &w : split(UD_CLASS, ' ')) if (!w.empty()) {
			auto kv = split(w, '=');
			for (auto &r : split(kv[1], ',')) cls[kv[0]].push_back(span(r));
			names.push_back(kv[0]);
		}
		for (const char *t : {"UNICODE", "BYTE", "ANSI", "CNS11643"}) names.push_back(t);
	}
	static Span span(const std::string &s) { char *e; Span r; r.a = strtoul(s.c_str(), &e, 16); r.b = strtoul(e + 1, &e, 16); r.k = *e ? e[1] : 0; return r; }
};
static const Data &ud() { static const Data d; return d; }
static uint32_t ucs(const std::string &pk) { uint32_t u = 0; for (size_t i = 1; i < pk.size(); i++) u = u << 8 | (unsigned char)pk[i]; return u; }
static bool in_class(const std::string &name, const std::string &pk) {
	static const std::map<std::string, int> types = {{"UNICODE", 1}, {"CNS11643", 2}, {"BYTE", 3}, {"ANSI", 0x1B}};
	if (pk.empty()) throw Undecided();
	auto t = types.find(name);
	if (t != types.end()) return pk[0] == t->second;
	auto it = ud().cls.find(name);
	if (it == ud().cls.end()) throw Undecided();
	if (pk[0] != 1) return false;
	uint32_t u = ucs(pk);
	for (auto &r : it->second) if (u >= r.a && u <= r.b) return true;
	return false;
}
static char width_class(const std::string &pk) { // F, H, A, or N: none
	if (pk.empty()) throw Undecided();
	if (pk[0] != 1) return 'N';
	uint32_t u = ucs(pk);
	for (auto &r : ud().width) if (u >= r.a && u <= r.b) return r.k;
	throw Undecided(); // unassigned, or newer than the data
}
static Packets data_of(const std::string &dotted) { Packets r; if (!dotted.empty()) for (auto &x : split(dotted, '.')) { if (x.size() % 2 || x.empty()) throw Undecided(); r.push_back(unhex_bytes(x)); } return r; }
struct Arg { std::string key, val; bool has; };
static std::string upper(std::string s) { for (auto &c : s) c = toupper((unsigned char)c); return s; }
static std::vector<Arg> args_of(const std::string &codec, std::string &name) {
	std::vector<Arg> r;
	size_t h = codec.find('#');
	name = upper(codec.substr(0, h));
	if (h != std::string::npos) for (auto &a : split(codec.substr(h + 1), '&')) { size_t e = a.find('='); r.push_back({a.substr(0, e), e == std::string::npos ? "" : a.substr(e + 1), e != std::string::npos}); }
	return r;
}
// Scores: what a character is worth to a scorer, in a trained table, or by itself or with its neighbours.
struct Worth {
	std::map<std::string, std::vector<std::pair<Span, uint64_t>>> scorer;
	std::vector<std::pair<Packets, uint64_t>> phrase;
	std::map<std::string, uint64_t> single;
	std::vector<std::string> singles;
	Worth() {
		for (int k = 0; k < 2; k++) for (auto &w : split(k ? SC_LATIN1 : SC_CJK, ' ')) if (!w.empty()) scorer[k ? "LATIN1" : "CJK"].push_back({Data::span(w), strtoul(strchr(w.c_str(), '=') + 1, nullptr, 10)});
		for (auto &w : split(SC_ZH_BONUS, ' ')) if (!w.empty()) { auto kv = split(w, '='); singles.push_back(unhex_bytes(kv[0])); single[singles.back()] = atoi(kv[1].c_str()); }
		for (auto &w : split(SC_ZH_BONUS_PHRASE, ' ')) if (!w.empty()) { auto kv = split(w, '='); Packets k; for (auto &x : split(kv[0], '.')) k.push_back(unhex_bytes(x)); phrase.push_back({k, (uint64_t)atoi(kv[1].c_str())}); }
	}
};
static const Worth &worth() { static const Worth w; return w; }
static std::string trained; // the table on file
static bool has_trained = false;
static bool pad_on = true; // as told through bsdconv_ctl()
// One step of a conversion that looks at single characters: whether it takes the character, and what it gives.
struct Step {
	std::string name, filter, ctr;
	Packets after, before, from, to;
	bool limited = false, wide = false, armed = false, run = false;
	long limit = 0, remain = 0;
	size_t minlen = 1;
	Packets held;
	std::string with = "CJK";
	Step(const std::string &codec, bool last) {
		bool named = false;
		auto v = args_of(codec, name);
		if (name == "COUNT") ctr = "COUNT";
		if (name == "SCORE") ctr = "SCORE";
		if (name == "STRINGS") { filter = "PRINT"; after = data_of("010A"); }
		if (name == "ANY") to = data_of(last ? "3F" : "013F");
		for (auto &a : v) {
			std::string k = upper(a.key);
			if (name == "INSERT" || name == "STRINGS") { if (k == "AFTER") { after = data_of(a.val); continue; } if (k == "BEFORE") { before = data_of(a.val); continue; } }
			if ((name == "COUNT" || name == "STRINGS" || name == "PASS") && k == "FOR") { filter = upper(a.val); continue; }
			if (name == "COUNT") { if (named) throw Undecided(); ctr = a.key; named = true; continue; }
			if (name == "STRINGS" && k == "MIN-LEN") { minlen = atoi(a.val.c_str()); continue; }
			if (name == "PASS" && k == "LIMIT") { limit = atoi(a.val.c_str()); limited = limit != 0; continue; }
			if (name == "TRIM-WIDTH") { if (k[0] == 'A') wide = true; else remain = atol(a.key.c_str()); continue; }
			if (name == "REPLACE") { if (!from.empty()) throw Undecided(); from = data_of(a.key); to = data_of(a.val); continue; }
			if (name == "ANY") { if (k == "ERROR") ctr = a.has ? a.val : last ? "OERR" : "IERR"; else to = k == "DROP" ? Packets() : data_of(a.key); continue; }
			if (name == "SCORE" && a.has && k == "WITH") { with = upper(a.val); continue; }
			if (name == "SCORE" && a.has && k == "AS") { ctr = a.val; continue; }
			throw Undecided();
		}
	}
	bool take(const std::string &p, Packets &out, Counters &cnt) {
		if (name == "NULL") return true;
		if (name == "SCORE") {
			uint64_t v = 0;
			if (p.empty()) throw Undecided();
			if (with == "TRAINED") { if (has_trained && p[0] == 1 && ucs(p) < trained.size()) v = (unsigned char)trained[ucs(p)]; cnt[ctr] += v; out.push_back(p); return true; }
			auto it = worth().scorer.find(with);
			if (it == worth().scorer.end()) throw Undecided();
			if (p[0] == 1) for (auto &r : it->second) if (ucs(p) >= r.first.a && ucs(p) <= r.first.b) v = r.second;
			cnt[ctr] += v;
			if (!v) return false; // worth nothing: left to the next codec
			out.push_back(p);
			return true;
		}
		if (name == "ZH-BONUS") {
			auto it = worth().single.find(p);
			if (it == worth().single.end()) return false;
			cnt["SCORE"] += it->second;
			out.push_back(p);
			return true;
		}
		if (name == "ANY") { if (!ctr.empty()) cnt[ctr]++; out.insert(out.end(), to.begin(), to.end()); return true; }
		if (name == "PASS") {
			if (!filter.empty() && !in_class(filter, p)) return false;
			if (limited && limit-- <= 0) { limit = 0; return false; }
			out.push_back(p);
			return true;
		}
		if (name == "INSERT") { out.insert(out.end(), before.begin(), before.end()); out.push_back(p); out.insert(out.end(), after.begin(), after.end()); return true; }
		if (name == "COUNT") { if (filter.empty() || in_class(filter, p)) cnt[ctr]++; out.push_back(p); return true; }
		if (name == "WIDTH") { char k = width_class(p); if (k != 'N') cnt[k == 'F' ? "FULL" : k == 'H' ? "HALF" : "AMBI"]++; out.push_back(p); return true; }
		if (name == "TRIM-WIDTH") {
			char k = width_class(p);
			long w = k == 'F' ? 2 : k == 'H' ? 1 : k == 'A' ? 1 + wide : 0;
			if (remain >= w) { remain -= w; out.push_back(p); } else remain = -1; // nothing follows what did not fit
			return true;
		}
		if (name == "AMBIGUOUS-PAD") { out.push_back(p); if (width_class(p) == 'A' && pad_on) out.push_back("\x01\xA0"); return true; }
		if (name == "AMBIGUOUS-UNPAD") {
			bool pad = armed && p == "\x01\xA0";
			armed = !pad && width_class(p) == 'A' && pad_on;
			if (!pad) out.push_back(p);
			return true;
		}
		throw Undecided();
	}
	void end_run(Packets &out) {
		if (held.size() >= minlen && !held.empty()) { out.insert(out.end(), before.begin(), before.end()); out.insert(out.end(), held.begin(), held.end()); out.insert(out.end(), after.begin(), after.end()); }
		held.clear();
	}
};
// Tables and words that give one character for each: what they give is for C18, C21 and C26 to say, here it is taken from
// a conversion of its own.  Some of them hold characters back until it is clear what follows.
static const std::vector<std::string> one_for_one = {"ZHTW-WORDS", "ZHTW", "ZHCN", "KANJI", "NFC", "NFD", "NFKC"};
static Packets by_table(const std::string &name, const Packets &in) {
	std::string h;
	for (auto &p : in) h += hexs(p) + ",";
	Outcome o = one_shot("BSDCONV:" + name + ":INSERT#AFTER=002C:BSDCONV-KEYWORD,BSDCONV", h);
	Packets out;
	for (auto &w : split(o.out, ',')) if (!w.empty()) out.push_back(unhex_bytes(w));
	if (out.size() != in.size() || (name[0] == 'N' && out != in)) throw Undecided();
	return out;
}
static Packets filtered(const std::string &phase, const Packets &in, Counters &cnt) {
	if (std::find(one_for_one.begin(), one_for_one.end(), phase) != one_for_one.end()) return by_table(phase, in);
	std::vector<Step> st;
	for (auto &c : split(phase, ',')) st.emplace_back(c, false);
	Packets out;
	if (st[0].name == "REPLACE") {
		if (st.size() > 1 || st[0].from.empty()) throw Undecided();
		auto &f = st[0].from;
		for (size_t i = 0; i < in.size();) {
			if (i + f.size() <= in.size() && std::equal(f.begin(), f.end(), in.begin() + i)) { out.insert(out.end(), st[0].to.begin(), st[0].to.end()); i += f.size(); }
			else out.push_back(in[i++]);
		}
		return out;
	}
	if (st[0].name == "ZH-BONUS-PHRASE") {
		if (st.size() > 1) throw Undecided();
		for (size_t i = 0; i < in.size();) {
			size_t n = 0;
			for (auto &f : worth().phrase) if (f.first.size() > n && i + f.first.size() <= in.size() && std::equal(f.first.begin(), f.first.end(), in.begin() + i)) { n = f.first.size(); out.insert(out.end(), f.first.begin(), f.first.end()); cnt["SCORE"] += f.second; break; }
			if (!n) { n = 1; out.push_back(in[i]); }
			i += n;
		}
		return out;
	}
	if (st[0].name == "STRINGS") {
		if (st.size() > 1) throw Undecided();
		for (auto &p : in) if (in_class(st[0].filter, p)) st[0].held.push_back(p); else st[0].end_run(out);
		st[0].end_run(out);
		return out;
	}
	if (st[0].name == "BIG5-DEFRAG") { // control sequences between a lead byte and its trail byte are moved behind them
		if (st.size() > 1) throw Undecided();
		for (size_t i = 0; i < in.size();) {
			out.push_back(in[i]);
			if (in[i].empty()) throw Undecided();
			bool lead = in[i].size() > 1 && in[i][0] == 3 && (unsigned char)in[i][1] > 0x7F;
			if (!lead) { i++; continue; }
			size_t q = ++i;
			while (q < in.size() && !in[q].empty() && in[q][0] == 0x1B) q++;
			if (q < in.size()) out.push_back(in[q]);
			out.insert(out.end(), in.begin() + i, in.begin() + q);
			i = q + 1;
		}
		return out;
	}
	for (auto &p : in) {
		size_t k = 0;
		while (k < st.size() && !st[k].take(p, out, cnt)) k++;
		if (k == st.size()) out.push_back(p);
	}
	return out;
}
// What a conversion of the shape below gives; throws Undecided when the manuals leave it open.
static std::string model_filters(const std::string &conv, const std::string &in, Counters &cnt) {
	auto ph = split(conv, ':');
	if (ph.size() < 2) throw Undecided();
	Packets d;
	auto from = split(ph[0], ',');
	if (from[0] == "BSDCONV" && from.size() == 1) {
		std::string h;
		for (char c : in + ",") { if (isxdigit((unsigned char)c)) { h += c; continue; } if (h.size() % 2) throw Undecided(); if (!h.empty()) d.push_back(unhex_bytes(h)); h.clear(); cnt["IERR"]++; }
	} else if (from[0] == "ANSI-CONTROL" && from.size() == 2 && from[1] == "BYTE") {
		for (size_t q = 0; q < in.size();) {
			size_t n = 0;
			if (in[q] == 0x1B) for (size_t k = q + 1; k < in.size() && !n; k++) {
				unsigned char c = in[k];
				if ((isalpha(c) && c < 128 && c != 'O') || k - q == 29 || (k == q + 1 && c != '[')) n = k + 1 - q;
			}
			if (n) d.push_back(in.substr(q, n)); else d.push_back(std::string("\x03") + in[q]);
			q += n ? n : 1;
		}
	} else if (from.size() < 3 && (from[0] == "UTF-8" || from[0] == "ASCII")) {
		std::vector<Step> st;
		if (from.size() > 1) { st.emplace_back(from[1], false); if (st[0].name != "ANY") throw Undecided(); }
		for (size_t q = 0; q < in.size();) {
			uint32_t c = (unsigned char)in[q];
			size_t n = c < 0x80 ? 1 : from[0] == "UTF-8" ? utf8_at(in, q, false, c) : 0;
			if (!c) throw Undecided();
			if (n) d.push_back(ucs_packet(c));
			else if (st.empty()) cnt["IERR"]++;
			else { if (from[0] == "UTF-8") throw Undecided(); st[0].take("", d, cnt); }
			q += n ? n : 1;
		}
	} else throw Undecided();
	std::vector<std::pair<size_t, std::string>> aside; // white space on the side, with how many characters went before
	bool derailed = false;
	for (size_t i = 1; i + 1 < ph.size(); i++) {
		if (ph[i] == "WHITESPACE-DERAIL") {
			if (derailed) throw Undecided();
			derailed = true;
			Packets r;
			for (auto &p : d) if (p == "\x01\x09" || p == "\x01\x0A" || p == "\x01\x0D" || p == "\x01\x20") aside.push_back({r.size(), p}); else r.push_back(p);
			d = r;
		} else if (ph[i] == "WHITESPACE-RERAIL") {
			if (!derailed) throw Undecided();
			Packets r;
			size_t a = 0, n = 0;
			for (auto &p : d) { while (a < aside.size() && aside[a].first <= n) r.push_back(aside[a++].second); r.push_back(p); n++; }
			while (a < aside.size()) r.push_back(aside[a++].second);
			d = r; derailed = false; aside.clear();
			if (i + 2 < ph.size() && std::find(ph.begin() + i + 1, ph.end(), "WHITESPACE-DERAIL") != ph.end()) throw Undecided(); // one siding per conversion
		} else {
			size_t had = d.size();
			std::string n = split(split(ph[i], ',')[0], '#')[0];
			d = filtered(ph[i], d, cnt);
			if (derailed && (d.size() > had || ph[i].find("INSERT") != std::string::npos || n == "STRINGS" || n == "REPLACE" || ph[i].find("AMBIGUOUS-PAD") != std::string::npos)) throw Undecided(); // more characters than before: where the white space goes is left open
		}
	}
	if (derailed) throw Undecided();
	auto to = split(ph.back(), ',');
	std::string out;
	Packets o;
	if (to.size() > 2) throw Undecided();
	std::vector<Step> st;
	if (to.size() > 1) { st.emplace_back(to[1], true); if (st[0].name != "ANY" && st[0].name != "NULL") throw Undecided(); }
	for (auto &p : d) {
		if (to[0] == "BSDCONV") { out += hexs(p); continue; }
		uint32_t u = ucs(p);
		if (p.empty() || (p[0] == 1 && (p != ucs_packet(u) || !u || u == 0x2DC))) throw Undecided(); // the small tilde has a place of its own in ASCII
		if (to[0] == "UTF-8" && p[0] == 1 && scalar(u)) put_utf8(out, u);
		else if (to[0] == "ASCII" && p[0] == 1 && u < 0x80) out += (char)u;
		else if (to[0] == "NULL") {}
		else if (to[0] != "UTF-8" && to[0] != "ASCII") throw Undecided();
		else if (st.empty()) cnt["OERR"]++;
		else { o.clear(); st[0].take(p, o, cnt); for (auto &x : o) out += x; }
	}
	return out;
}

// Both ends of every range, and their neighbours outside: some consecutive ones per run.
static Plan gen_ends(Rng &g, uint64_t n) {
	Plan p;
	auto &u = ud();
	std::vector<uint32_t> c;
	std::string conv = "UTF-8:", in;
	auto ends = [&](const Span &s) { for (int64_t x : {(int64_t)s.a - 1, (int64_t)s.a, (int64_t)s.b, (int64_t)s.b + 1}) if (x > 0 && scalar(x)) c.push_back(x); if (s.b > s.a + 1) for (int i = 0; i < 2; i++) { uint32_t x = s.a + g.below(s.b - s.a); if (x && scalar(x)) c.push_back(x); } };
	if (n % 2) {
		auto it = u.cls.begin();
		std::advance(it, n / 2 % u.cls.size());
		size_t most = 12, at = it->second.size() <= most ? 0 : n / 2 / u.cls.size() * most % it->second.size();
		for (size_t i = at; i < it->second.size() && i < at + most; i++) ends(it->second[i]);
		int k = g.below(4);
		conv += k == 0 ? "COUNT#FOR=" + it->first : k == 1 ? "STRINGS#MIN-LEN=1&FOR=" + it->first : k == 2 ? "COUNT#FOR=" + it->first + ",NULL" : "PASS#FOR=" + it->first + ",INSERT#BEFORE=013C&AFTER=013E";
	} else {
		size_t most = 12, at = n / 2 * most % u.width.size();
		for (size_t i = at; i < u.width.size() && i < at + most; i++) ends(u.width[i]);
		int k = g.below(4);
		conv += k == 0 ? "WIDTH" : k == 1 ? fmt("TRIM-WIDTH#%d", 30 + (int)g.below(60)) + (g.chance(50) ? "&AMBI-AS-WIDE" : "") : k == 2 ? "AMBIGUOUS-PAD" : "AMBIGUOUS-PAD:AMBIGUOUS-UNPAD";
	}
	conv += ":UTF-8";
	if (g.chance(50)) for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[g.below(i)]);
	bool undecided = conv.find("WIDTH") != std::string::npos || conv.find("AMBI") != std::string::npos;
	for (auto x : c) {
		if (undecided) { bool known = false; for (auto &w : u.width) known = known || (x >= w.a && x <= w.b); if (!known) continue; }
		put_utf8(in, x);
	}
	p.add("in", {}, {in});
	p.add("conv", {}, {conv});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static Plan gen_c22(Rng &g, int tier) {
	if (run_no % 16 == run_no / 16 % 16) return gen_ends(g, run_no / 16);
	Plan p;
	auto &u = ud();
	bool typed = g.chance(35);
	std::vector<std::string> used; // classes the conversion asks for
	auto cls = [&]() {
		std::string n = g.chance(25) ? g.pick(u.names) : g.chance(50) ? g.pick(std::vector<std::string>{"CJK", "LATIN", "PRINT", "ROMAN", "GREEK", "CYRILLIC", "HIRAGANA", "KATAKANA", "PUNCTUATION", "LATIN1"}) : g.pick(std::vector<std::string>{"UNICODE", "BYTE", "ANSI", "CNS11643", "CJK", "PUA", "HANGUL"});
		used.push_back(n);
		return n;
	};
	// few characters make matches, runs and near misses likely
	std::vector<std::string> few;
	auto a_char = [&]() -> std::string {
		for (;;) {
			uint32_t c;
			switch (g.below(8)) {
			case 0: c = 0x20 + g.below(0x5F); break;
			case 1: case 2: { auto &w = g.pick(u.width); c = g.chance(50) ? w.a : g.chance(50) ? w.b : w.a + g.below(w.b - w.a + 1); break; }
			case 3: case 4: { if (used.empty()) continue; auto it = u.cls.find(g.pick(used)); if (it == u.cls.end()) { c = 0x61; break; } auto &r = g.pick(it->second); c = g.chance(60) ? r.a + g.below(r.b - r.a + 1) : g.chance(50) ? r.a - g.below(2) : r.b + g.below(2); break; }
			case 5: c = g.chance(70) ? 0xA0 : 0xA000 + g.below(256); break;
			case 6: c = g.below(0x30000); break;
			default: c = 1 + g.below(0x60);
			}
			if (!c || (!typed && !scalar(c)) || c > 0x10FFFF) continue;
			if (typed && g.chance(25)) { static const char t[] = {2, 3, 4, 0x1B}; std::string s(1, t[g.below(4)]); for (int n = 1 + g.below(3); n > 0; n--) s += (char)(g.chance(40) ? 0xA0 : g.below(256)); return s; }
			return ucs_packet(c);
		}
	};
	auto some = [&]() { if (few.empty()) for (int i = 0; i < 3; i++) few.push_back(a_char()); return g.chance(60) ? g.pick(few) : a_char(); };
	auto list = [&](int most) { std::string r; for (int n = 1 + g.below(most); n > 0; n--) r += (r.empty() ? "" : ".") + hexs(some(), &g); return r; };
	auto single = [&](bool may_refuse) -> std::string {
		switch (g.below(may_refuse ? 10 : 6)) {
		case 0: { std::string s = "INSERT#"; int w = g.below(3); if (w != 1) s += "AFTER=" + list(3); if (w == 2) s += "&"; if (w) s += "BEFORE=" + list(3); return s; }
		case 1: case 2: { std::string s = "COUNT"; if (g.chance(70)) s += "#FOR=" + cls(); if (g.chance(40)) s += (s.size() > 5 ? "&" : "#") + g.pick(std::vector<std::string>{"FOO", "Bar", "IERR", "FULL"}); return s; }
		case 3: return "WIDTH";
		case 4: return "NULL";
		case 5: return g.chance(60) ? "AMBIGUOUS-PAD" : "AMBIGUOUS-UNPAD";
		}
		int w = g.below(4);
		return w == 0 ? "PASS" : w == 1 ? "PASS#FOR=" + cls() : w == 2 ? fmt("PASS#LIMIT=%d", (int)(1 + g.below(8))) : "PASS#FOR=" + cls() + fmt("&LIMIT=%d", (int)(1 + g.below(8)));
	};
	std::string conv, pat;
	bool big5 = g.chance(7), rail = g.chance(10);
	if (big5) conv = "ANSI-CONTROL,BYTE"; else if (g.chance(12)) conv = g.chance(50) ? "ASCII,ANY" : "UTF-8"; else conv = typed ? "BSDCONV" : "UTF-8";
	typed = conv == "BSDCONV";
	if (conv == "ASCII,ANY") {
		std::vector<std::string> a;
		if (g.chance(60)) a.push_back(g.chance(25) ? "DROP" : list(3));
		if (g.chance(60)) a.push_back(g.chance(50) ? "ERROR" : "ERROR=FOO");
		for (size_t i = 0; i < a.size(); i++) conv += (i ? "&" : "#") + a[g.chance(50) && a.size() == 2 ? 1 - i : i];
		if (conv.find("ERROR", 6) != std::string::npos && conv.find("ERROR") != conv.rfind("ERROR")) conv = "ASCII,ANY#ERROR";
	}
	if (rail) conv += ":WHITESPACE-DERAIL";
	bool words = rail && g.chance(60);
	for (int i = 0, n = words && g.chance(70) ? 0 : 1 + g.below(g.chance(25) ? 4 : 2); i < n || (words && i == n); i++) {
		conv += ":";
		if (words && i == n) { conv += g.pick(one_for_one); if (g.chance(25)) conv += ":" + g.pick(one_for_one); continue; }
		if ((big5 || typed) && g.chance(big5 ? 60 : 5)) { conv += "BIG5-DEFRAG"; continue; }
		int k = rail ? 8 + g.below(12) : g.below(20);
		if (k < 4) { pat = list(4); conv += "REPLACE#" + pat + (g.chance(75) ? "=" + list(3) : ""); }
		else if (k < 8) { conv += "STRINGS"; std::vector<std::string> a; if (g.chance(80)) a.push_back("FOR=" + cls()); if (g.chance(60)) a.push_back(fmt("MIN-LEN=%d", (int)g.below(g.chance(20) ? 40 : 5))); if (g.chance(30)) a.push_back("AFTER=" + list(2)); if (g.chance(30)) a.push_back("BEFORE=" + list(2)); for (size_t j = 0; j < a.size(); j++) conv += (j ? "&" : "#") + a[j]; }
		else if (k < 11) conv += fmt("TRIM-WIDTH#%d", (int)g.below(g.chance(20) ? 60 : 12)) + (g.chance(50) ? g.chance(50) ? "&AMBI-AS-WIDE" : "&AMBIGUOUS-AS-WIDE" : "");
		else if (k < 13) conv += g.chance(50) ? "AMBIGUOUS-PAD" : g.chance(50) ? "AMBIGUOUS-UNPAD" : "AMBIGUOUS-PAD:AMBIGUOUS-UNPAD";
		else if (k < 15) conv += "WIDTH";
		else { std::string s = single(true); while (s.substr(0, 4) == "PASS" && g.chance(80)) { std::string t = single(true); s += "," + t; if (t.substr(0, 4) != "PASS") break; } conv += s; }
	}
	if (rail) conv += ":WHITESPACE-RERAIL";
	conv += ":";
	if (big5) conv += "BSDCONV";
	else if (typed) conv += g.chance(85) ? "BSDCONV" : "NULL";
	else if (g.chance(15)) {
		conv += "ASCII,ANY";
		std::vector<std::string> a;
		if (g.chance(60)) { std::string l; for (int n = 1 + g.below(3); n > 0; n--) l += (l.empty() ? "" : ".") + fmt("%02X", (unsigned)(0x20 + g.below(0x5F))); a.push_back(g.chance(25) ? "DROP" : l); }
		if (g.chance(60)) a.push_back(g.chance(50) ? "ERROR" : "ERROR=FOO");
		for (size_t i = 0; i < a.size(); i++) conv += (i ? "&" : "#") + a[i];
	} else conv += g.chance(15) ? "BSDCONV" : g.chance(6) ? "NULL" : "UTF-8";
	Packets pp;
	if (!pat.empty()) pp = packets_of([&] { std::string s = pat; for (auto &c : s) if (c == '.') c = ','; return s; }());
	bool strings = conv.find("STRINGS") != std::string::npos && g.chance(15);
	for (int t = 0, n = g.chance(30) ? 2 : 1; t < n; t++) {
		std::string in;
		auto put = [&](const std::string &pk) {
			if (rail && g.chance(25)) in += typed ? hexs(std::string("\x01") + "\t\n\r "[g.below(4)]) + "," : std::string(1, "\t\n\r "[g.below(4)]);
			if (big5) {
				if (g.chance(35)) { in += "\x1b"; if (g.chance(85)) in += "["; for (int k = g.below(g.chance(15) ? 70 : 4); k > 0; k--) in += (char)("0123456789;O?"[g.below(13)]); if (g.chance(90)) in += (char)((g.chance(50) ? 'a' : 'A') + g.below(26)); }
				else in += (char)(g.chance(60) ? 0x80 + g.below(128) : 0x20 + g.below(0x5F));
			}
			else if (typed) in += hexs(pk, &g) + (g.chance(95) ? "," : " ,");
			else if (conv[0] == 'A') { uint32_t c = ucs(pk); in += (char)(g.chance(30) ? 0x80 + g.below(128) : c % 127 + 1); }
			else if (pk[0] == 1 && scalar(ucs(pk)) && ucs(pk)) put_utf8(in, ucs(pk));
		};
		for (int i = 0, m = g.below(g.chance(20) ? 40 : 12); i < m; i++) {
			if (!pp.empty() && g.chance(25)) { size_t k = g.chance(50) ? pp.size() : 1 + g.below(pp.size()); for (size_t j = 0; j < k; j++) put(pp[j]); }
			else if (words && g.chance(60)) { static const auto &rows = T.inter["ZHTW-WORDS"]; if (rows.empty()) continue; auto v = packets_of(rows[g.below(rows.size())].lhs); for (size_t k = 0, n = g.chance(80) ? v.size() : 1; k < n; k++) put(v[k]); }
			else { std::string c = some(); put(c); if (g.chance(15)) put("\x01\xA0"); if (g.chance(15)) put(c); if (strings && g.chance(3)) for (int k = g.chance(50) ? 250 + g.below(12) : 200 + g.below(500); k > 0; k--) put(c); }
		}
		p.add(t + 1 < n ? "before" : "in", {}, {in});
	}
	if (g.chance(25)) for (auto &c : conv) c = tolower((unsigned char)c); // names and keywords know no case
	p.add("conv", {}, {conv});
	if (g.chance(15)) p.add("pad", {(int64_t)g.below(2)});
	p.add("chunks", gen_chunks(g, str_of(p, "in").size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static void exec_c22(const Plan &p) {
	std::string conv = str_of(p, "conv").c_str(), in = str_of(p, "in"), want, at = conv + " in=" + esc(in);
	Counters wc;
	const Op *pad = p.find("pad");
	pad_on = !pad || pad->N(0);
	trained.clear();
	has_trained = false;
	if (const Op *t = p.find("table")) {
		has_trained = true;
		trained.assign((size_t)std::min<int64_t>(std::max<int64_t>(0, t->N(0)), 0x30000), 0);
		for (size_t i = 1; i + 1 < t->n.size(); i += 2) if ((uint64_t)t->n[i] < trained.size()) trained[t->n[i]] = (char)t->n[i + 1];
		bool own = hash_str(plan_to_text(p)) & 1;
		if (own) os::env["BSDCONV_SCORE"] = "/work/score.tab";
		os::add_file(own ? "/work/score.tab" : "/home/.bsdconv.score", trained);
	}
	const Op *attach = p.find("attach"); // a table handed over by the program takes the place of the one on file
	if (attach) {
		has_trained = true;
		trained.assign((size_t)std::min<int64_t>(std::max<int64_t>(0, attach->N(0)), 0x30000), 0);
		for (size_t i = 1; i + 1 < attach->n.size(); i += 2) if ((uint64_t)attach->n[i] < trained.size()) trained[attach->n[i]] = (char)attach->n[i + 1];
		os::add_file("/work/own.tab", trained);
	}
	try {
		// upper case for the model, counter names aside: they are compared in any case too
		want = model_filters(upper(conv), in, wc);
	} catch (Undecided &) { stat("left open"); return; }
	Keep keep;
	Outcome got;
	struct bsdconv_instance *ins = must(conv);
	if (!ins) violation("the conversion cannot be created", at);
	if (const Op *b = p.find("before")) { // a conversion before this one, given up half way or finished
		set_input(ins, b->S(0), true, keep);
		ins->flush = hash_str(b->S(0)) & 1;
		drain_auto(ins);
		{ Sut s; bsdconv_counter_reset(ins, nullptr); bsdconv_init(ins); }
		stat("reused");
	}
	if (pad) { Sut s; bsdconv_ctl(ins, BSDCONV_CTL_AMBIGUOUS_PAD, nullptr, pad_on); }
	FILE *tab = nullptr;
	if (attach) { Sut s; tab = fopen("/work/own.tab", "rb"); bsdconv_ctl(ins, BSDCONV_CTL_ATTACH_SCORE, tab, 0); }
	Feed f = feed_of(p, in);
	for (size_t i = 0; i < f.chunks.size(); i++) {
		set_input(ins, f.chunks[i], owns(f.own_seed, i), keep);
		ins->flush = i + 1 == f.chunks.size() && f.flush_style == 0;
		got.out += drain_auto(ins);
	}
	if (f.chunks.empty() || f.flush_style) { ins->flush = 1; got.out += drain_auto(ins); }
	got.cnt = counters_of(ins);
	destroy(ins);
	if (tab) { Sut s; fclose(tab); } // still the program's own
	ev("out " + got.out);
	state(sched_hash(conv, f) ^ hash_str(in));
	if (!in.empty()) nontrivial();
	if (got.out != want) violation("not what the filters are documented to give", at + " want=" + esc(want) + " got=" + esc(got.out));
	Counters gc;
	for (auto &c : got.cnt) gc[upper(c.first)] += c.second;
	bool hex = upper(conv).compare(0, 7, "BSDCONV") == 0;
	for (auto &c : wc) gc[c.first]; 
	for (auto &c : gc) if (c.second != wc[c.first] && !(hex && c.first == "IERR")) violation("a counter is wrong", at + fmt(" %s want=%lu got=%lu", c.first.c_str(), (unsigned long)wc[c.first], (unsigned long)c.second));
}
// ---------------------------------------------------------------- C25: scores
static Plan gen_c25(Rng &g, int) {
	Plan p;
	auto &w = worth();
	bool typed = g.chance(25), table = g.chance(35), own = g.chance(20);
	std::string conv = typed ? "BSDCONV" : "UTF-8", with;
	for (int i = 0, n = 1 + g.below(g.chance(40) ? 4 : 2); i < n; i++) {
		auto score = [&]() {
			std::vector<std::string> a;
			with = g.chance(table || own ? 50 : 5) ? "TRAINED" : g.chance(50) ? "LATIN1" : "CJK";
			if (with != "CJK" || g.chance(60)) a.push_back("WITH=" + with);
			if (g.chance(40)) a.push_back("AS=" + g.pick(std::vector<std::string>{"FOO", "Bar", "IERR", "SCORE"}));
			std::string s = "SCORE";
			if (a.size() == 2 && g.chance(50)) std::swap(a[0], a[1]);
			for (size_t k = 0; k < a.size(); k++) s += (k ? "&" : "#") + a[k];
			return s;
		};
		int k = g.below(10);
		conv += ":";
		if (k < 5) { conv += score(); while (g.chance(35)) conv += "," + (g.chance(70) ? score() : g.chance(50) ? "COUNT" : "NULL"); }
		else if (k < 7) { conv += "ZH-BONUS"; if (g.chance(40)) conv += "," + score(); }
		else if (k < 9) conv += "ZH-BONUS-PHRASE";
		else conv += g.chance(50) ? "COUNT" : "WIDTH";
	}
	conv += typed ? ":BSDCONV" : g.chance(30) ? ":NULL" : ":UTF-8";
	auto edge = [&]() -> uint32_t {
		auto &r = g.pick(w.scorer.at(g.chance(50) ? "CJK" : "LATIN1")).first;
		return g.chance(35) ? r.a - g.below(2) : g.chance(50) ? r.b + g.below(2) : r.a + g.below(r.b - r.a + 1);
	};
	Packets all;
	for (int t = 0, n = g.chance(25) ? 2 : 1; t < n; t++) {
		std::string in;
		auto put = [&](const std::string &pk) { if (t + 1 == n) all.push_back(pk); if (typed) in += hexs(pk, &g) + ","; else if (pk[0] == 1 && scalar(ucs(pk)) && ucs(pk)) put_utf8(in, ucs(pk)); };
		for (int i = 0, m = g.below(g.chance(20) ? 60 : 14); i < m; i++) switch (g.below(typed ? 8 : 7)) {
		case 0: case 1: put(ucs_packet(edge() & 0x1FFFFF)); break;
		case 2: put(g.pick(w.singles)); break;
		case 3: { auto &f = g.pick(w.phrase).first; for (auto &x : f) put(x); break; }
		case 4: { auto &f = g.pick(w.phrase).first; for (size_t k = 0, q = g.below(f.size()); k <= q; k++) put(f[k]); if (g.chance(30)) put(g.pick(f)); break; } // begun, not finished
		case 5: put(ucs_packet(0x4E00 + g.below(0x5200))); break;
		case 6: put(ucs_packet(1 + g.below(0x100))); break;
		default: { static const char ty[] = {2, 3, 4, 0x1B}; std::string s = ucs_packet(edge() & 0x1FFFFF); s[0] = ty[g.below(4)]; put(s); }
		}
		p.add(t + 1 < n ? "before" : "in", {}, {in});
	}
	if (g.chance(20)) for (auto &c : conv) c = tolower((unsigned char)c);
	p.add("conv", {}, {conv});
	for (int t = 0; t < 2; t++) if (t ? own : table) {
		std::vector<int64_t> v;
		uint32_t most = 0;
		for (auto &c : all) if (c[0] == 1 && ucs(c) < 0x30000 && g.chance(60)) { v.push_back(ucs(c)); v.push_back(g.chance(70) ? g.below(4) : g.below(256)); most = std::max(most, ucs(c)); }
		v.insert(v.begin(), g.chance(80) ? most + 1 : g.below(most + 1));
		p.add(t ? "attach" : "table", v);
	}
	p.add("chunks", gen_chunks(g, str_of(p, "in").size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static RegProp r25({"C25", gen_c25, exec_c22, 20000, 1000000, "distinct (conversion, text, chunk sequence)"});
static RegProp r22({"C22", gen_c22, exec_c22, 20000, 1000000, "distinct (conversion, text, chunk sequence)"});
// ---------------------------------------------------------------- C28: what is passed on, marked and logged in a cascade
struct Marked { std::string d; bool m; };
struct Alt { bool pass = false, mark = false, log = false; std::string cls; Codec c; };
static void steps_of(int kind, const std::string &phase, const std::set<std::string> &need, std::vector<Alt> &r) {
	for (auto &n : split(phase, ',')) {
		Alt s;
		std::string name;
		auto args = args_of(n, name);
		if (name == "PASS") { s.pass = true; for (auto &a : args) if (a.key == "MARK" || a.key == "UNMARK") s.mark = true; else if (a.key == "FOR") s.cls = a.val; else throw Undecided(); }
		else if (name == "BSDCONV-LOG") s.log = true;
		else if (!shipped_codec(kind, n, s.c, need)) throw Undecided();
		r.push_back(s);
	}
}
static std::string model_marks(const std::string &conv, const std::string &in, std::string &flog, std::string &tlog, uint64_t &ierr, uint64_t &oerr) {
	std::vector<Marked> d;
	if (!in.empty()) d.push_back({in, false});
	for (auto &st : split(conv, '|')) {
		auto ph = split(st, ':');
		for (size_t i = 0; i < ph.size(); i++) {
			int kind = i == 0 ? 0 : i + 1 == ph.size() ? 2 : 1;
			std::set<std::string> need;
			std::vector<Alt> steps;
			std::vector<Marked> r;
			Packets out;
			if (kind == 0) {
				std::string s;
				std::map<size_t, size_t> starts;
				for (size_t k = 0; k < d.size(); k++) { if (!d[k].d.empty()) starts[s.size()] = k; s += d[k].d; }
				for (char c : s) need.insert(hexs(std::string(1, c)));
				steps_of(0, ph[i], need, steps);
				for (size_t q = 0; q < s.size();) {
					size_t n = 0;
					auto it = starts.find(q);
					for (auto &x : steps) {
						if (x.pass) {
							if (it == starts.end()) continue;
							auto &k = d[it->second];
							if ((x.mark && !k.m) || (!x.cls.empty() && !in_class(x.cls, k.d))) continue;
							r.push_back({k.d, k.m && !x.mark});
							n = k.d.size();
						} else if (x.log) { flog += hexs(s.substr(q, 1)) + "\n"; n = 1; }
						else if ((n = match_bytes(x.c, s, q, out))) for (auto &o : out) r.push_back({o, false});
						if (n) break;
					}
					if (!n) ierr++;
					q += n ? n : 1;
				}
			} else {
				Packets s;
				for (auto &k : d) { s.push_back(k.d); need.insert(hexs(k.d)); }
				if (kind == 1 && (ph[i] == "COUNT" || ph[i] == "WIDTH")) continue;
				steps_of(kind, ph[i], need, steps);
				for (size_t q = 0; q < s.size();) {
					size_t n = 0;
					for (auto &x : steps) {
						if (x.pass) { if (x.cls.empty() || in_class(x.cls, s[q])) { r.push_back({s[q], d[q].m || x.mark}); n = 1; } }
						else if (x.log) { tlog += hexs(s[q]) + (d[q].m ? " MARK" : "") + "\n"; n = 1; }
						else if ((n = match_packets(x.c, s, q, out))) for (auto &o : out) r.push_back({o, false});
						if (n) break;
					}
					if (!n) { if (kind == 2) oerr++; else r.push_back(d[q]); }
					q += n ? n : 1;
				}
			}
			d = r;
		}
	}
	std::string r;
	for (auto &k : d) r += k.d;
	return r;
}
static Plan gen_c28(Rng &g, int) {
	Plan p;
	bool flog = g.chance(20), tlog = g.chance(65);
	int stages = 2 + g.chance(30) + g.chance(8);
	auto cls = [&] { static const std::vector<std::string> c = {"UNICODE", "UNICODE", "BYTE", "CJK", "LATIN", "PRINT", "HIRAGANA", "ANSI"}; return g.pick(c); };
	auto codecs = [&](const std::vector<std::string> &all, int most, std::vector<std::string> r) {
		for (int n = 1 + g.below(most); n > 0; n--) { auto &x = g.pick(all); if (std::find(r.begin(), r.end(), x) == r.end()) r.insert(r.begin() + g.below(r.size() + 1), x); }
		std::string s; for (auto &x : r) s += (s.empty() ? "" : ",") + x;
		return s;
	};
	static const std::vector<std::string> from = {"ASCII", "_UTF-8", "_CP950", "BYTE", "ESCAPE", "ASCII-NUMERIC-HTML-ENTITY", "_SHIFT-JIS"},
		to = {"ASCII", "_UTF-8", "_CP950", "BYTE", "ESCAPE#PREFIX=25&MODE=16&FOR=BYTE", "ESCAPE#PREFIX=2575&MODE=16&FOR=UNICODE", "UTF-16LE", "UTF-16BE", "_SHIFT-JIS"};
	std::string conv;
	for (int s = 0; s < stages; s++) {
		std::vector<std::string> f, t;
		if (s && g.chance(90)) f.push_back(g.chance(tlog && s + 1 == stages ? 45 : 75) ? g.chance(80) ? "PASS#UNMARK" : g.chance(50) ? "PASS#UNMARK&FOR=" + cls() : "PASS#FOR=" + cls() + "&UNMARK" : g.chance(50) ? "PASS" : "PASS#FOR=" + cls());
		if (s + 1 < stages ? g.chance(90) : g.chance(10)) t.push_back(g.chance(75) ? g.chance(20) ? "PASS#MARK" : g.chance(50) ? "PASS#MARK&FOR=" + cls() : "PASS#FOR=" + cls() + "&MARK" : g.chance(40) ? "PASS" : "PASS#FOR=" + cls());
		if (s) conv += "|";
		conv += codecs(from, s ? 3 : 4, f);
		if (flog && s + 1 == stages) conv += ",BSDCONV-LOG";
		if (g.chance(20)) conv += g.chance(40) ? ":PASS" : g.chance(50) ? ":UPPER" : g.chance(50) ? ":COUNT" : ":WIDTH";
		if (s + 1 < stages) conv += ":" + codecs(to, 3, t);
		else conv += ":" + (tlog ? g.chance(70) ? std::string("BSDCONV-LOG") : codecs(to, 2, t) + ",BSDCONV-LOG" : g.chance(50) ? std::string("BSDCONV") : codecs(to, 3, t));
	}
	std::string in;
	for (int i = 0, n = g.below(g.chance(20) ? 40 : 12); i < n; i++) {
		uint32_t c;
		switch (g.below(5)) { case 0: c = 0x20 + g.below(0x5F); break; case 1: c = 0x3041 + g.below(0x52); break; case 2: c = 0xA1 + g.below(0x120); break; default: c = 0x4E00 + g.below(0x5200); }
		std::string u;
		put_utf8(u, c);
		if (g.chance(10) && !u.empty()) u.resize(1 + g.below(u.size()));
		switch (g.below(7)) {
		case 0: case 1: in += u; break;
		case 2: in += fmt("%%u%04X", c); break;
		case 3: for (unsigned char b : u) in += fmt(g.chance(50) ? "%%%02X" : "\\x%02x", b); break;
		case 4: in += g.chance(50) ? fmt("&#%u;", c) : fmt("&#x%X;", c); break;
		case 5: { std::string b = {(char)(0xA4 + g.below(0x23)), (char)(0x40 + g.below(0x3F))}; if (g.chance(50)) in += b; else for (unsigned char x : b) in += fmt("%%%02X", x); break; }
		default: in += (char)(0x20 + g.below(g.chance(70) ? 0x5F : 0xDF));
		}
	}
	p.add("conv", {}, {conv});
	p.add("in", {}, {in});
	if (g.chance(30)) p.add("kept", {}, {fmt("%02X\n", (unsigned)g.below(256))}); // what an earlier conversion has logged
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static void exec_c28(const Plan &p) {
	std::string conv = str_of(p, "conv").c_str(), in = str_of(p, "in"), want, wf, wt, at = conv + " in=" + esc(in);
	uint64_t ierr = 0, oerr = 0;
	try { want = model_marks(conv, in, wf, wt, ierr, oerr); } catch (Undecided &) { stat("c28.left open"); return; }
	os::env["BSDCONV_FROM_LOG"] = "/work/flog";
	os::env["BSDCONV_TO_LOG"] = "/work/tlog";
	std::string kept;
	if (const Op *o = p.find("kept")) { // a log is added to
		kept = o->S(0);
		if (conv.find("BSDCONV-LOG") != conv.rfind("BSDCONV-LOG") || conv.find(":BSDCONV-LOG") == std::string::npos) { os::add_file("/work/flog", kept); wf = kept + wf; }
		if (conv.find(":BSDCONV-LOG") != std::string::npos || conv.find("BSDCONV-LOG") != conv.rfind("BSDCONV-LOG")) { os::add_file("/work/tlog", kept); wt = kept + wt; }
	}
	Outcome got = deliver(p, conv, in, at);
	auto logged = [](const char *f) {
		std::string r;
		Inode *i = os::inode(f);
		if (i) for (auto &l : split(i->data, '\n')) if (!l.empty()) { size_t b = l.find(" ("); r += l.substr(0, b) + (b != std::string::npos && l.find(" MARK", b) != std::string::npos ? " MARK" : "") + "\n"; }
		return r;
	};
	std::string gf = logged("/work/flog"), gt = logged("/work/tlog");
	state(sched_hash(conv, feed_of(p, in)) ^ hash_str(in));
	if (!in.empty()) nontrivial();
	stat("c28.decided");
	if (!wt.empty() && wt.find("MARK") != std::string::npos) stat("c28.marks.seen");
	if (got.out != want) violation("a cascade did not keep what was decoded before apart from what was not", at + " want=" + esc(want) + " got=" + esc(got.out));
	if (gt != wt) violation("the log of a target is not what arrived there", at + " want=" + esc(wt) + " got=" + esc(gt));
	if (gf != wf) violation("the log of a source is not what it was given", at + " want=" + esc(wf) + " got=" + esc(gf));
	if (got.cnt["IERR"] != ierr || got.cnt["OERR"] != oerr) violation("errors are not counted right in a cascade that passes on", at + fmt(" want=%lu/%lu got=%lu/%lu", (unsigned long)ierr, (unsigned long)oerr, (unsigned long)got.cnt["IERR"], (unsigned long)got.cnt["OERR"]));
}
static RegProp r28({"C28", gen_c28, exec_c28, 20000, 1000000, "distinct (cascade, text, chunk sequence)"});
