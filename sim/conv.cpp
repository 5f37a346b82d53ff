#include "conv.h"
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <unistd.h>

Tables T;
std::vector<std::string> split(const std::string &s, char c) {
	std::vector<std::string> r; size_t i = 0;
	for (;;) { size_t j = s.find(c, i); if (j == std::string::npos) { r.push_back(s.substr(i)); return r; } r.push_back(s.substr(i, j - i)); i = j + 1; }
}
std::string unhex_bytes(const std::string &h) {
	std::string r;
	for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
	return r;
}
std::vector<std::string> packets_of(const std::string &spec) {
	std::vector<std::string> r;
	for (auto &w : split(spec, ',')) r.push_back(unhex_bytes(w));
	return r;
}
void load_tables(const std::string &dir) {
	FILE *f = fopen((dir + "/dict.txt").c_str(), "r");
	char b[2048];
	while (f && fgets(b, sizeof b, f)) {
		b[strcspn(b, "\n")] = 0;
		auto w = split(b, ' ');
		if (w.size() < 4) continue;
		if (w[0] == "M") {
			const std::string &n = w[2];
			if (w[1] == "FL") T.filters.push_back(n);
			else if (w[1] == "SC") T.scorers.push_back(n);
			else if (w[1] == "F") { if (n != "PASS" && n != "BSDCONV-LOG" && n != "ANY") T.froms.push_back(n); }
			else if (w[1] == "I") { if (n != "SCORE-TRAIN" && n != "PASS") T.inters.push_back(n); }
			else if (n != "BSDCONV-LOG" && n != "BSDCONV-OUTPUT" && n != "PASS" && n != "ANY") T.tos.push_back(n);
		} else if (w[0] == "A") {
			if (w[1] == "from") T.afrom[w[2]] = w[3];
			if (w[1] == "inter") T.ainter[w[2]] = w[3];
			if (w[1] == "to") T.ato[w[2]] = w[3];
			if (w[1] == "filter") T.afilter[w[2]] = w[3];
		} else {
			auto &m = w[0] == "F" ? T.from : w[0] == "I" ? T.inter : T.to;
			m[w[1]].push_back(Entry{w[2], w[3]});
		}
	}
	if (f) fclose(f);
	auto have = [](std::map<std::string, std::string> &m, std::vector<std::string> names, std::vector<std::string> &to) {
		for (auto &n : names) if (m.count(n)) to.push_back(n);
	};
	(void)have;
}

static std::string some_filter(Rng &g) {
	static const std::vector<std::string> common = {"CJK", "UNICODE", "ASCII", "ANSI", "BYTE", "LATIN", "PRINT", "CJK+LATIN", "CNS11643"};
	if (g.chance(60)) { std::string s = g.pick(common); if (s == "ASCII" || s.find('+') != std::string::npos) return "LATIN"; return s; }
	return T.filters.empty() ? "CJK" : g.pick(T.filters);
}
static std::string some_packet(Rng &g) {
	static const std::vector<std::string> p = {"0141", "014E00", "010A", "01FF", "013F", "0331", "01FFFD", "0120", "011F600", "01FEFF", "03C3"};
	std::string s = g.pick(p);
	if (s.size() % 2) s = "0141";
	return s;
}
static std::string some_packets(Rng &g) { std::string s = some_packet(g); while (g.chance(30)) s += "." + some_packet(g); return s; }
static std::string from_arg(Rng &g, const std::string &n) {
	if (n == "_UTF-8" && g.chance(45)) {
		static const std::vector<std::string> v = {"CESU", "LOOSE", "NUL", "OVERLONG", "SUPER", "CESU&NUL", "LOOSE&SUPER", "OVERLONG&NUL", "CESU&LOOSE"};
		return "#" + g.pick(v);
	}
	return "";
}
// codecs with code of their own keep state between characters and calls
static const std::vector<std::string> &with_code(const char *kind, const std::vector<std::string> &all) {
	static std::map<std::string, std::vector<std::string>> m;
	auto &v = m[kind];
	if (v.empty()) for (auto &n : all) if (n.compare(0, 6, "ALIAS-") && access((os::root + "/share/bsdconv/" + kind + "/" + n + ".so").c_str(), F_OK) == 0) v.push_back(n);
	return v.empty() ? all : v;
}
static std::string one_from(Rng &g) {
	static const std::vector<std::string> common = {"UTF-8", "BIG5", "CP950", "GB18030", "GBK", "JIS", "SHIFT-JIS", "CP936", "CP932",
		"UTF-16LE", "UTF-16BE", "UTF-32LE", "ESCAPE", "ANSI-CONTROL", "HTMLENTITY", "NCR", "NAMED-HTMLENTITY", "BSDCONV", "HKSCS2004", "ISO-8859-1",
		"UAO241", "CP1252", "BIG5-5C", "CCCII", "BYTE", "BIG5E", "CP949", "_UTF-8", "_JIS", "_GB18030", "CP950-UDA"};
	std::string n = g.chance(12) ? g.pick(with_code("from", T.froms)) : g.chance(60) ? g.pick(common) : g.pick(T.froms);
	return n + from_arg(g, n);
}
std::string gen_from(Rng &g, bool fallback) {
	std::string s = g.chance(35) ? "UTF-8" : one_from(g);
	if (fallback) {
		int n = 1 + g.below(3);
		for (int i = 0; i < n; i++) s += "," + one_from(g);
		if (g.chance(40)) s += std::string(",") + (g.chance(50) ? "SUB" : "BYTE");
	}
	return s;
}
std::string gen_inter(Rng &g) {
	int k = g.below(100);
	if (k < 10) { static const std::vector<std::string> v = {"NFC", "NFD", "NFKC", "NFKD", "NFKD-CASEFOLD", "SPLIT", "NOBOM", "ZH-STRINGS"}; return g.pick(v); }
	if (k < 16) {
		std::string s = "INSERT#";
		int which = g.below(3);
		if (which != 1) s += "AFTER=" + some_packets(g);
		if (which == 2) s += "&";
		if (which != 0) s += "BEFORE=" + some_packets(g);
		return s;
	}
	if (k < 20) return "REPLACE#" + (g.chance(50) ? some_packet(g) : some_packets(g)) + (g.chance(50) ? "=" + some_packets(g) : "");
	if (k < 25) { std::string s = "COUNT"; if (g.chance(60)) s += "#" + std::string(g.chance(50) ? "FOO" : "BAR"); if (g.chance(60)) s += (s.find('#') == std::string::npos ? "#" : "&") + std::string("FOR=") + some_filter(g); return s; }
	if (k < 29) { std::string s = "PASS"; int a = g.below(4); if (a == 1) s += "#FOR=" + some_filter(g); if (a == 2) s += "#LIMIT=" + std::to_string(1 + g.below(9)); if (a == 3) s += "#FOR=" + some_filter(g) + "&LIMIT=" + std::to_string(1 + g.below(9)); return s; }
	if (k < 34) { std::string s = "STRINGS#FOR=" + some_filter(g); if (g.chance(60)) s += "&MIN-LEN=" + std::to_string(1 + g.below(5)); if (g.chance(40)) s += "&AFTER=" + some_packets(g); if (g.chance(40)) s += "&BEFORE=" + some_packets(g); return s; }
	if (k < 38) return "TRIM-WIDTH#" + std::to_string(1 + g.below(20)) + (g.chance(40) ? "&AMBI-AS-WIDE" : "");
	if (k < 42) { std::string s = "SCORE"; if (g.chance(60)) s += std::string("#WITH=") + (g.chance(50) ? "LATIN1" : "CJK") + (g.chance(50) ? "&AS=L" : ""); return s; }
	std::string n = g.chance(25) ? g.pick(with_code("inter", T.inters)) : g.pick(T.inters);
	if (n == "INSERT" || n == "TRIM-WIDTH" || n == "REPLACE") n = g.chance(50) ? "NFC" : "ZHTW-WORDS";
	if (n.compare(0, 6, "ALIAS-") == 0 && g.chance(70)) n = "NFKC";
	return n;
}
static std::string one_to(Rng &g) {
	if (g.chance(12)) return g.pick(with_code("to", T.tos));
	static const std::vector<std::string> common = {"UTF-8", "BIG5", "CP950", "GB18030", "GBK", "JIS", "SHIFT-JIS", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE",
		"HTMLENTITY", "URL", "ASCII-ESCAPED-UNICODE", "ASCII-DEC-NUMERIC-HTML-ENTITY", "NAMED-HTMLENTITY", "ISO-8859-1", "UCS-2LE", "ASCII", "BYTE", "RAW",
		"ESCAPE#FOR=UNICODE&MODE=10&PREFIX=5B&SUFFIX=5D", "ESCAPE#FOR=BYTE&MODE=8&PREFIX=5C", "ESCAPE#FOR=BYTE&MODE=10", "ANSI-CONTROL", "CP936-TRANS", "CP950-TRANS", "BIG5-5C", "HTML-IMG", "_UTF-8#CESU", "_UTF-8#LOOSE&SUPER"};
	return g.chance(65) ? g.pick(common) : g.pick(T.tos);
}
std::string gen_to(Rng &g, bool fallback) {
	std::string s = g.chance(30) ? "BSDCONV" : g.chance(30) ? "UTF-8" : one_to(g);
	if (fallback) {
		int n = 1 + g.below(2);
		for (int i = 0; i < n; i++) s += "," + one_to(g);
	}
	if (fallback || g.chance(25)) {
		static const std::vector<std::string> last = {"3F", "BSDCONV", "ANY#3F", "ANY#3F&ERROR", "ANY#5B.5D", "RAW", "PASS", "PASS#MARK&FOR=UNICODE", "ESCAPE#FOR=UNICODE&MODE=16&PREFIX=2575", "HTMLENTITY", "NULL"};
		if (g.chance(60)) s += "," + g.pick(last);
	}
	return s;
}
std::string gen_focus(Rng &g) { // one codec with code, plainly surrounded
	switch (g.below(3)) {
	case 0: return g.pick(with_code("from", T.froms)) + ":UTF-8";
	case 1: return "UTF-8:" + g.pick(with_code("to", T.tos));
	}
	std::string n = g.pick(with_code("inter", T.inters));
	if (n == "INSERT") n += "#AFTER=" + some_packets(g);
	else if (n == "TRIM-WIDTH") n += fmt("#%d", (int)(1 + g.below(20)));
	else if (n == "REPLACE") n += "#" + some_packet(g);
	else if (n == "STRINGS") n += "#FOR=" + some_filter(g);
	return "UTF-8:" + n + ":UTF-8";
}
std::string gen_conv(Rng &g) {
	int k = g.below(100);
	if (k < 25) return gen_from(g, false) + ":" + gen_to(g, false);
	if (k < 65) {
		std::string s = g.chance(70) ? "UTF-8" : g.chance(40) ? "BSDCONV" : gen_from(g, false);
		int n = 1 + g.below(3);
		for (int i = 0; i < n; i++) { s += ":" + gen_inter(g); if (g.chance(14)) s += "," + gen_inter(g); }
		if (g.chance(4)) s += std::string(":WHITESPACE-DERAIL:") + g.pick(std::vector<std::string>{"NFC", "ZHTW-WORDS", "UPPER", "NFKD"}) + ":WHITESPACE-RERAIL";
		else if (s.find("WHITESPACE-DERAIL") != std::string::npos && g.chance(80)) s += ":WHITESPACE-RERAIL";
		return s + ":" + gen_to(g, g.chance(10));
	}
	if (k < 80) return gen_from(g, true) + (g.chance(30) ? ":" + gen_inter(g) : "") + ":" + gen_to(g, true);
	// cascade
	std::string s = gen_from(g, g.chance(15));
	if (g.chance(25)) s += ":" + gen_inter(g);
	int n = 1 + (g.chance(20) ? 1 : 0);
	for (int i = 0; i < n; i++) {
		static const std::vector<std::string> mid = {"UTF-8", "BIG5", "GBK", "GB18030", "UTF-16LE", "UTF-16BE", "UTF-32LE", "BSDCONV", "CP936", "ISO-8859-1", "SHIFT-JIS"};
		std::string m = g.pick(mid);
		s += ":" + m + "|" + (g.chance(85) ? m : g.chance(50) ? std::string("BYTE") : one_from(g));
		if (g.chance(25)) s += ":" + gen_inter(g);
	}
	return s + ":" + gen_to(g, g.chance(10));
}

// ---------------------------------------------------------------- inputs
static std::string base_name(const std::string &c) { std::string s = c.substr(0, c.find('#')); for (auto &x : s) x = toupper(x); return s; }
static std::vector<std::string> resolve_from(const std::string &phase) {
	std::vector<std::string> todo = split(phase, ','), out;
	for (size_t i = 0; i < todo.size() && i < 40; i++) {
		std::string n = base_name(todo[i]);
		auto a = T.afrom.find(n);
		if (a != T.afrom.end()) { for (auto &x : split(a->second, ',')) todo.push_back(x); continue; }
		out.push_back(n);
	}
	if (out.empty()) out.push_back("ASCII");
	return out;
}
static void utf8(std::string &r, uint32_t u) {
	if (u < 0x80) r += (char)u;
	else if (u < 0x800) { r += (char)(0xc0 | u >> 6); r += (char)(0x80 | (u & 63)); }
	else if (u < 0x10000) { r += (char)(0xe0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
	else { r += (char)(0xf0 | (u >> 18 & 7)); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
}
static uint32_t ucs_of(const std::string &pk) { uint32_t u = 0; for (size_t i = 1; i < pk.size(); i++) u = u << 8 | (unsigned char)pk[i]; return u; }
static std::string put16(uint32_t u, bool be) {
	std::string r;
	auto w = [&](uint32_t v) { if (be) { r += (char)(v >> 8); r += (char)v; } else { r += (char)v; r += (char)(v >> 8); } };
	if (u >= 0x10000) { u -= 0x10000; w(0xd800 | (u >> 10 & 0x3ff)); w(0xdc00 | (u & 0x3ff)); } else w(u);
	return r;
}
static std::string encode(Rng &g, const std::string &f, const std::string &pk) {
	uint32_t u = ucs_of(pk);
	if (f == "BSDCONV") { std::string r; for (unsigned char c : pk) r += fmt("%02X", c); return r + ","; }
	if (pk.empty() || pk[0] != 1) return std::string(1, (char)g.below(256));
	if (f == "UTF-16LE") return put16(u, false);
	if (f == "UTF-16BE") return put16(u, true);
	if (f == "UTF-32LE") return std::string{(char)u, (char)(u >> 8), (char)(u >> 16), (char)(u >> 24)};
	if (f == "UTF-32BE") return std::string{(char)(u >> 24), (char)(u >> 16), (char)(u >> 8), (char)u};
	if (f == "ESCAPE") return u < 0x10000 ? fmt(g.chance(50) ? "%%u%04X" : "\\u%04X", u) : fmt("%%u%X", u);
	if (f == "ASCII-NUMERIC-HTML-ENTITY") return g.chance(50) ? fmt("&#%u;", u) : fmt("&#x%X;", u);
	if (u < 0x80 && f != "_UTF-8") return std::string(1, (char)u);
	std::string r;
	if (f == "_UTF-8" || f == "ASCII") { utf8(r, u); return r; }
	auto it = T.from.find(f);
	if (it != T.from.end()) {
		for (auto &e : it->second) if (e.rhs.find(',') == std::string::npos && e.rhs.size() == pk.size() * 2 && unhex_bytes(e.rhs) == pk) return unhex_bytes(e.lhs);
		if (!it->second.empty()) return unhex_bytes(g.pick(it->second).lhs);
	}
	utf8(r, u);
	return r;
}
static std::string special(Rng &g, const std::string &f) {
	if (f == "ESCAPE") {
		static const std::vector<std::string> v = {"%u4E2D", "%u0", "\\u00e9", "\\x41", "%41", "%C3%A9", "\\101", "\\377", "\\012", "%u12", "\\u", "%", "\\x4", "%u0000", "%00", "\\0", "\\u{1F600}", "%uD83D%uDE00"};
		return g.pick(v);
	}
	if (f.find("HTML-ENTITY") != std::string::npos) {
		static const std::vector<std::string> v = {"&#65;", "&#x4E2D;", "&#20013;", "&#", "&#x", "&#;", "&#x;", "&amp;", "&AMP", "&lt;", "&#1114111;", "&#x10FFFF;", "&#9", "&", "&#99999999999;"};
		return g.pick(v);
	}
	if (f == "ANSI-CONTROL") {
		static const std::vector<std::string> v = {"\x1b[0m", "\x1b[1;31m", "\x1b[", "\x1b", "\x1b[2J", "\x1b[10;20H", "\x1b[K", "\x1b[m", "\x1b*s", "\x1b[1;"};
		return g.pick(v);
	}
	if (f == "_JIS") {
		static const std::vector<std::string> v = {"\x1b$B", "\x1b(J", "\x1b(B", "\x1b$(D", "\x1b$@", "\x1b", "\x1b$", "\x1b(", "\x30\x21", "$\"", "F|K\\8l", "\x1b(I"};
		return g.pick(v);
	}
	if (f == "_GB18030") {
		std::string r;
		r += (char)g.range(0x81, 0x84); r += (char)g.range(0x30, 0x39); r += (char)g.range(0x81, 0xfe); r += (char)g.range(0x30, 0x39);
		return r;
	}
	if (f == "_UTF-8") {
		static const std::vector<std::string> v = {"\xed\xa0\xbd\xed\xb8\x80", "\xc0\x80", "\xf0\x9f\x98\x80", "\xe0\x80\xaf", "\xed\xa0\xbd", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xff", "\xe4\xb8", "\xf0\x9f", "\xc3", "\x80", "\xef\xbb\xbf", "\xed\xb8\x80", "\xed\xa0\xbd\xe4\xb8\xad"};
		return g.pick(v);
	}
	if (f == "UTF-16LE" || f == "UTF-16BE") {
		bool be = f == "UTF-16BE";
		uint32_t hi = 0xd800 + g.below(0x400), lo = 0xdc00 + g.below(0x400);
		int k = g.below(4);
		if (k == 0) return put16(hi, be) + put16(lo, be);
		if (k == 1) return put16(hi, be) + put16(0x41, be);
		if (k == 2) return put16(lo, be);
		return put16(hi, be).substr(0, 1);
	}
	if (f == "BSDCONV") {
		static const std::vector<std::string> v = {"0141,0142,", "01", "0", ",,", "014E2D,016587", "0141 0142", "xyz", "03FF,", "1B5B306D,", "0141,01030A,", "01AC00,", "011100,011161,0111A8,", "00,", "0165,0301"};
		return g.pick(v);
	}
	if (f.compare(0, 4, "IBM-") == 0) {
		static const std::vector<std::string> v = {"\x0e", "\x0f", "\x0e\x4c\x41\x0f", "\x0e\x42", "\xc1\xc2"};
		return g.pick(v);
	}
	return std::string(1, (char)g.below(256));
}
std::string corrupt(Rng &g, std::string s) {
	int n = 1 + g.below(3);
	for (int i = 0; i < n && !s.empty(); i++) {
		size_t k = g.below(s.size());
		switch (g.below(4)) {
		case 0: s[k] ^= 1 << g.below(8); break;
		case 1: s.erase(k, 1 + g.below(3)); break;
		case 2: s.insert(k, 1, (char)g.below(256)); break;
		case 3: s.resize(k); break;
		}
	}
	return s;
}
// Characters the codecs without a table of their own care about.
static std::string range_pk(Rng &g, uint32_t a, uint32_t b) { uint32_t u = g.range(a, b); return u > 0xffff ? fmt("01%06X", u) : u > 0xff ? fmt("01%04X", u) : fmt("01%02X", u); }
static std::string marks(Rng &g) { static const std::vector<std::string> v = {"0301", "0300", "0327", "0323", "0308", "0302", "030A", "3099", "302A", "05B0", "0345", "1DC0"}; std::string s = g.chance(70) ? "0165" : g.chance(50) ? "0141" : ""; for (int i = 0, n = 1 + g.below(4); i < n; i++) s += (s.empty() ? "01" : ",01") + g.pick(v); return s; }
static std::string material(Rng &g, const std::string &n) {
	if (n == "_NF-HANGUL-DECOMPOSITION") return range_pk(g, 0xAC00, 0xD7A3);
	if (n == "_NF-HANGUL-COMPOSITION") return range_pk(g, 0x1100, 0x1112) + "," + range_pk(g, 0x1161, 0x1175) + (g.chance(60) ? "," + range_pk(g, 0x11A7, 0x11C2) : "");
	if (n == "_NFC" || n == "_NF-ORDER") return marks(g);
	if (n.find("AMBIGUOUS") != std::string::npos || n == "WIDTH" || n == "TRIM-WIDTH") return g.chance(40) ? std::string("01A1,01A0") : g.chance(50) ? range_pk(g, 0x2010, 0x2640) : range_pk(g, 0x4E00, 0x4EFF);
	if (n.find("WHITESPACE") != std::string::npos) return std::string("0141,0120,0120,014E2D,010A,0142,0109").substr(0, 5 * (1 + g.below(5)) - 1);
	if (n == "UTF-16LE" || n == "UTF-16BE" || n == "UCS-2LE" || n == "UCS-2BE" || n == "_GB18030" || n == "_UTF-8" || n == "ESCAPE" || n.compare(0, 4, "UTF-") == 0) return g.chance(60) ? range_pk(g, 0x10000, 0x10FFFF) : range_pk(g, 0x80, 0xFFFF);
	if (n == "STRINGS" || n == "COUNT" || n == "PASS" || n.compare(0, 5, "SCORE") == 0 || n.compare(0, 8, "ZH-BONUS") == 0) return g.chance(60) ? range_pk(g, 0x4E00, 0x9FA5) : range_pk(g, 0x20, 0x7e);
	if (n.compare(0, 3, "IBM") == 0) return g.chance(50) ? std::string("0141,014E00,0142") : range_pk(g, 0x4E00, 0x9FA5);
	return "";
}
std::string gen_input(Rng &g, const std::string &conv, int tokens, bool dense) {
	std::string first = conv.substr(0, conv.find_first_of(":|"));
	auto fs = resolve_from(first);
	// material for the inter phases
	std::vector<const std::vector<Entry> *> im;
	std::vector<std::string> mats;
	std::vector<std::string> phases;
	for (auto &c : split(conv, '|')) { auto p = split(c, ':'); for (size_t i = 1; i < p.size(); i++) for (auto &x : split(p[i], ',')) phases.push_back(base_name(x)); }
	for (size_t i = 0; i < phases.size() && i < 30; i++) {
		{ Rng probe(1); if (!material(probe, phases[i]).empty()) mats.push_back(phases[i]); }
		auto a = T.ainter.find(phases[i]);
		if (a != T.ainter.end()) for (auto &x : split(a->second, ':')) phases.push_back(base_name(x));
		auto it = T.inter.find(phases[i]);
		if (it != T.inter.end() && !it->second.empty()) im.push_back(&it->second);
		auto jt = T.to.find(phases[i]);
		if (jt != T.to.end() && !jt->second.empty()) im.push_back(&jt->second);
	}
	std::string mainf = fs.size() > 1 && g.chance(60) ? fs[g.below(fs.size())] : fs.back();
	if (mainf == "ASCII" && fs.size() > 1) mainf = fs[1];
	static const std::vector<std::string> unis = {"0141", "0161", "014E2D", "016587", "01E9", "01AC00", "01AC01", "011100", "011161", "0111A8", "010301", "010300", "010327", "010323", "0145", "01212B", "011F600",
		"010D", "010A", "0120", "013000", "01FF21", "01FF76", "010391", "0130AB", "013099", "014F60", "01597D", "0107", "01A0", "01A7", "01B7", "01FEFF", "0109", "017C", "01FF", "01D840DC0B"};
	std::string r;
	int errpct = dense || g.chance(40) ? 0 : g.below(25);
	for (int i = 0; i < tokens; i++) {
		std::string f = g.chance(70) ? mainf : fs[g.below(fs.size())];
		if ((int)g.below(100) < errpct) {
			int k = g.below(3);
			if (k == 0) r += std::string(1, (char)g.below(256));
			else if (k == 1) { auto it = T.from.find(f); if (it != T.from.end() && !it->second.empty()) { std::string x = unhex_bytes(g.pick(it->second).lhs); r += x.substr(0, g.below(x.size() + 1)); } else r += (char)(0x80 + g.below(128)); }
			else r += special(g, f);
			continue;
		}
		int k = dense && !mats.empty() && g.chance(80) ? 40 : g.below(100);
		if (k < 15) r += special(g, f);
		else if (k < 25) r += encode(g, f, std::string{1, (char)g.range(0x20, 0x7e)});
		else if (k < 35) r += encode(g, f, unhex_bytes(g.pick(unis)));
		else if (k < 50 && !mats.empty()) { for (auto &p : packets_of(material(g, g.pick(mats)))) r += encode(g, f, p); }
		else if (k < 75 && !im.empty()) {
			auto ps = packets_of(g.pick(*im[g.below(im.size())]).lhs);
			if (g.chance(15) && ps.size() > 1) ps.resize(1 + g.below(ps.size() - 1));
			for (auto &p : ps) r += encode(g, f, p);
		} else {
			auto it = T.from.find(f);
			if (it != T.from.end() && !it->second.empty()) r += unhex_bytes(g.pick(it->second).lhs);
			else r += encode(g, f, unhex_bytes(g.pick(unis)));
		}
	}
	if (!dense && g.chance(15) && !r.empty()) r = corrupt(g, r);
	return r;
}
// ordinary characters that end any pending sequence: two letters, a space, a line end
std::string terminator(Rng &g, const std::string &conv) {
	auto fs = resolve_from(conv.substr(0, conv.find_first_of(":|")));
	std::string r;
	for (auto &f : fs) {
		if (f == "ASCII" && fs.size() > 1) continue;
		for (const char *p : {"\x01\x41", "\x01\x62", "\x01\x20", "\x01\x0a"}) r += encode(g, f, p);
		if (f == "BSDCONV") r += ",";
		if (f == "_UTF-8") r += "\xe4\xb8\xad"; // takes no ASCII
	}
	return r;
}
// Conversions that put marks in order hold an unfinished run of them: they need a character that ends it.
bool orders_marks(const std::string &conv) {
	std::vector<std::string> todo;
	for (auto &c : split(conv, '|')) for (auto &p : split(c, ':')) for (auto &x : split(p, ',')) todo.push_back(base_name(x));
	for (size_t i = 0; i < todo.size() && i < 60; i++) {
		if (todo[i] == "_NF-ORDER" || todo[i] == "_NFC") return true;
		auto a = T.ainter.find(todo[i]);
		if (a != T.ainter.end()) for (auto &q : split(a->second, ':')) for (auto &x : split(q, ',')) todo.push_back(base_name(x));
	}
	return false;
}
bool knows_letters(const std::string &conv) {
	for (auto &f : resolve_from(conv.substr(0, conv.find_first_of(":|")))) if (f == "ASCII" || f == "_UTF-8" || f == "BSDCONV" || f.compare(0, 4, "UTF-") == 0) return true;
	return false;
}
std::vector<int64_t> gen_chunks(Rng &g, size_t len) {
	std::vector<int64_t> v;
	int mode = g.below(5);
	size_t o = 0;
	if (mode == 0) { for (; o < len; o++) v.push_back(1); }
	else if (mode == 1) { int m = 1 + g.below(4); while (o < len) { int64_t k = 1 + g.below(m); v.push_back(k); o += k; } }
	else if (mode == 2) { if (len) v.push_back(g.below(len + 1)); v.push_back(len + 1); }
	else if (mode == 3) { int m = 1 + g.below(24); while (o < len) { int64_t k = g.chance(15) ? 0 : 1 + g.below(m); v.push_back(k); o += k; } }
	else { int n = 1 + g.below(5); for (int i = 0; i < n; i++) v.push_back(g.below(len + 1)); }
	return v;
}

// ---------------------------------------------------------------- sessions
struct bsdconv_instance *create(const std::string &c) { Sut s; return bsdconv_create(c.c_str()); }
void destroy(struct bsdconv_instance *i) { Sut s; bsdconv_destroy(i); }
Counters counters_of(struct bsdconv_instance *ins) {
	Counters r;
	for (struct bsdconv_counter_entry *c = ins->counter; c; c = c->next) r[c->key] = c->val;
	return r;
}
bool cnt_equal(const Counters &a, const Counters &b) {
	for (auto &x : a) { auto it = b.find(x.first); if ((it == b.end() ? 0 : it->second) != x.second) return false; }
	for (auto &x : b) { auto it = a.find(x.first); if ((it == a.end() ? 0 : it->second) != x.second) return false; }
	return true;
}
std::string show(const Counters &c) { std::string r; for (auto &x : c) r += x.first + "=" + std::to_string(x.second) + " "; return r; }
void set_input(struct bsdconv_instance *ins, const std::string &d, bool own, Keep &keep) {
	void *p;
	if (own) { Sut s; p = bsdconv_malloc(d.size() ? d.size() : 1); } // handed over: from now on the library's to free
	else { p = malloc(d.size() ? d.size() : 1); keep.v.push_back(p); }
	memcpy(p, d.data(), d.size());
	ins->input.data = p;
	ins->input.len = d.size();
	ins->input.flags = own ? F_FREE : 0;
	ins->input.next = nullptr;
}
std::string drain_auto(struct bsdconv_instance *ins, size_t slack) {
	ins->output_mode = BSDCONV_AUTOMALLOC;
	ins->output.data = nullptr;
	ins->output.len = slack;
	{ Sut s; bsdconv(ins); }
	std::string r((char *)ins->output.data, ins->output.len);
	if (slack) memset((char *)ins->output.data + ins->output.len, 0, slack); // the requested room must exist
	{ Sut s; bsdconv_free(ins->output.data); }
	ins->output.data = nullptr; ins->output.len = 0;
	return r;
}
Outcome run_whole(struct bsdconv_instance *ins, const std::string &in) {
	Keep k; Outcome o;
	set_input(ins, in, true, k);
	ins->flush = 1;
	o.out = drain_auto(ins);
	o.cnt = counters_of(ins);
	return o;
}
Outcome one_shot(const std::string &conv, const std::string &in) {
	struct bsdconv_instance *ins = create(conv);
	if (!ins) harness_error("cannot create " + conv);
	{ Sut s; bsdconv_init(ins); }
	Outcome o = run_whole(ins, in);
	destroy(ins);
	return o;
}
