// A small reference model of what conversions mean: tables as the table format says, codecs with code as their
// encoding is defined.  Used by C18 and C19; written without reference to how the library does it.
#pragma once
#include "p_common.h"
#include <unistd.h>
#include <array>
#include <memory>
#include <set>

static std::string hexs(const std::string &b, Rng *g = nullptr) {
	std::string r;
	for (unsigned char c : b) { char t[4]; snprintf(t, sizeof t, g && g->chance(20) ? "%02x" : "%02X", c); r += t; }
	return r;
}
// Units 0..255 are bytes, 256 is the boundary between characters (packets).
typedef std::vector<std::string> Packets;
struct Node { std::map<int, int> next; bool term = false; int level = 0; Packets out; };
struct Trie {
	std::vector<Node> n{Node()};
	// The entry with the most units as written counts, of several such the first.
	void add(const std::vector<std::pair<int, int>> &key, const Packets &out, bool anycase, size_t i = 0, int at = 0, int level = 0) {
		if (i == key.size()) { if (!n[at].term || n[at].level < level) { n[at].term = true; n[at].level = level; n[at].out = out; } return; }
		for (int c = 0; c <= 256; c++) {
			int o = c < 128 && isalpha(c) ? c ^ 32 : -1, exact = c >= key[i].first && c <= key[i].second;
			if (!exact && !(anycase && o >= key[i].first && o <= key[i].second)) continue;
			auto it = n[at].next.find(c);
			int to;
			if (it == n[at].next.end()) { to = n.size(); n[at].next[c] = to; n.push_back(Node()); } else to = it->second;
			add(key, out, anycase, i + 1, to, level + exact);
		}
	}
	int step(int at, int c) const { auto it = n[at].next.find(c); return it == n[at].next.end() ? -1 : it->second; }
};
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 0; }
static Trie trie_of(const std::string &text) {
	Trie t;
	for (auto &ln : split(text, '\n')) {
		if (ln.empty() || ln[0] == '#') continue;
		size_t tab = ln.find('\t');
		if (tab == std::string::npos) continue;
		std::string k = ln.substr(0, tab), v = ln.substr(tab + 1);
		bool anycase = k[0] == '!';
		if (anycase) k.erase(0, 1);
		std::vector<std::pair<int, int>> key;
		for (size_t i = 0; i < k.size();) {
			if (k[i] == '*') { key.push_back({0, 256}); i++; }
			else if (k[i] == ',') { key.push_back({256, 256}); i++; }
			else if (i + 1 < k.size()) { int u = hexv(k[i]) * 16 + hexv(k[i + 1]); key.push_back({u, u}); i += 2; }
			else break;
		}
		Packets out;
		if (!v.empty()) for (auto &d : split(v, ',')) { std::string b; for (size_t i = 0; i + 1 < d.size(); i += 2) b += (char)(hexv(d[i]) * 16 + hexv(d[i + 1])); out.push_back(b); }
		if (!key.empty()) t.add(key, out, anycase);
	}
	return t;
}
// What a codec with known code does on top of its table. One that is asked something this model leaves open gives up.
enum { K_TABLE = 0, K_UTF8, K_CESU, K_U16LE, K_U16BE, K_U32LE, K_U32BE, K_U2LE, K_U2BE, K_ENTITY, K_ESCAPE, K_PUTESC, K_HEXDUMP, K_THROUGH, K_RAW, K_EBCDIC, K_BONUS, K_INTERNAL, K_UDA, K_JIS, K_SHIFT, K_GB18030 };
struct Codec { std::shared_ptr<Trie> t; int code = K_TABLE; bool shifted = false; std::string prefix, suffix; int base = 16, type = 1; std::vector<std::shared_ptr<Trie>> sets; int mode = 0; const std::vector<std::array<uint32_t, 3>> *gb4 = nullptr; };
struct Undecided {};
static void put_utf8(std::string &r, uint32_t u) {
	if (u < 0x80) r += (char)u;
	else if (u < 0x800) { r += (char)(0xC0 | u >> 6); r += (char)(0x80 | (u & 63)); }
	else if (u < 0x10000) { r += (char)(0xE0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
	else { r += (char)(0xF0 | u >> 18); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
}
static std::string ucs_packet(uint32_t u) {
	std::string r = "\x01";
	for (int s = 24; s >= 0; s -= 8) if (r.size() > 1 || u >> s || !s) r += (char)(u >> s);
	return r;
}
static bool scalar(uint32_t u) { return u <= 0x10FFFF && !(u >= 0xD800 && u < 0xE000); }
static size_t utf8_at(const std::string &in, size_t p, bool surrogates, uint32_t &u) { // well-formed, beyond ASCII
	unsigned char b = in[p];
	int n = b >= 0xC2 && b < 0xE0 ? 1 : b >= 0xE0 && b < 0xF0 ? 2 : b >= 0xF0 && b < 0xF5 ? 3 : 0;
	if (!n || p + n >= in.size()) return 0;
	u = b & (0x3F >> n);
	for (int i = 1; i <= n; i++) { unsigned char d = in[p + i]; if ((d & 0xC0) != 0x80) return 0; u = u << 6 | (d & 63); }
	static const uint32_t least[] = {0, 0x80, 0x800, 0x10000};
	return u < least[n] || u > 0x10FFFF || (!surrogates && !scalar(u)) ? 0 : n + 1;
}
static size_t longest(const Trie &t, const std::string &in, size_t p, Packets &out, size_t most = 99) {
	int at = 0, hit = -1; size_t len = 0;
	for (size_t q = p; q < in.size() && q < p + most && (at = t.step(at, (unsigned char)in[q])) >= 0; q++) if (t.n[at].term) { hit = at; len = q + 1 - p; }
	if (hit >= 0) out = t.n[hit].out;
	return len;
}
// Longest match at `p`: how many units it takes (0: none) and what it gives.
static size_t match_bytes(Codec &c, const std::string &in, size_t p, Packets &out) {
	uint32_t u = 0;
	size_t n = 0;
	auto byte = [&](size_t i) { return p + i < in.size() ? (int)(unsigned char)in[p + i] : -1; };
	auto digits = [&](size_t i, size_t m, int base) { // m digits from i on
		uint32_t v = 0;
		for (size_t k = i; k < i + m; k++) { int d = byte(k); d = d < 0 || d > 127 || !isxdigit(d) ? 99 : hexv((char)d); if (d >= base) return (int64_t)-1; v = v * base + d; }
		return (int64_t)v;
	};
	switch (c.code) {
	case K_UTF8: case K_CESU:
		if (!(n = utf8_at(in, p, c.code == K_CESU, u))) return 0;
		if (c.code == K_CESU && !scalar(u)) {
			uint32_t lo = 0;
			if (u >= 0xDC00 || p + 3 >= in.size() || utf8_at(in, p + 3, true, lo) != 3 || lo < 0xDC00 || lo >= 0xE000) throw Undecided();
			u = 0x10000 + ((u - 0xD800) << 10) + (lo - 0xDC00); n = 6;
		}
		out = {ucs_packet(u)};
		return n;
	case K_U16LE: case K_U16BE: case K_U2LE: case K_U2BE: {
		bool le = c.code == K_U16LE || c.code == K_U2LE;
		auto w = [&](size_t i) { return (uint32_t)(byte(i + le) << 8 | byte(i + !le)); };
		if (p + 1 >= in.size()) return 0;
		u = w(0); n = 2;
		if (u >= 0xD800 && u < 0xDC00) { if (p + 3 >= in.size()) return 0; uint32_t l = w(2); if (l < 0xDC00 || l >= 0xE000) return 0; u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); n = 4; }
		break;
	}
	case K_U32LE: case K_U32BE:
		if (p + 3 >= in.size()) return 0;
		for (int i = 0; i < 4; i++) u = u << 8 | (uint32_t)byte(c.code == K_U32LE ? 3 - i : i);
		n = 4;
		break;
	case K_ENTITY: {
		if (byte(0) != '&' || byte(1) != '#') return 0;
		bool hex = byte(2) == 'x';
		size_t i = 2 + hex, k = i;
		for (int64_t d; (d = digits(k, 1, hex ? 16 : 10)) >= 0; k++) if ((u = u * (hex ? 16 : 10) + d) > 0x10FFFF) return 0;
		if (byte(k) != ';' || k == i) return 0;
		n = k + 1;
		break;
	}
	case K_ESCAPE: {
		int64_t v = -1;
		if (byte(0) != '%' && byte(0) != '\\') return 0;
		bool pc = byte(0) == '%';
		if (byte(1) == 'u') { if ((v = digits(2, 4, 16)) < 0) return 0; u = v; n = 6; break; }
		if (pc) { v = digits(1, 2, 16); n = 3; }
		else if (byte(1) == 'x') { v = digits(2, 2, 16); n = 4; }
		else { v = digits(1, 3, 8); n = 4; if (v > 255) v = -1; }
		if (v < 0) return 0;
		out = {std::string("\x03") + (char)v};
		return n;
	}
	case K_THROUGH: throw Undecided();
	case K_INTERNAL: { // packets in hexadecimal, as the generators write them
		size_t e = in.find(',', p);
		if (e == std::string::npos || (e - p) % 2) throw Undecided();
		for (size_t i = p; i < e; i++) if (!isxdigit((unsigned char)in[i])) throw Undecided();
		out = {unhex_bytes(in.substr(p, e - p))};
		return e + 1 - p;
	}
	case K_UDA: { // the user-defined areas of code page 950
		int h = byte(0), l = byte(1);
		if (!((l >= 0x40 && l <= 0x7E) || (l >= 0xA1 && l <= 0xFE))) return 0;
		int o = l < 0x80 ? l - 0x40 : l - 0x62;
		if (h >= 0xFA && h <= 0xFE) u = 0xE000 + 157 * (h - 0xFA) + o;
		else if (h >= 0x8E && h <= 0xA0) u = 0xE311 + 157 * (h - 0x8E) + o;
		else if (h >= 0x81 && h <= 0x8D) u = 0xEEB8 + 157 * (h - 0x81) + o;
		else if (h >= 0xC6 && h <= 0xC8 && (h > 0xC6 || l >= 0xA1)) u = 0xF6B1 + 157 * (h - 0xC6) + o - 63;
		else return 0;
		n = 2;
		break;
	}
	case K_JIS: {
		static const std::vector<std::pair<std::string, int>> esc = {{"\x1B(B", 0}, {"\x1B(J", 1}, {"\x1B(I", 2}, {"\x1B$@", 3}, {"\x1B$B", 3}, {"\x1B$(D", 4}};
		auto designation = [&](size_t q) -> size_t { for (auto &e : esc) if (in.compare(q, e.first.size(), e.first) == 0) { c.mode = e.second; return e.first.size(); } if (in.compare(q, 4, "\x1B($D") == 0) throw Undecided(); return 0; };
		out.clear();
		if (byte(0) == 0x1B) return designation(p);
		if (!c.mode) return 0;
		std::string one = in.substr(p, 2);
		if (c.mode == 2) one[0] |= 0x80;
		Trie *t = c.sets[c.mode < 3 ? 0 : c.mode - 2].get();
		if ((n = longest(*t, one, 0, out))) return n;
		if (c.mode > 2 && t->step(0, (unsigned char)one[0]) >= 0) { // a pair begun: a designation cuts it off
			if (byte(1) == 0x1B && (n = designation(p + 1))) return 1 + n;
		}
		return 0;
	}
	case K_SHIFT:
		if (byte(0) == 14 || byte(0) == 15) { c.shifted = byte(0) == 14; out.clear(); return 1; }
		n = longest(*c.t, in, p, out, c.shifted ? 2 : 1);
		if (n != (c.shifted ? 2u : 1u)) throw Undecided();
		return n;
	case K_GB18030: {
		if ((n = longest(*c.t, in, p, out))) return n;
		int b[4];
		for (int i = 0; i < 4; i++) { b[i] = byte(i); if (b[i] < (i & 1 ? 0x30 : 0x81) || b[i] > (i & 1 ? 0x39 : 0xFE)) return 0; }
		uint32_t i = ((b[0] - 0x81) * 10 + b[1] - 0x30) * 1260 + (b[2] - 0x81) * 10 + b[3] - 0x30;
		for (auto &r : *c.gb4) if (i >= r[0] && i < r[0] + r[2]) { u = r[1] + i - r[0]; n = 4; }
		if (!n) return 0;
		break;
	}
	}
	if (c.code) { if (!scalar(u)) throw Undecided(); out = {ucs_packet(u)}; return n; }
	return longest(*c.t, in, p, out);
}
static size_t match_packets(Codec &c, const Packets &in, size_t p, Packets &out) {
	if (c.code == K_RAW) { if (in[p].empty()) throw Undecided(); out = {in[p].substr(1)}; return 1; }
	if (c.code == K_HEXDUMP) { out = {hexs(in[p])}; return 1; }
	if (c.code == K_PUTESC) {
		if (in[p].empty() || in[p][0] != c.type) return 0;
		if (in[p].size() < 2 || in[p].size() > 5) throw Undecided();
		uint32_t u = 0;
		for (size_t i = 1; i < in[p].size(); i++) u = u << 8 | (unsigned char)in[p][i];
		out = {c.prefix + (c.base == 16 ? hexs(in[p].substr(1)) : fmt(c.base == 10 ? "%u" : "%o", u)) + c.suffix};
		return 1;
	}
	if (c.code && c.code < K_ENTITY) {
		uint32_t u = 0;
		for (size_t i = 1; i < in[p].size() && i < 5; i++) u = u << 8 | (unsigned char)in[p][i];
		if (in[p].empty() || in[p][0] != 1) return 0;
		if (in[p] != ucs_packet(u) || !scalar(u)) throw Undecided();
		if ((c.code == K_UTF8 && u < 0x80) || (c.code >= K_U2LE && u > 0xFFFF)) return 0;
		std::string r;
		auto w = [&](uint32_t v, bool le, int n) { for (int i = 0; i < n; i++) r += (char)(v >> 8 * (le ? i : n - 1 - i)); };
		bool le = c.code == K_U16LE || c.code == K_U32LE || c.code == K_U2LE;
		if (c.code == K_UTF8) put_utf8(r, u);
		else if (c.code == K_U32LE || c.code == K_U32BE) w(u, le, 4);
		else if (u > 0xFFFF) { w(0xD800 + ((u - 0x10000) >> 10), le, 2); w(0xDC00 + (u & 0x3FF), le, 2); }
		else w(u, le, 2);
		out = {r};
		return 1;
	}
	int at = 0, hit = -1; size_t len = 0;
	for (size_t q = p; q < in.size() && at >= 0; q++) {
		if (q > p) at = c.t->step(at, 256);
		for (unsigned char b : in[q]) { if (at < 0) break; at = c.t->step(at, b); }
		if (at >= 0 && c.t->n[at].term) { hit = at; len = q + 1 - p; }
	}
	if (hit < 0 && c.code == K_GB18030) {
		uint32_t u = 0;
		for (size_t i = 1; i < in[p].size() && i < 5; i++) u = u << 8 | (unsigned char)in[p][i];
		if (in[p].empty() || in[p][0] != 1) return 0;
		if (in[p] != ucs_packet(u) || !scalar(u)) throw Undecided();
		for (auto &r : *c.gb4) if (u >= r[1] && u < r[1] + r[2]) { uint32_t i = r[0] + u - r[1]; out = {std::string{(char)(0x81 + i / 12600), (char)(0x30 + i / 1260 % 10), (char)(0x81 + i / 10 % 126), (char)(0x30 + i % 10)}}; return 1; }
		return 0;
	}
	if (hit < 0) return 0;
	out = c.t->n[hit].out;
	if (c.code == K_BONUS && !out.empty()) out.erase(out.begin());
	if (c.code == K_EBCDIC && !out.empty()) {
		bool wide = out[0].size() > 1;
		if (wide != c.shifted) { c.shifted = wide; out.insert(out.begin(), wide ? "\x0E" : "\x0F"); }
	}
	return len;
}
static Packets model_from(std::vector<Codec> &cs, const std::string &in, uint64_t &ierr) {
	Packets r, out;
	for (size_t p = 0; p < in.size();) {
		size_t n = 0;
		for (auto &c : cs) if ((n = match_bytes(c, in, p, out))) break;
		if (n) r.insert(r.end(), out.begin(), out.end()); else ierr++;
		p += n ? n : 1;
	}
	return r;
}
static Packets model_packets(std::vector<Codec> &cs, const Packets &in, bool drop, uint64_t &oerr) {
	Packets r, out;
	for (size_t p = 0; p < in.size();) {
		size_t n = 0;
		for (auto &c : cs) if ((n = match_packets(c, in, p, out))) break;
		if (n) r.insert(r.end(), out.begin(), out.end());
		else if (drop) oerr++;
		else r.push_back(in[p]);
		p += n ? n : 1;
	}
	for (auto &c : cs) if (c.shifted) r.push_back("\x0F");
	return r;
}
// The shipped tables, read from their sources.
static const std::vector<std::string> &shipped_plain(int kind) {
	static std::vector<std::string> v[3];
	if (v[kind].empty()) for (auto &n : kind == 0 ? T.froms : kind == 1 ? T.inters : T.tos) {
		static const char *dir[] = {"from", "inter", "to"};
		if (access((os::root + "/share/bsdconv/" + dir[kind] + "/" + n + ".so").c_str(), F_OK) && !access((os::root + "/../tree/modules/" + dir[kind] + "/" + n + ".txt").c_str(), R_OK)) v[kind].push_back(n);
	}
	return v[kind];
}
// Only the entries that can start with one of the given units are read.
static bool shipped_codec(int kind, const std::string &name, Codec &c, const std::set<std::string> &need) {
	static const char *dir[] = {"from", "inter", "to"};
	static const std::map<std::string, int> in = {{"_UTF-8", K_UTF8}, {"_UTF-8#CESU", K_CESU}, {"UTF-16LE", K_U16LE}, {"UTF-16BE", K_U16BE}, {"UTF-32LE", K_U32LE}, {"UTF-32BE", K_U32BE}, {"ASCII-NUMERIC-HTML-ENTITY", K_ENTITY}, {"ESCAPE", K_ESCAPE}},
		to = {{"_UTF-8", K_UTF8}, {"UTF-16LE", K_U16LE}, {"UTF-16BE", K_U16BE}, {"UTF-32LE", K_U32LE}, {"UTF-32BE", K_U32BE}, {"UCS-2LE", K_U2LE}, {"UCS-2BE", K_U2BE}, {"RAW", K_RAW}, {"BSDCONV", K_HEXDUMP}};
	if (kind != 1) { auto &m = kind ? to : in; auto it = m.find(name); if (it != m.end()) { c.code = it->second; return true; } }
	if (kind == 2 && name.substr(0, 7) == "ESCAPE#") { // as written by the generators: every key given
		c.code = K_PUTESC; c.prefix = "%u";
		for (auto &a : split(name.substr(7), '&')) {
			auto kv = split(a, '=');
			if (kv.size() != 2) return false;
			if (kv[0] == "PREFIX") c.prefix = unhex_bytes(kv[1]);
			else if (kv[0] == "SUFFIX") c.suffix = unhex_bytes(kv[1]);
			else if (kv[0] == "MODE") c.base = atoi(kv[1].c_str());
			else if (kv[0] == "FOR") c.type = kv[1] == "UNICODE" ? 1 : 3;
			else return false;
		}
		return c.base == 16 || c.base == 10 || c.base == 8;
	}
	if (kind == 2 && name.substr(0, 5) == "IBM-9") c.code = K_EBCDIC;
	else if (kind == 1 && name.substr(0, 8) == "ZH-BONUS") c.code = K_BONUS;
	else if (std::find(shipped_plain(kind).begin(), shipped_plain(kind).end(), name) == shipped_plain(kind).end()) return false;
	FILE *f = fopen((os::root + "/../tree/modules/" + dir[kind] + "/" + name + ".txt").c_str(), "r");
	if (!f) return false;
	c.t = std::make_shared<Trie>();
	std::string text;
	char b[4096];
	while (fgets(b, sizeof b, f)) {
		size_t k = strcspn(b, "\t "), v = k + strspn(b + k, "\t ");
		if (b[0] == '#' || v == k) continue;
		size_t k0 = b[0] == '!', k1 = k0;
		while (k1 < k && b[k1] != ',' && (kind || k1 < k0 + 2)) { b[k1] = toupper((unsigned char)b[k1]); k1++; }
		if (!need.count(std::string(b + k0, k1 - k0))) continue;
		if (b[v] == '?') v++;
		text += std::string(b, k) + "\t" + std::string(b + v, strcspn(b + v, "\t\r\n# ")) + "\n";
	}
	fclose(f);
	*c.t = trie_of(text);
	return true;
}
// A whole conversion string. 1: decided, 0: not a conversion this model knows, -1: left open.
template <class F> static int model_conv(const std::string &conv, const std::string &in, F resolve, std::string &out, uint64_t &ierr, uint64_t &oerr) {
	std::string cur = in;
	auto stages = split(conv, '|');
	Packets d;
	bool through = false; // characters carried over by a pair of stages that has to be transparent
	try {
		for (size_t s = 0; s < stages.size(); s++) {
			auto ph = split(stages[s], ':');
			if (ph.size() < 2) return 0;
			for (size_t i = 0; i < ph.size(); i++) {
				std::vector<Codec> cs;
				std::set<std::string> need;
				int kind = i == 0 ? 0 : i + 1 == ph.size() ? 2 : 1;
				if (through && i == 0) { through = false; continue; }
				if (kind == 2 && ph[i] == "GB18030" && s + 1 < stages.size() && stages[s + 1].substr(0, 8) == "GB18030:") { through = true; break; }
				if (i == 0) for (char c : cur) need.insert(hexs(std::string(1, c)));
				else for (auto &x : d) need.insert(hexs(x));
				auto names = split(ph[i], ',');
				for (size_t k = 0; k < names.size() && names.size() < 50;) { // aliases as on file
					auto &al = kind == 0 ? T.afrom : kind == 1 ? T.ainter : T.ato;
					auto it = al.find(names[k]);
					if (it == al.end()) { k++; continue; }
					auto v = split(it->second, ',');
					names.erase(names.begin() + k);
					names.insert(names.begin() + k, v.begin(), v.end());
				}
				for (auto &n : names) { Codec c; if (!resolve(kind, n, c, need)) return 0; cs.push_back(c); }
				if (cs.size() > 1) for (auto &c : cs) if (c.code == K_EBCDIC) return -1; // when to shift back is up to the codec
				if (kind == 0) d = model_from(cs, cur, ierr);
				else d = model_packets(cs, d, kind == 2, oerr);
			}
			if (through) { // no national character set has NUL, unless asked for
				size_t n = d.size();
				d.erase(std::remove(d.begin(), d.end(), std::string("\x01\0", 2)), d.end());
				oerr += n - d.size();
			}
			if (through) { for (auto &x : d) { uint32_t u = 0; for (size_t i = 1; i < x.size() && i < 5; i++) u = u << 8 | (unsigned char)x[i]; if (x != ucs_packet(u) || !scalar(u)) return -1; } continue; }
			cur.clear();
			for (auto &x : d) cur += x;
		}
	} catch (Undecided &) { return -1; }
	out = cur;
	return 1;
}
// The real thing, fed as the plan says.
static Outcome deliver(const Plan &p, const std::string &conv, const std::string &in, const std::string &at) {
	Keep keep;
	Outcome o;
	struct bsdconv_instance *ins = must(conv);
	if (!ins) violation("the conversion cannot be created", at);
	Feed f = feed_of(p, in);
	for (size_t i = 0; i < f.chunks.size(); i++) {
		set_input(ins, f.chunks[i], owns(f.own_seed, i), keep);
		ins->flush = i + 1 == f.chunks.size() && f.flush_style == 0;
		o.out += drain_auto(ins);
	}
	if (f.chunks.empty() || f.flush_style) { ins->flush = 1; o.out += drain_auto(ins); }
	o.cnt = counters_of(ins);
	destroy(ins);
	ev("out " + o.out);
	return o;
}
