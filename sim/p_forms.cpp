// Encoding forms of Unicode: what any of them says is what every other one gets.
#include "model.h"

static uint32_t character(Rng &g) {
	static const std::vector<uint32_t> odd = {1, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x1F6, 0x200, 0x3FF, 0x452, 0x7FF, 0x800, 0x801, 0xA00, 0xFFF, 0x1000, 0x200F, 0x2643, 0x3000, 0x4E00, 0x9FA5, 0x9FA6, 0xD7FF, 0xE000, 0xE865, 0xF92B, 0xFEFF, 0xFF00, 0xFFE6, 0xFFFD, 0xFFFE, 0xFFFF,
		0x10000, 0x10001, 0x100FF, 0x10100, 0x101F6, 0x1F600, 0x1FFFF, 0x20000, 0x20500, 0x2A6D6, 0x2F800, 0x3FFFF, 0x40000, 0xE0001, 0xFFFFF, 0x100000, 0x10FC00, 0x10FFFF};
	for (;;) {
		uint32_t u;
		switch (g.below(7)) {
		case 0: u = 0x20 + g.below(0x5F); break;
		case 1: u = g.pick(odd) + g.below(3) - 1; break;
		case 2: u = g.below(0x110000); break;
		case 3: u = g.below(0x10000); break;
		case 4: u = 0x10000 + g.below(0x20000); break;
		case 5: u = (g.below(0x11) << 16) | (g.below(256) << 8); break;
		default: u = g.below(0x800);
		}
		if (u && scalar(u)) return u;
	}
}
static void put16(std::string &r, uint32_t u, bool le) {
	auto w = [&](uint32_t v) { r += (char)(le ? v : v >> 8); r += (char)(le ? v >> 8 : v); };
	if (u > 0xFFFF) { w(0xD800 + ((u - 0x10000) >> 10)); w(0xDC00 + (u & 0x3FF)); } else w(u);
}
// One character in the form read by the named codec.
static void put(Rng &g, std::string &r, const std::string &codec, uint32_t u) {
	if (codec == "UTF-16LE" || codec == "UTF-16BE") put16(r, u, codec == "UTF-16LE");
	else if (codec == "UTF-32LE" || codec == "UTF-32BE") for (int i = 0; i < 4; i++) r += (char)(u >> 8 * (codec == "UTF-32LE" ? i : 3 - i));
	else if (codec == "ASCII-NUMERIC-HTML-ENTITY") r += fmt(g.chance(50) ? "&#%u;" : g.chance(50) ? "&#x%X;" : "&#x%04x;", u);
	else if (codec == "ESCAPE" && u < 0x10000) r += fmt(g.chance(50) ? "%%u%04X" : g.chance(50) ? "\\u%04x" : "\\u%04X", u);
	else if (codec == "_UTF-8#CESU" && u > 0xFFFF && g.chance(70)) { std::string t; put16(t, u, false); for (int i = 0; i < 4; i += 2) put_utf8(r, (unsigned char)t[i] << 8 | (unsigned char)t[i + 1]); }
	else put_utf8(r, u);
}
static Plan gen_c19(Rng &g, int tier) {
	Plan p;
	static const std::vector<std::string> wide = {"UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"};
	static const std::vector<std::string> sinks = {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "UCS-2LE", "UCS-2BE", "ASCII-HEX-NUMERIC-HTML-ENTITY", "ASCII-DEC-NUMERIC-HTML-ENTITY", "BSDCONV", "JAVA", "UTF-16", "UCS-4BE"};
	static const std::vector<std::string> carriers = {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "GB18030"};
	std::vector<std::string> from;
	if (g.chance(45)) from = {g.pick(wide)};
	else {
		if (g.chance(30)) from.push_back("ASCII-NUMERIC-HTML-ENTITY");
		if (g.chance(30)) from.push_back("ESCAPE");
		from.push_back("ASCII");
		from.push_back(g.chance(30) ? "_UTF-8#CESU" : "_UTF-8");
		if (from.size() == 2 && g.chance(50)) std::swap(from[0], from[1]);
	}
	std::string conv;
	if (from == std::vector<std::string>{"ASCII", "_UTF-8"} && g.chance(50)) conv = "UTF-8";
	else for (auto &f : from) conv += (conv.empty() ? "" : ",") + f;
	for (int i = 0, n = g.chance(40) ? 1 + g.below(2) : 0; i < n; i++) { auto &c = g.pick(carriers); conv += ":" + c + "|" + c; }
	conv += ":" + g.pick(sinks);
	std::string in;
	bool bytes = from.size() > 1;
	for (int i = 0, n = 1 + g.below(g.chance(15) ? 60 : 10); i < n; i++) {
		if (bytes && g.chance(8)) { // not text
			int k = g.below(5);
			if (k == 0) in += (char)(0x80 + g.below(0x80));
			else if (k == 1) { std::string t; put_utf8(t, character(g)); in += t.substr(0, t.size() - 1); }
			else if (k == 2) { in += (char)(0xE0 | g.below(16)); in += (char)(0x80 | g.below(32)); in += (char)(0x80 | g.below(64)); }
			else if (k == 3) { in += (char)(0xF0 | g.below(8)); for (int j = 0; j < 3; j++) in += (char)(0x80 | g.below(64)); }
			else in += g.pick(std::vector<std::string>{"%", "%u", "%u12", "\\", "\\x", "\\u00", "\\77", "\\777", "\\400", "\\377", "%4", "&", "&#", "&#12", "&#x", "&#x1F", "&#1x;", "&#xZ;", "&#x;", "&#;", "&#1114111;", "&#1114112;", "&#x110000;", "&#x10FFFF;", "&#4294967361;", "&#x100000041;", "&#00000000000000000000000000065;", "&#xfffffffffffffffffff41;", "&#x0000000041", "&#X41;", ";", "%41", "\\x4a", "\\101"});
			continue;
		}
		if (!bytes && g.chance(2) && from[0].substr(0, 6) == "UTF-16") { uint32_t u = 0xD800 + g.below(0x400); in += (char)(from[0] == "UTF-16LE" ? u : u >> 8); in += (char)(from[0] == "UTF-16LE" ? u >> 8 : u); } // half a character
		put(g, in, g.pick(from), g.chance(3) ? 0 : character(g));
	}
	if (!bytes && g.chance(10)) in.resize(in.size() - 1 - g.below(in.size() > 3 ? 3 : 1));
	p.add("conv", {}, {conv});
	p.add("in", {}, {in});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static void exec_c19(const Plan &p) {
	std::string conv = str_of(p, "conv").c_str(), in = str_of(p, "in"), want;
	uint64_t ierr = 0, oerr = 0;
	int ok = model_conv(conv, in, shipped_codec, want, ierr, oerr);
	if (ok < 0) stat("c19.undecided");
	if (ok <= 0) return;
	stat("c19.decided");
	std::string at = conv + " in=" + esc(in);
	Outcome got = deliver(p, conv, in, at);
	state(sched_hash(conv, feed_of(p, in)) ^ hash_str(in));
	if (!in.empty()) nontrivial();
	if (got.out != want) violation("text does not come out as it went in", at + " want=" + esc(want) + " got=" + esc(got.out));
	if (got.cnt["IERR"] != ierr || got.cnt["OERR"] != oerr) violation("errors counted are not what was wrong with the text", at + fmt(" want=%lu/%lu got=%lu/%lu", (unsigned long)ierr, (unsigned long)oerr, (unsigned long)got.cnt["IERR"], (unsigned long)got.cnt["OERR"]));
}
static RegProp r19({"C19", gen_c19, exec_c19, 20000, 1000000, "distinct (conversion, text, chunk sequence)"});

// ---------------------------------------------------------------- C20: national character sets there and back
struct Charset {
	const char *from, *to; std::vector<const char *> tables; bool ascii;
	std::vector<std::pair<uint32_t, uint32_t>> also; // what it has by rule, not by table
	bool by_rule(uint32_t u) const { for (auto &x : also) if (u >= x.first && u <= x.second) return true; return false; }
};
static const std::vector<Charset> &charsets() {
	static const std::vector<Charset> v = {
		{"CP1251", "CP1251", {"_CP1251"}, true}, {"CP1252", "CP1252", {"_CP1252"}, true}, {"CP1253", "CP1253", {"_CP1253"}, true}, {"CP874", "CP874", {"_CP874"}, true}, {"ISO-8859-1", "ISO-8859-1", {"_ISO-8859-1"}, true}, {"LATIN1", "ISO-8859-1", {"_ISO-8859-1"}, true},
		{"CP936", "CP936", {"_CP936"}, true}, {"CP949", "CP949", {"_CP949"}, true}, {"CP950", "CP950", {"_CP950"}, true, {{0xE000, 0xF848}}}, {"GBK", "GBK", {"_GBK"}, true}, {"SHIFT-JIS", "SHIFT-JIS", {"_SHIFT-JIS"}, true}, {"UAO241", "UAO241", {"_UAO241"}, true}, {"UAO250", "UAO250", {"_UAO250"}, true}, {"GB18030", "GB18030", {"_GB18030"}, true, {{0x80, 0xD7FF}, {0xE000, 0xFFFF}, {0x10000, 0x10FFFF}, {0x0452, 0x200F}, {0x2643, 0x2E80}, {0x361B, 0x3917}, {0x3CE1, 0x4055}, {0x4160, 0x4336}, {0x44D7, 0x464B}, {0x478E, 0x4946}, {0x49B8, 0x4C76}, {0x9FA6, 0xD7FF}, {0xE865, 0xF92B}, {0xFA2A, 0xFE2F}, {0xFFE6, 0xFFFF}}},
		{"_GB2312", "_GB2312", {"_GB2312"}, false}, {"_JIS0212", "_JIS0212", {"_JIS0212"}, false}, {"CCCII", "CCCII", {"CCCII"}, false}, {"IBM-37", "IBM-37", {"IBM-37"}, false},
		{"IBM-930", "IBM-930", {"IBM-930"}, false}, {"IBM-933", "IBM-933", {"IBM-933"}, false}, {"IBM-935", "IBM-935", {"IBM-935"}, false}, {"IBM-937", "IBM-937", {"IBM-937"}, false}, {"IBM-939", "IBM-939", {"IBM-939"}, false},
		{"BIG5-5C,CP950", "BIG5-5C,CP950", {"_CP950"}, true}, {"ASCII-NAMED-HTML-ENTITY,UTF-8", "ASCII-NAMED-HTML-ENTITY,UTF-8", {"_CP1252", "_CP1253", "_UAO250"}, true}};
	return v;
}
typedef std::vector<uint32_t> Chars;
struct Repertoire { std::vector<Chars> each; std::set<uint32_t> single; std::map<std::string, Chars> key; std::vector<std::string> keys; };
static const Repertoire &repertoire(const std::string &table) { // what the sequences of a table stand for
	static std::map<std::string, Repertoire> all;
	auto it = all.find(table);
	if (it != all.end()) return it->second;
	Repertoire &r = all[table];
	FILE *f = fopen((os::root + "/../tree/modules/from/" + table + ".txt").c_str(), "r");
	char b[4096];
	std::set<std::string> keys;
	while (f && fgets(b, sizeof b, f)) {
		size_t k = strcspn(b, "\t "), v = k + strspn(b + k, "\t ");
		if (b[0] == '#' || b[0] == '!' || v == k || memchr(b, '*', k) || memchr(b, ',', k)) continue;
		if (!keys.insert(std::string(b, k)).second) continue; // the first entry counts
		Chars c;
		for (auto &p : packets_of(std::string(b + v + (b[v] == '?'), strcspn(b + v + (b[v] == '?'), "\t\r\n# ")))) {
			uint32_t u = 0;
			for (size_t i = 1; i < p.size() && i < 5; i++) u = u << 8 | (unsigned char)p[i];
			if (p.size() < 2 || p[0] != 1 || !scalar(u) || !u) { c.clear(); break; }
			if (table.substr(0, 5) == "IBM-9" && (u == 14 || u == 15)) { c.clear(); break; } // these shift
			c.push_back(u);
		}
		if (c.empty()) continue;
		r.each.push_back(c);
		if (c.size() == 1) r.single.insert(c[0]);
		r.keys.push_back(unhex_bytes(std::string(b, k)));
		r.key[r.keys.back()] = c;
	}
	if (f) fclose(f);
	return r;
}
// Sets which are read only; also those read in another way than they are written.
static const std::vector<Charset> &readable() {
	static const std::vector<Charset> v = {
		{"CP932", "", {"_CP932"}, true}, {"CP1254", "", {"_CP1254"}, true}, {"CP1255", "", {"_CP1255"}, true}, {"CP1256", "", {"_CP1256"}, true}, {"CP1257", "", {"_CP1257"}, true}, {"CP1258", "", {"_CP1258"}, true},
		{"BIG5-2003", "", {"_BIG5-2003"}, true}, {"BIG5-ETEN", "", {"_BIG5-ETEN"}, true}, {"BIG5E", "", {"_BIG5E"}, true}, {"BIG5", "", {"_UAO250"}, true}, {"HKSCS1999", "", {"_CP950", "_HKSCS1999"}, true}, {"HKSCS2001", "", {"_CP950", "_HKSCS2001"}, true}, {"HKSCS2004", "", {"_CP950", "_HKSCS2004"}, true},
		{"_JIS0201", "", {"_JIS0201"}, false}, {"_JIS0208", "", {"_JIS0208"}, false}, {"SHIFT-JIS", "", {"_SHIFT-JIS"}, true}, {"IBM-37", "", {"IBM-37"}, false}, {"CCCII", "", {"CCCII"}, false}, {"CP1253", "", {"_CP1253"}, true}, {"GBK", "", {"_GBK"}, true}};
	return v;
}
static Plan gen_c20(Rng &g, int tier) {
	Plan p;
	if (g.chance(25)) {
		const Charset &c = g.pick(readable());
		static const std::vector<std::string> hop = {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "GB18030"};
		std::string conv = c.from, in;
		if (g.chance(60)) { auto &h = g.pick(hop); conv += ":" + h + "|" + h; }
		auto &whole = repertoire(g.pick(c.tables));
		int n = 1 + g.below(g.chance(20) ? 60 : 12);
		if (g.chance(6) && !whole.keys.empty()) { // a stretch of the whole table, one after another
			for (size_t i = 0, at = g.below(whole.keys.size()); i < 600; i++) in += whole.keys[(at + i) % whole.keys.size()];
			n = 0;
		}
		for (int i = 0; i < n; i++) {
			auto &r = repertoire(g.pick(c.tables));
			in += (c.ascii && g.chance(20)) || r.keys.empty() ? std::string(1, (char)(1 + g.below(127))) : g.pick(r.keys);
		}
		p.add("read", {}, {conv + ":UTF-8"});
		p.add("in", {}, {in});
		p.add("chunks", gen_chunks(g, in.size()));
		p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
		return p;
	}
	static const std::vector<std::string> open = {"UTF-8", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"}, end = {"UTF-8", "UTF-8", "UTF-16LE", "UTF-32BE", "BSDCONV", "ASCII-HEX-NUMERIC-HTML-ENTITY"};
	std::string from = g.pick(open), conv = from;
	const Charset &a = g.pick(charsets());
	const Charset *b = g.chance(30) ? &g.pick(charsets()) : nullptr;
	conv += fmt(":%s|%s", a.to, a.from);
	if (b) conv += fmt(":%s|%s", b->to, b->from);
	conv += ":" + g.pick(end);
	std::string in;
	auto ok = [&](const Chars &c) {
		if (!b) return true;
		for (auto u : c) { bool hit = b->ascii && u < 0x80; hit = hit || b->by_rule(u); for (auto t : b->tables) hit = hit || repertoire(t).single.count(u); if (!hit) return false; }
		return true;
	};
	int n = 1 + g.below(g.chance(20) ? 60 : 12);
	if (g.chance(4)) { // a stretch of the whole repertoire, one after another
		n = 0;
		auto &r = repertoire(g.pick(a.tables));
		std::vector<Chars> w;
		if (!a.also.empty() && g.chance(60)) {
			auto &x = g.pick(a.also);
			uint32_t u = x.first + g.below(x.second - x.first + 1);
			for (int i = 0; i < 600 && u <= x.second; i++, u++) w.push_back({u});
		} else for (size_t i = 0, at = g.below(r.each.size() + 1); i < 600 && !r.each.empty(); i++) w.push_back(r.each[(at + i) % r.each.size()]);
		for (auto &c : w) if (ok(c)) for (auto u : c) put(g, in, from, u);
	}
	for (int i = 0; i < n; i++) {
		Chars c;
		for (int k = 0; k < 20; k++) {
			auto &r = repertoire(g.pick(a.tables));
			if (!a.also.empty() && g.chance(40)) {
				auto &x = g.pick(a.also);
				c = {g.chance(10) ? x.first : g.chance(10) ? x.second : x.first + (uint32_t)g.below(x.second - x.first + 1)};
			} else if ((a.ascii && g.chance(20)) || r.each.empty()) c = {1 + (uint32_t)g.below(127)}; else c = g.pick(r.each);
			if (ok(c)) break;
			c.clear();
		}
		for (auto u : c) put(g, in, from, u);
	}
	p.add("conv", {}, {conv});
	p.add("in", {}, {in});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static void exec_read(const Plan &p) {
	std::string conv = str_of(p, "read").c_str(), in = str_of(p, "in"), want;
	auto st = split(conv, '|');
	const Charset *c = nullptr;
	for (auto &x : readable()) if (split(st[0], ':')[0] == x.from) c = &x;
	if (!c || st.size() > 2 || split(st[0], ':').size() != 2 || split(st.back(), ':').size() != 2 || split(st.back(), ':')[1] != "UTF-8") return;
	if (st.size() == 2 && split(st[0], ':')[1] != split(st[1], ':')[0]) return;
	for (size_t q = 0; q < in.size();) {
		const Chars *hit = nullptr;
		size_t n = 0;
		Chars self = {(uint32_t)(unsigned char)in[q]};
		if (c->ascii && in[q] > 0) { hit = &self; n = 1; }
		for (auto t : c->tables) for (size_t k = 4; k && !hit; k--) if (q + k <= in.size()) { auto &r = repertoire(t); auto it = r.key.find(in.substr(q, k)); if (it != r.key.end()) { hit = &it->second; n = k; } }
		if (!hit) return; // not text
		for (auto u : *hit) put_utf8(want, u);
		q += n;
	}
	std::string at = conv + " in=" + esc(in);
	Outcome got = deliver(p, conv, in, at);
	state(sched_hash(conv, feed_of(p, in)) ^ hash_str(in));
	if (!in.empty()) nontrivial();
	if (got.out != want) violation("text of a character set is not carried on", at + " want=" + esc(want) + " got=" + esc(got.out));
	if (got.cnt["IERR"] || got.cnt["OERR"]) violation("errors counted for text the character set has", at + fmt(" got=%lu/%lu", (unsigned long)got.cnt["IERR"], (unsigned long)got.cnt["OERR"]));
}
static void exec_c20(const Plan &p) {
	if (p.find("read")) return exec_read(p);
	std::string conv = str_of(p, "conv").c_str(), in = str_of(p, "in"), want;
	auto st = split(conv, '|');
	if (st.size() < 2) return;
	std::string open = split(st[0], ':')[0], end = split(st.back(), ':').back();
	uint64_t ierr = 0, oerr = 0;
	if (model_conv(open + ":" + end, in, shipped_codec, want, ierr, oerr) != 1 || ierr || oerr) return;
	for (size_t i = 0; i + 1 < st.size(); i++) { // only character sets, each read as it was written, and only text they have
		bool known = false;
		for (auto &c : charsets()) {
			if (split(st[i], ':').back() != c.to || split(st[i + 1], ':')[0] != c.from) continue;
			known = true;
			Packets d; Codec k;
			std::vector<Codec> cs(1);
			uint64_t e = 0;
			std::set<uint32_t> have;
			for (auto t : c.tables) for (auto &x : repertoire(t).each) have.insert(x.begin(), x.end());
			std::string u32, none;
			uint64_t e2 = 0;
			if (model_conv(open + ":UTF-32BE", in, shipped_codec, u32, e, e2) != 1) return;
			for (size_t q = 0; q + 3 < u32.size(); q += 4) { uint32_t u = 0; for (int z = 0; z < 4; z++) u = u << 8 | (unsigned char)u32[q + z]; if (!(have.count(u) || c.by_rule(u) || (c.ascii && u < 0x80))) return; }
			break;
		}
		if (!known) return;
	}
	std::string at = conv + " in=" + esc(in);
	Outcome got = deliver(p, conv, in, at);
	state(sched_hash(conv, feed_of(p, in)) ^ hash_str(in));
	if (!in.empty()) nontrivial();
	if (got.out != want) violation("text does not come back from a character set", at + " want=" + esc(want) + " got=" + esc(got.out));
	if (got.cnt["IERR"] || got.cnt["OERR"]) violation("errors counted for text the character set has", at + fmt(" got=%lu/%lu", (unsigned long)got.cnt["IERR"], (unsigned long)got.cnt["OERR"]));
}
static RegProp r20({"C20", gen_c20, exec_c20, 20000, 1000000, "distinct (conversion, text, chunk sequence)"});
