// What a codec is told by its arguments: the forms UTF-8 may take, how characters and bytes are spelt out, where the
// internal form is shown.  The model is written from the manual pages.
#include "model.h"

struct Allow { bool later = false, cesu = false, loose = false, nul = false, overlong = false, super = false; };
// One sequence of UTF-8 as it was first defined, beyond ASCII, as far as it is allowed.
static size_t sequence(const Allow &a, const std::string &in, size_t p, uint32_t &u) {
	if (p >= in.size()) return 0;
	unsigned char b = in[p];
	int n = b < 0xC0 ? 0 : b < 0xE0 ? 1 : b < 0xF0 ? 2 : b < 0xF8 ? 3 : b < 0xFC ? 4 : b < 0xFE ? 5 : 0;
	if (!n || p + n >= in.size()) return 0;
	u = b & (0x3F >> n);
	for (int i = 1; i <= n; i++) { unsigned char d = in[p + i]; if ((d & 0xC0) != 0x80) return 0; u = u << 6 | (d & 63); }
	static const uint32_t least[] = {0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000};
	if (u < least[n] && !a.overlong) return 0;
	if (u > 0x10FFFF && !a.super) return 0;
	if (n > 3 && !a.super) throw Undecided(); // overlong, but longer than any character needs
	return n + 1;
}
static size_t match_utf8(const Allow &a, const std::string &in, size_t p, Packets &out) {
	auto lead = [](uint32_t u) { return u >= 0xD800 && u < 0xDC00; };
	auto trail = [](uint32_t u) { return u >= 0xDC00 && u < 0xE000; };
	uint32_t u, v = 0;
	size_t n = sequence(a, in, p, u), k;
	out.clear();
	if (!n || (!u && !a.nul)) return 0;
	if (a.cesu && lead(u)) {
		if ((k = sequence(a, in, p + n, v)) && trail(v)) { out = {ucs_packet(0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00))}; return n + k; }
		if (!a.loose) return 0;
		if (a.later && k) throw Undecided(); // may go on by itself, or leave what follows to the codecs before it
	} else if ((lead(u) || trail(u)) && !a.loose) return 0;
	out = {ucs_packet(u)};
	return n;
}
struct Spell { int code = 0, base = 16, type = 1; std::string pre = "%u", post; Allow allow; FILE *to = nullptr; Codec c; };
enum { S_ESCAPE, S_INFO, S_IMG, S_SHOW, S_SHOWERR, S_UTF8, S_CODEC };
static std::string upper(std::string s) { for (auto &c : s) c = toupper((unsigned char)c); return s; }
static Spell spell_of(int kind, const std::string &codec, const std::set<std::string> &need) {
	Spell s;
	size_t h = codec.find('#');
	std::string name = upper(codec.substr(0, h));
	auto args = h == std::string::npos ? std::vector<std::string>() : split(codec.substr(h + 1), '&');
	s.code = kind ? name == "ESCAPE" ? S_ESCAPE : name == "ASCII-HTML-INFO" ? S_INFO : name == "ASCII-HTML-UNICODE-IMG" ? S_IMG : name == "BSDCONV-OUTPUT" ? S_SHOW : S_CODEC : name == "_UTF-8" ? S_UTF8 : S_CODEC;
	if (s.code == S_CODEC && !shipped_codec(kind, name, s.c, need)) throw Undecided();
	for (auto &a : args) {
		std::string k = upper(a.substr(0, a.find('='))), v = a.find('=') == std::string::npos ? "" : upper(a.substr(a.find('=') + 1));
		if (k == "CESU") s.allow.cesu = true;
		else if (k == "LOOSE") s.allow.loose = true;
		else if (k == "NUL") s.allow.nul = true;
		else if (k == "OVERLONG") s.allow.overlong = true;
		else if (k == "SUPER") s.allow.super = true;
		else if (k == "PREFIX") s.pre = unhex_bytes(v);
		else if (k == "SUFFIX") s.post = unhex_bytes(v);
		else if (k == "MODE") s.base = v == "HEX" || v == "16" ? 16 : v == "DEC" || v == "10" ? 10 : 8;
		else if (k == "FOR") s.type = v == "UNICODE" || v == "1" || v == "01" ? 1 : 3;
		else if (k == "STDERR") s.code = S_SHOWERR;
		else if (k == "STDOUT") s.code = S_SHOW;
		else throw Undecided();
	}
	return s;
}
static std::vector<std::string> plain(int kind, const std::string &phase) { // without the aliases
	auto names = split(phase, ',');
	for (size_t k = 0; k < names.size() && names.size() < 50;) {
		auto &al = kind ? T.ato : T.afrom;
		size_t h = names[k].find('#');
		auto it = al.find(upper(names[k].substr(0, h)));
		if (it == al.end()) { k++; continue; }
		auto v = split(it->second, ',');
		if (h != std::string::npos) for (auto &x : v) x += (x.find('#') == std::string::npos ? "#" : "&") + names[k].substr(h + 1);
		names.erase(names.begin() + k);
		names.insert(names.begin() + k, v.begin(), v.end());
	}
	return names;
}
static bool spelt(Spell &s, const Packets &in, size_t p, Packets &out, bool mark, std::string &shown, std::string &showerr, size_t &n) {
	const std::string &k = in[p];
	n = 1;
	std::string body = k.empty() ? "" : k.substr(1);
	auto first = [](const std::string &b) { return fmt("%X", (unsigned)(unsigned char)b[0]) + hexs(b.substr(1)); };
	switch (s.code) {
	case S_ESCAPE: {
		if (k.empty() || k[0] != s.type) return false;
		if (body.empty() || (s.type == 1 && s.base == 8) || (s.type == 3 && body.size() > 1) || (s.base == 10 && body.size() > 4)) throw Undecided();
		uint32_t u = 0;
		for (unsigned char c : body) u = u << 8 | c;
		out = {s.pre + (s.base == 16 ? hexs(body) : fmt(s.base == 10 ? "%u" : "%03o", u)) + s.post};
		return true;
	}
	case S_IMG:
		if (k.empty() || k[0] != 1) return false;
		if (body.empty()) throw Undecided();
		out = {"<img class=\"unicode_img\" src=\"http://www.unicode.org/cgi-bin/refglyph?24-" + first(body) + "\" />"};
		return true;
	case S_INFO:
		if (k.empty() || (k[0] != 1 && k[0] != 2)) return false;
		if (body.empty() || (k[0] == 2 && (body[0] < 1 || body.size() != 3))) throw Undecided();
		if (k[0] == 1) out = {"<a href=\"http://www.fileformat.info/info/unicode/char/" + hexs(body) + "/index.htm\"><img class=\"unicode_img\" src=\"http://www.unicode.org/cgi-bin/refglyph?24-" + first(body) + "\" /></a>"};
		else {
			std::string q = "page=" + fmt("%X", (unsigned)body[0]) + "&code=" + hexs(body.substr(1));
			out = {"<a href=\"http://www.cns11643.gov.tw/AIDB/query_general_view.do?" + q + "\"><img src=\"http://www.cns11643.gov.tw/AIDB/png.do?" + q + "\" /></a>"};
		}
		return true;
	case S_SHOW: case S_SHOWERR:
		(s.code == S_SHOW ? shown : showerr) += hexs(k) + (mark ? " MARK" : "") + "\n";
		out.clear();
		return true;
	}
	n = match_packets(s.c, in, p, out);
	return n > 0;
}
static Plan gen_c29(Rng &g, int) {
	Plan p;
	std::string conv, in;
	auto anycase = [&](std::string s) { if (g.chance(25)) for (auto &c : s) if (g.chance(50)) c = tolower((unsigned char)c); return s; };
	if (g.chance(50)) { // reading UTF-8 as allowed
		std::vector<std::string> opt, names;
		for (auto o : {"CESU", "LOOSE", "NUL", "OVERLONG", "SUPER"}) if (g.chance(45)) opt.insert(opt.begin() + g.below(opt.size() + 1), o);
		std::string args;
		for (auto &o : opt) args += (args.empty() ? "#" : "&") + anycase(o);
		names.push_back((g.chance(25) ? "UTF-8" : "_UTF-8") + args);
		if (g.chance(60)) names.insert(names.begin() + g.below(2), "ASCII");
		if (g.chance(30)) names.push_back(g.chance(50) ? "BYTE" : "_CP950");
		if (g.chance(15)) { std::string o; for (auto x : {"LOOSE", "CESU", "OVERLONG", "NUL"}) if (g.chance(50)) o += (o.empty() ? "#" : "&") + std::string(x); names.push_back("_UTF-8" + o); }
		for (auto &n : names) conv += (conv.empty() ? "" : ",") + n;
		conv += ":BSDCONV";
		auto enc = [&](uint32_t u, int n) { // in n + 1 bytes
			if (!n) { in += (char)u; return; }
			in += (char)(((0xFF00 >> (n + 1)) & 0xFF) | (u >> 6 * n));
			for (int i = n - 1; i >= 0; i--) in += (char)(0x80 | (u >> 6 * i & 63));
		};
		auto fits = [](uint32_t u) { return u < 0x80 ? 0 : u < 0x800 ? 1 : u < 0x10000 ? 2 : u < 0x200000 ? 3 : u < 0x4000000 ? 4 : 5; };
		static const std::vector<uint32_t> edge = {0, 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, 0x10FFFF, 0x110000, 0xD7FF, 0xE000, 0x3F, 0x40, 0xFFFFFF, 0x1000000};
		for (int i = 0, m = 1 + g.below(g.chance(20) ? 30 : 9); i < m; i++) {
			size_t from = in.size();
			uint32_t u;
			switch (g.below(10)) {
			case 0: case 1: case 2: u = 0xD800 + (g.chance(20) ? 0x3FF : g.below(0x400)); enc(u, 2); if (g.chance(75)) enc(0xDC00 + (g.chance(20) ? 0x3FF : g.below(0x400)), 2); break;
			case 3: enc(0xDC00 + g.below(0x400), 2); break;
			case 4: u = g.pick(edge); { int f = fits(u); enc(u, g.chance(60) ? f : f + g.below(6 - f)); } break;
			case 5: u = g.below(0x80000000u) >> g.below(31); { int f = fits(u); enc(u, g.chance(40) ? f : f + g.below(6 - f)); } break;
			case 6: u = g.below(0x11000) + (g.chance(50) ? 0x10F000 : 0x80); enc(u, fits(u)); break;
			case 7: in += (char)(g.chance(60) ? 0x20 + g.below(0x5F) : g.below(256)); break;
			default: u = 0x80 + g.below(0xFF80); enc(u, fits(u));
			}
			if (g.chance(10) && in.size() > from) in.resize(from + g.below(in.size() - from));
			if (g.chance(6) && in.size() > from) in[from + g.below(in.size() - from)] ^= 1 << g.below(8);
		}
	} else { // writing
		std::vector<std::string> v;
		static const std::vector<std::string> names = {"URL", "SOURCE", "JAVA", "HTMLENTITY", "HTML-IMG", "ASCII-DEC-NUMERIC-HTML-ENTITY", "ASCII-HEX-NUMERIC-HTML-ENTITY", "ASCII-HTML-INFO", "ASCII-HTML-UNICODE-IMG", "ASCII-HTML-INFO", "ASCII", "_UTF-8", "_CP950", "BYTE", "BSDCONV-OUTPUT", "BSDCONV-STDOUT", "BSDCONV-OUTPUT#STDERR", "BSDCONV-OUTPUT#STDOUT", "BSDCONV-OUTPUT#STDERR&STDOUT", "UTF-16BE"};
		auto text = [&] { std::string r; for (int n = g.below(g.chance(10) ? 40 : 4); n > 0; n--) r += fmt(g.chance(50) ? "%02X" : "%02x", (unsigned)g.below(256)); return r.empty() ? std::string("3B") : r; };
		for (int n = 1 + g.below(3); n > 0; n--) {
			if (g.chance(45)) { v.push_back(anycase(g.pick(names))); continue; }
			std::vector<std::string> a;
			if (g.chance(60)) a.push_back(anycase("PREFIX") + "=" + text());
			if (g.chance(50)) a.push_back(anycase("SUFFIX") + "=" + text());
			bool byte = g.chance(45);
			if (byte || g.chance(60)) a.push_back(anycase("FOR") + "=" + (byte ? g.pick(std::vector<std::string>{"BYTE", "3", "03", "Byte"}) : g.pick(std::vector<std::string>{"UNICODE", "1", "01", "unicode"})));
			if (g.chance(70)) a.push_back(anycase("MODE") + "=" + g.pick(byte && g.chance(40) ? std::vector<std::string>{"OCT", "8", "oct"} : std::vector<std::string>{"HEX", "16", "DEC", "10", "Hex", "dec"}));
			std::string s = "ESCAPE";
			for (size_t i = 0; !a.empty(); i++) { size_t k = g.below(a.size()); s += (i ? "&" : "#") + a[k]; a.erase(a.begin() + k); }
			v.push_back(s);
		}
		bool wide = g.chance(30), mark = g.chance(20);
		conv = wide ? "UTF-8" : "BSDCONV";
		if (mark) conv += ":PASS#MARK|PASS";
		for (size_t i = 0; i < v.size(); i++) conv += (i ? "," : ":") + v[i];
		for (int i = 0, m = g.below(g.chance(15) ? 40 : 10); i < m; i++) {
			uint32_t c = g.chance(25) ? 0x20 + g.below(0x5F) : g.chance(30) ? 0x80 + g.below(0xF80) : g.chance(60) ? 0x4E00 + g.below(0x5200) : 0x10000 + g.below(0x100000);
			if (wide) { put_utf8(in, c); continue; }
			std::string k;
			switch (g.below(7)) {
			case 0: case 1: case 2: k = ucs_packet(c); break;
			case 3: k = std::string("\x03") + (char)g.below(256); break;
			case 4: k = "\x02"; k += (char)(1 + g.below(15)); k += (char)(0x21 + g.below(94)); k += (char)(0x21 + g.below(94)); break;
			case 5: k = "\x01"; for (int n = 1 + g.below(4); n > 0; n--) k += (char)g.below(256); break;
			default: k = (char)(g.chance(50) ? 0x1B : 4 + g.below(3)); for (int n = 1 + g.below(5); n > 0; n--) k += (char)g.below(256);
			}
			in += hexs(k, &g) + ",";
		}
	}
	p.add("conv", {}, {conv});
	if (g.chance(30)) p.add("before", {(int64_t)g.below(3)}, {g.pick(std::vector<std::string>{"ASCII:BSDCONV-OUTPUT#STDERR", "ASCII:BSDCONV-OUTPUT", "_UTF-8#CESU&LOOSE&NUL&OVERLONG&SUPER,ASCII:ESCAPE#FOR=BYTE&MODE=OCT&PREFIX=5C&SUFFIX=3B", "_UTF-8,ASCII:ESCAPE", "UTF-8:URL", "_UTF-8#SUPER&LOOSE:ESCAPE#MODE=10&SUFFIX=7E7E7E7E"})});
	p.add("in", {}, {in});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static void exec_c29(const Plan &p) {
	std::string conv = str_of(p, "conv").c_str(), in = str_of(p, "in"), want, shown, showerr, at = conv + " in=" + esc(in);
	uint64_t ierr = 0, oerr = 0;
	bool counted = true;
	try {
		auto ph = split(conv, ':');
		bool mark = ph.size() == 3 && ph[1] == "PASS#MARK|PASS";
		if (ph.size() != (mark ? 3u : 2u)) return;
		Packets d, out;
		std::set<std::string> need;
		std::vector<Spell> cs;
		for (char c : in) need.insert(hexs(std::string(1, c)));
		if (ph[0] == "BSDCONV") { for (auto &k : split(in, ',')) if (!k.empty()) d.push_back(unhex_bytes(k)); }
		else for (auto &n : plain(0, ph[0])) cs.push_back(spell_of(0, n, need));
		counted = ph[0] != "BSDCONV";
		for (size_t k = 0, n = 0; k < cs.size(); k++) if (cs[k].code == S_UTF8) cs[k].allow.later = n++; else if (upper(plain(0, ph[0])[k]) != "ASCII") n++;
		for (size_t q = 0; counted && q < in.size();) {
			size_t n = 0;
			for (auto &c : cs) if ((n = c.code == S_UTF8 ? match_utf8(c.allow, in, q, out) : match_bytes(c.c, in, q, out))) break;
			if (n) d.insert(d.end(), out.begin(), out.end()); else ierr++;
			q += n ? n : 1;
		}
		cs.clear();
		need.clear();
		for (auto &k : d) need.insert(hexs(k));
		for (auto &n : plain(2, ph.back())) cs.push_back(spell_of(2, n, need));
		for (size_t q = 0; q < d.size();) {
			size_t n = 0;
			bool hit = false;
			for (auto &c : cs) if ((hit = spelt(c, d, q, out, mark, shown, showerr, n))) break;
			if (hit) for (auto &o : out) want += o; else { oerr++; n = 1; }
			q += n;
		}
	} catch (Undecided &) { stat("c29.left open"); return; }
	FILE *so = stdout, *se = stderr;
	stdout = os::sink_file("stdout");
	stderr = os::sink_file("stderr");
	struct bsdconv_instance *o = nullptr; // another conversion with arguments of its own
	if (const Op *a = p.find("before")) {
		if (!(o = create(a->S(0)))) violation("the conversion cannot be created", a->S(0));
		if (a->N(0)) { Sut s; bsdconv_init(o); }
		if (a->N(0) == 2) { destroy(o); o = nullptr; }
	}
	Outcome got = deliver(p, conv, in, at);
	if (o) destroy(o);
	fflush(stdout); fflush(stderr);
	fclose(stdout); fclose(stderr);
	stdout = so; stderr = se;
	auto lines = [](const char *f) {
		std::string r;
		for (auto &l : split(os::sink(f), '\n')) if (!l.empty()) { size_t b = l.find(" ("); r += l.substr(0, b) + (b != std::string::npos && l.find(" MARK", b) != std::string::npos ? " MARK" : "") + "\n"; }
		return r;
	};
	std::string go = lines("stdout"), ge = lines("stderr");
	state(sched_hash(conv, feed_of(p, in)) ^ hash_str(in));
	if (!in.empty()) nontrivial();
	stat("c29.decided");
	if (got.out != want) violation("an option does not do what it is documented to do", at + " want=" + esc(want) + " got=" + esc(got.out));
	if (go != shown || ge != showerr) violation("what is shown is not what arrived", at + " want=" + esc(shown) + "/" + esc(showerr) + " got=" + esc(go) + "/" + esc(ge));
	if ((counted && got.cnt["IERR"] != ierr) || got.cnt["OERR"] != oerr) violation("what an option does not allow is not counted right", at + fmt(" want=%lu/%lu got=%lu/%lu", (unsigned long)ierr, (unsigned long)oerr, (unsigned long)got.cnt["IERR"], (unsigned long)got.cnt["OERR"]));
}
static RegProp r29({"C29", gen_c29, exec_c29, 20000, 1000000, "distinct (conversion, input, chunk sequence)"});
