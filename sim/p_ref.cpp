// What the shipped tables say, against a copy of what their standards say (ref.tar.xz): every run looks at some
// consecutive entries, so that together the runs of a quick check look at all of them.
#include "model.h"
#include <fstream>
#include <sstream>

struct Ref {
	struct Tab { int kind; std::string name, text; std::vector<std::pair<uint32_t, uint32_t>> row; size_t first; };
	std::vector<Tab> tab;
	std::map<std::string, size_t> at; // kind digit and name
	std::map<std::string, std::string> alias[3];
	std::vector<std::array<uint32_t, 3>> gb4; // linear index, character, how many
	size_t total = 0;
	static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
	Ref() {
		static const char *dir[] = {"from", "inter", "to"};
		std::string base = os::root + "/../ref/";
		std::vector<std::string> names = split(slurp(base + "names"), '\n');
		for (auto &n : names) {
			size_t s = n.find('/');
			if (s == std::string::npos) continue;
			Tab t;
			t.kind = n[0] == 'f' ? 0 : n[0] == 'i' ? 1 : 2;
			t.name = n.substr(s + 1);
			t.text = slurp(base + n);
			t.first = total;
			for (size_t i = 0; i < t.text.size();) { size_t e = t.text.find('\n', i); t.row.push_back({(uint32_t)i, (uint32_t)(e - i)}); i = e + 1; }
			total += t.row.size();
			at[fmt("%d", t.kind) + t.name] = tab.size();
			tab.push_back(std::move(t));
		}
		for (int k = 0; k < 3; k++) for (auto &l : split(slurp(base + dir[k] + ".alias"), '\n')) { size_t s = l.find('\t'); if (s != std::string::npos) alias[k][l.substr(0, s)] = l.substr(s + 1); }
		for (auto &l : split(slurp(base + "gb4"), '\n')) { unsigned a, b, c; if (sscanf(l.c_str(), "%u %X %u", &a, &b, &c) == 3) gb4.push_back({a, b, c}); }
	}
};
static const Ref &ref() { static const Ref r; return r; }
static std::string full_name(int kind, const std::string &phase) { // with the aliases of one phase resolved
	auto names = split(phase, ',');
	for (size_t k = 0; k < names.size() && names.size() < 50;) {
		auto it = ref().alias[kind].find(names[k]);
		if (it == ref().alias[kind].end()) { k++; continue; }
		if (it->second.find_first_of(":#") != std::string::npos) throw Undecided();
		auto v = split(it->second, ',');
		names.erase(names.begin() + k);
		names.insert(names.begin() + k, v.begin(), v.end());
	}
	std::string r;
	for (auto &n : names) r += (r.empty() ? "" : ",") + n;
	return r;
}
static std::vector<bool> pairs; // of bytes that follow each other in the input
static bool ref_codec(int kind, const std::string &name, Codec &c, const std::set<std::string> &need) {
	static const std::map<std::string, int> in = {{"_UTF-8", K_UTF8}, {"BSDCONV", K_INTERNAL}, {"CP950-UDA", K_UDA}, {"_JIS", K_JIS}}, to = {{"_UTF-8", K_UTF8}, {"RAW", K_RAW}, {"BSDCONV", K_HEXDUMP}};
	if (kind != 1) { auto &m = kind ? to : in; auto it = m.find(name); if (it != m.end()) c.code = it->second; }
	if (c.code == K_JIS) { for (auto n : {"_JIS0201", "_JIS0208", "_JIS0212"}) { Codec s; std::set<std::string> all; for (int i = 0; i < 256; i++) all.insert(fmt("%02X", i)); if (!ref_codec(0, n, s, all)) return false; c.sets.push_back(s.t); } return true; }
	if (c.code) return true;
	auto it = ref().at.find(fmt("%d", kind) + name);
	if (it == ref().at.end()) return false;
	if (name.substr(0, 5) == "IBM-9") c.code = kind ? K_EBCDIC : K_SHIFT;
	if (name == "_GB18030") c.code = K_GB18030;
	if (kind == 1 && name.substr(0, 8) == "ZH-BONUS") c.code = K_BONUS;
	c.gb4 = &ref().gb4;
	auto &t = ref().tab[it->second];
	std::string text;
	std::set<uint64_t> first;
	auto up = [](char x) { return (unsigned char)(x >= 'a' && x <= 'z' ? x - 32 : x); };
	auto hash = [&](const char *q, size_t n) { uint64_t h = n; for (size_t i = 0; i < n; i++) h = h * 1000003 + up(q[i]); return h; };
	for (auto &n : need) first.insert(hash(n.data(), n.size()));
	for (auto &r : t.row) {
		const char *l = t.text.data() + r.first;
		bool any = l[0] == '!';
		size_t k = 0, star = 0;
		while (l[k] != '\t' && (kind || k < 2) && l[k] != ',') { star |= l[k] == '*'; k++; }
		if (!star && !any && !first.count(hash(l, k))) continue;
		if (!kind && !star && !any && !pairs.empty() && l[k] != '\t' && l[k] != '*' && !pairs[hexv(l[0]) << 12 | hexv(l[1]) << 8 | hexv(l[2]) << 4 | hexv(l[3])]) continue;
		std::string row(l, r.second);
		size_t v = row.find('\t');
		if (c.code == K_GB18030 && row.find('*') < v) continue;
		if (row[v + 1] == '?') row.erase(v + 1, 1);
		text += row + "\n";
	}
	c.t = std::make_shared<Trie>(trie_of(text));
	return true;
}
static std::string u_of(const std::string &pk) { // the character a packet is, in UTF-8
	uint32_t u = 0;
	for (size_t i = 1; i < pk.size() && i < 5; i++) u = u << 8 | (unsigned char)pk[i];
	std::string r;
	if (u && scalar(u) && pk == ucs_packet(u)) put_utf8(r, u);
	return r;
}
static const size_t BLOCK = 56;
static Plan gen_c26(Rng &g, int tier) {
	Plan p;
	auto &R = ref();
	size_t from = run_no < (R.total + BLOCK - 1) / BLOCK ? run_no * BLOCK : g.below(R.total), k = 0;
	while (k + 1 < R.tab.size() && R.tab[k + 1].first <= from) k++;
	auto &t = R.tab[k];
	std::vector<std::string> keys;
	for (size_t i = from - t.first; i < t.row.size() && keys.size() < BLOCK; i++) { std::string l = t.text.substr(t.row[i].first, t.row[i].second); l = l.substr(0, l.find('\t')); if (l[0] == '!') l.erase(0, 1); if (l.find('*') == std::string::npos) keys.push_back(l); }
	if (g.chance(50)) for (size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[g.below(i)]);
	std::string conv, name = t.name, in;
	std::vector<std::string> named;
	for (auto &a : R.alias[t.kind]) { auto v = split(a.second, ','); if (std::find(v.begin(), v.end(), t.name) != v.end()) named.push_back(a.first); }
	bool ebc = t.name.substr(0, 5) == "IBM-9";
	if (!named.empty() && g.chance(40)) name = g.pick(named);
	else if (t.kind == 0 && t.name.substr(0, 4) == "_JIS" && g.chance(50)) name = "JIS";
	else if (!ebc && g.chance(15)) { auto &o = R.tab[g.below(R.tab.size())]; if (o.kind == t.kind && o.name.substr(0, 5) != "IBM-9") name += "," + o.name; }
	if (t.kind == 0) {
		conv = name + ":" + (g.chance(70) ? "BSDCONV" : "UTF-8");
		bool shifted = false;
		int set = 0;
		for (auto &h : keys) {
			std::string b = unhex_bytes(h);
			if (ebc) {
				if (b == "\x0E" || b == "\x0F") continue;
				if ((b.size() > 1) != shifted || g.chance(2)) { shifted = b.size() > 1; in += shifted ? '\x0E' : '\x0F'; }
				in += b;
				continue;
			}
			if (name == "JIS") {
				int s = t.name == "_JIS0201" ? 1 : t.name == "_JIS0208" ? 2 : 3;
				if (g.chance(3)) { in += "\x1B(B"; for (int i = 0, n = g.below(4); i < n; i++) in += (char)(0x20 + g.below(0x5F)); set = 0; }
				auto designate = [&](int o) { in += o == 1 ? (g.chance(50) ? "\x1B(I" : "\x1B(J") : o == 2 ? (g.chance(50) ? "\x1B$@" : "\x1B$B") : "\x1B$(D"; set = o; };
				if (g.chance(5)) { // something of another set in between, with nothing of ASCII around it
					int o = 1 + g.below(3);
					designate(o);
					for (auto &x : R.tab) if (x.kind == 0 && x.name == (o == 1 ? "_JIS0201" : o == 2 ? "_JIS0208" : "_JIS0212") && g.chance(80)) {
						auto &w = x.row[g.below(x.row.size())];
						std::string l = x.text.substr(w.first, w.second);
						l = l.substr(0, l.find('\t'));
						if (l[0] != '!' && l.find('*') == std::string::npos) in += unhex_bytes(l);
					}
				}
				bool half = set == s && b.size() > 1 && g.chance(4); // cut by an escape sequence
				if (half) in += g.chance(80) ? b[0] : (char)g.below(256);
				if (set != s || half || g.chance(3)) designate(s);
				size_t e = in.rfind('\x1B');
				if (s == 1 && in[e + 2] == 'I') { b[0] &= 0x7F; if (b[0] > 0x5F) b[0] = 0x31; } // katakana in seven bits
				if (g.chance(4)) { // an escape sequence that is none, by itself or within a character
					if (g.chance(50)) in += b[0];
					in += g.pick(std::vector<std::string>{"\x1B", "\x1B$", "\x1B(", "\x1B$("});
					if (g.chance(80)) in += (char)(0x21 + g.below(94));
				}
				in += b;
				continue;
			}
			if (g.chance(4)) in += b.substr(0, g.below(b.size())) + (char)g.below(256);
			in += b;
			if (name == "GB18030" && g.chance(30)) {
				auto &r = g.pick(R.gb4);
				uint32_t i = r[0] + (g.chance(30) ? 0 : g.chance(50) ? r[2] - 1 : g.below(r[2])) + (g.chance(20) ? 1 : 0);
				in += (char)(0x81 + i / 12600); in += (char)(0x30 + i / 1260 % 10); in += (char)(0x81 + i / 10 % 126); in += (char)(0x30 + i % 10);
			}
			if (name == "CP950" && g.chance(30)) {
				static const int lead[][2] = {{0xFA, 0xFE}, {0x8E, 0xA0}, {0x81, 0x8D}, {0xC6, 0xC8}};
				auto &l = lead[g.below(4)];
				in += (char)(g.chance(30) ? l[g.below(2)] : l[0] + g.below(l[1] - l[0] + 1));
				in += (char)(g.chance(30) ? g.pick(std::vector<int>{0x40, 0x7E, 0xA1, 0xFE, 0x7F, 0xA0, 0x3F, 0xFF, 0x80}) : g.below(256));
			}
		}
	} else {
		std::vector<std::string> pks;
		bool wide = true;
		for (auto &h : keys) {
			auto v = packets_of(h);
			if (v.size() > 1 && g.chance(4)) pks.insert(pks.end(), v.begin(), v.begin() + g.below(v.size())); // begun, not finished
			if (g.chance(3)) pks.push_back(ucs_packet(1 + g.below(g.chance(50) ? 0x10FFFF : 0x9FFF)));
			if (t.name == "_GB18030" && g.chance(30)) { auto &r = g.pick(R.gb4); pks.push_back(ucs_packet(r[1] + (g.chance(30) ? 0 : g.chance(50) ? r[2] - 1 : g.below(r[2])))); }
			pks.insert(pks.end(), v.begin(), v.end());
		}
		for (auto &x : pks) wide = wide && !u_of(x).empty();
		wide = wide && g.chance(60);
		for (auto &x : pks) in += wide ? u_of(x) : hexs(x, &g) + ",";
		conv = std::string(wide ? "UTF-8" : "BSDCONV") + ":" + name;
		if (t.kind == 1) conv += ":BSDCONV";
	}
	p.add("conv", {}, {conv});
	p.add("in", {}, {in});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static void exec_c26(const Plan &p) {
	std::string conv = str_of(p, "conv").c_str(), in = str_of(p, "in"), want, full;
	uint64_t ierr = 0, oerr = 0;
	auto ph = split(conv, ':');
	int ok = -1;
	try {
		for (size_t i = 0; i < ph.size(); i++) full += (i ? ":" : "") + full_name(i == 0 ? 0 : i + 1 == ph.size() ? 2 : 1, ph[i]);
		pairs.assign(full.compare(0, 4, "_JIS") ? 65536 : 0, false);
		if (!pairs.empty()) for (size_t i = 1; i < in.size(); i++) pairs[(unsigned char)in[i - 1] << 8 | (unsigned char)in[i]] = true;
		ok = model_conv(full, in, ref_codec, want, ierr, oerr);
	} catch (Undecided &) {}
	if (ok < 0) stat("c26.undecided");
	if (ok <= 0) return;
	stat("c26.decided");
	std::string at = conv + " in=" + esc(in);
	Outcome got = deliver(p, conv, in, at);
	state(sched_hash(conv, feed_of(p, in)) ^ hash_str(in));
	if (!in.empty()) nontrivial();
	if (got.out != want) violation("a table does not say what its standard says", at + " want=" + esc(want) + " got=" + esc(got.out));
	if ((got.cnt["IERR"] != ierr && conv.compare(0, 8, "BSDCONV:")) || got.cnt["OERR"] != oerr) violation("errors counted are not what the standard has no place for", at + fmt(" want=%lu/%lu got=%lu/%lu", (unsigned long)ierr, (unsigned long)oerr, (unsigned long)got.cnt["IERR"], (unsigned long)got.cnt["OERR"]));
}
static RegProp r26({"C26", gen_c26, exec_c26, 20000, 1000000, "distinct (conversion, text, chunk sequence)"});
