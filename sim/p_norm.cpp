// Normal forms: what Unicode says about a text, however it arrives.
#include "model.h"
#include "unidata.h"

typedef std::vector<uint32_t> Chars;
struct Uni {
	std::map<uint32_t, Chars> canon, compat, comp, fold;
	std::map<uint32_t, uint32_t> ccc;
	std::map<std::pair<uint32_t, uint32_t>, uint32_t> pair;
	std::vector<uint32_t> vcanon, vcompat, vcomp, vfold, vccc, start; // start: what begins a composition
	std::vector<std::pair<uint32_t, uint32_t>> vpair;
	static void read(const char *s, std::map<uint32_t, Chars> &m, std::vector<uint32_t> *keys) {
		while (*s) {
			char *e;
			uint32_t k = strtoul(s, &e, 16);
			Chars v;
			while (*e == '=' || *e == '.') v.push_back(strtoul(e + 1, &e, 16));
			m[k] = v;
			if (keys) keys->push_back(k);
			s = e + 1;
		}
	}
	Uni() {
		std::map<uint32_t, Chars> c;
		read(UD_CANON, canon, &vcanon); read(UD_COMPAT, compat, &vcompat); read(UD_COMP, comp, &vcomp); read(UD_FOLD, fold, &vfold); read(UD_CCC, c, &vccc);
		for (auto &x : c) ccc[x.first] = x.second[0];
		for (auto &x : comp) { pair[{x.second[0], x.second[1]}] = x.first; start.push_back(x.second[0]); vpair.push_back({x.second[0], x.second[1]}); }
	}
	uint32_t cc(uint32_t u) const { auto it = ccc.find(u); return it == ccc.end() ? 0 : it->second; }
	Chars decompose(const Chars &t, bool k) const {
		Chars r;
		for (auto u : t) {
			if (u >= 0xAC00 && u <= 0xD7A3) { uint32_t s = u - 0xAC00; r.push_back(0x1100 + s / 588); r.push_back(0x1161 + s % 588 / 28); if (s % 28) r.push_back(0x11A7 + s % 28); continue; }
			auto it = k ? compat.find(u) : canon.end();
			if (!k || it == compat.end()) it = canon.find(u);
			if (it == canon.end()) r.push_back(u); else r.insert(r.end(), it->second.begin(), it->second.end());
		}
		for (size_t i = 0; i < r.size();) { // canonical ordering
			size_t j = i;
			while (j < r.size() && cc(r[j])) j++;
			std::stable_sort(r.begin() + i, r.begin() + j, [&](uint32_t a, uint32_t b) { return cc(a) < cc(b); });
			i = j + 1;
		}
		return r;
	}
	Chars compose(const Chars &t) const {
		Chars r;
		ssize_t s = -1; // last starter
		uint32_t last = 0;
		for (auto u : t) {
			uint32_t c = cc(u), got = 0;
			if (s >= 0 && ((size_t)s + 1 == r.size() || (last && last < c))) {
				uint32_t a = r[s];
				if (a >= 0x1100 && a < 0x1113 && u >= 0x1161 && u < 0x1176) got = 0xAC00 + ((a - 0x1100) * 21 + (u - 0x1161)) * 28;
				else if (a >= 0xAC00 && a <= 0xD7A3 && (a - 0xAC00) % 28 == 0 && u > 0x11A7 && u < 0x11C3) got = a + (u - 0x11A7);
				else { auto it = pair.find({a, u}); if (it != pair.end()) got = it->second; }
			}
			if (got) { r[s] = got; continue; }
			if (!c) s = r.size();
			last = c;
			r.push_back(u);
		}
		return r;
	}
	Chars folded(const Chars &t) const {
		Chars r;
		for (auto u : t) { auto it = fold.find(u); if (it == fold.end()) r.push_back(u); else r.insert(r.end(), it->second.begin(), it->second.end()); }
		return r;
	}
};
static const Uni &uni() { static const Uni u; return u; }
static bool to_form(const std::string &form, Chars &t) {
	auto &u = uni();
	if (form == "NFD") t = u.decompose(t, false);
	else if (form == "NFKD") t = u.decompose(t, true);
	else if (form == "NFC") t = u.compose(u.decompose(t, false));
	else if (form == "NFKC") t = u.compose(u.decompose(t, true));
	else if (form == "CASEFOLD") t = u.folded(t);
	else if (form == "NFKD-CASEFOLD") t = u.decompose(u.folded(u.decompose(u.folded(u.decompose(t, false)), true)), true);
	else return false;
	return true;
}
static Plan gen_c21(Rng &g, int tier) {
	Plan p;
	auto &u = uni();
	static const std::vector<std::string> forms = {"NFC", "NFC", "NFC", "NFD", "NFD", "NFKC", "NFKC", "NFKD", "NFKD-CASEFOLD", "CASEFOLD"};
	std::string conv = "UTF-8:";
	for (int i = 0, n = 1 + (g.chance(20) ? 1 + g.below(2) : 0); i < n; i++) { if (i && g.chance(30)) { conv.back() = ':'; conv += "UTF-8|UTF-8:"; } conv += g.pick(forms) + ":"; }
	conv += "UTF-8";
	std::string in;
	auto add = [&](uint32_t c) { if (c && scalar(c)) put_utf8(in, c); };
	uint32_t few[4];
	for (auto &c : few) c = g.pick(u.vccc);
	static std::vector<std::vector<uint32_t>> by;
	if (by.empty()) { std::map<int, std::vector<uint32_t>> m; for (auto c : u.vccc) m[u.cc(c)].push_back(c); for (auto &x : m) by.push_back(x.second); }
	size_t cl = g.below(by.size());
	if (g.chance(30)) for (auto &c : few) c = g.pick(by[std::min(by.size() - 1, cl + g.below(3))]); // marks of classes next to each other
	if (g.chance(4)) for (size_t i = 0; i + 1 < by.size(); i++) { add('a'); add(g.pick(by[i + 1])); add(g.pick(by[i])); } // one pair of each two neighbouring classes, the wrong way round
	bool sweep = g.chance(3); // all marks of a class, each with one of the next class before it or one of the class below behind it
	if (sweep) for (size_t i = 0, n = by[cl].size(), at = g.below(n); i < n && i < 150; i++) {
		uint32_t c = by[cl][(at + i) % n];
		add('a');
		if (g.chance(50) && cl + 1 < by.size()) { add(g.pick(by[cl + 1])); add(c); } else if (cl) { add(c); add(g.pick(by[cl - 1])); }
	}
	auto mark = [&](uint32_t base) {
		if (g.chance(35)) for (int k = 0; k < 8; k++) { auto &x = g.pick(u.vpair); if (u.cc(x.second) && (k == 7 || x.first == base || g.chance(10))) { add(x.second); return; } }
		add(g.chance(60) ? few[g.below(4)] : g.chance(40) ? 0x300 + g.below(0x30) : g.pick(u.vccc));
	};
	for (int i = 0, n = sweep ? 0 : 1 + g.below(g.chance(15) ? 30 : 6); i < n; i++) {
		uint32_t b = 0;
		switch (g.below(12)) {
		case 0: b = g.pick(u.vcanon); break;
		case 1: b = g.pick(u.vcompat); break;
		case 2: b = g.pick(u.vcomp); break;
		case 3: b = g.pick(u.vfold); break;
		case 4: b = g.pick(u.start); break;
		case 5: { auto &x = g.pick(u.vpair); add(x.first); if (g.chance(30)) mark(x.first); b = x.second; break; }
		case 6: b = 0x1100 + g.below(21); if (g.chance(80)) { add(b); b = 0x1160 + g.below(24); if (g.chance(60)) { add(b); b = 0x11A6 + g.below(30); } } break; // Hangul letters and what lies around them
		case 7: b = 0xABFF + g.below(0x2BA8); if (g.chance(40)) b = 0xAC00 + 28 * g.below(399); if (g.chance(50)) { add(b); b = 0x11A6 + g.below(30); } break;
		case 8: b = 0x20 + g.below(0x5F); break;
		case 9: { auto &d = u.canon.at(g.pick(u.vcanon)); for (auto c : d) add(c); break; }
		case 10: b = g.below(0x110000); break;
		default: b = g.below(0x3000);
		}
		add(b);
		for (int k = g.chance(50) ? 0 : 1 + g.below(g.chance(10) ? 40 : 4); k > 0; k--) mark(b);
	}
	p.add("conv", {}, {conv});
	p.add("in", {}, {in});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static void exec_c21(const Plan &p) {
	std::string conv = str_of(p, "conv").c_str(), in = str_of(p, "in"), want;
	Chars t;
	for (size_t q = 0; q < in.size();) {
		uint32_t c = (unsigned char)in[q];
		size_t n = c && c < 0x80 ? 1 : utf8_at(in, q, false, c);
		if (!n) return;
		t.push_back(c); q += n;
	}
	for (auto &st : split(conv, '|')) {
		auto ph = split(st, ':');
		if (ph.size() < 2 || ph[0] != "UTF-8" || ph.back() != "UTF-8") return;
		for (size_t i = 1; i + 1 < ph.size(); i++) if (!to_form(ph[i], t)) return;
	}
	for (auto c : t) put_utf8(want, c);
	std::string at = conv + " in=" + esc(in);
	Outcome got = deliver(p, conv, in, at);
	state(sched_hash(conv, feed_of(p, in)) ^ hash_str(in));
	if (!in.empty()) nontrivial();
	if (got.out != want) violation("not the normal form of the text", at + " want=" + esc(want) + " got=" + esc(got.out));
	if (got.cnt["IERR"] || got.cnt["OERR"]) violation("errors counted for well-formed text", at + fmt(" got=%lu/%lu", (unsigned long)got.cnt["IERR"], (unsigned long)got.cnt["OERR"]));
}
// ---------------------------------------------------------------- C24: transforms of single characters and line ends
struct Maps {
	std::map<uint32_t, Chars> upper, lower, full, half, super, sub, ascii;
	std::vector<uint32_t> vupper, vlower, vfull, vhalf, vsuper, vsub, vascii;
	Maps() {
		Uni::read(UD_UPPER, upper, &vupper); Uni::read(UD_LOWER, lower, &vlower); Uni::read(UD_FULL, full, &vfull); Uni::read(UD_SUPER, super, &vsuper); Uni::read(UD_SUB, sub, &vsub); Uni::read(UD_ASCII, ascii, &vascii);
		for (auto &x : full) { half[x.second[0]] = {x.first}; vhalf.push_back(x.second[0]); }
	}
};
static const Maps &maps() { static const Maps m; return m; }
// One step of the chain on a text; false: the step is not one of these, or what it does to this text is not laid down.
static bool transform(const std::string &name, const Chars &in, Chars &out, bool &open) {
	auto &m = maps();
	auto nm = name;
	for (auto &c : nm) c = toupper(c);
	const std::map<uint32_t, Chars> *t = nm == "UPPER" ? &m.upper : nm == "LOWER" ? &m.lower : nm == "FULL" ? &m.full : nm == "HALF" ? &m.half : nullptr;
	open = false;
	if (t) {
		for (auto u : in) { auto it = t->find(u); if (it == t->end()) out.push_back(u); else out.insert(out.end(), it->second.begin(), it->second.end()); }
		return true;
	}
	Chars eol;
	if (nm == "UNIX") eol = {10}; else if (nm == "MAC") eol = {13}; else if (nm == "WIN") eol = {13, 10}; else if (nm == "NL2BR") eol = {'<', 'b', 'r', ' ', '/', '>'};
	if (!eol.empty()) {
		for (size_t i = 0; i < in.size(); i++) {
			if (in[i] == 13 && i + 1 < in.size() && in[i + 1] == 10) i++;
			else if (in[i] != 13 && in[i] != 10) { out.push_back(in[i]); continue; }
			out.insert(out.end(), eol.begin(), eol.end());
		}
		return true;
	}
	open = true;
	return nm == "SUPER" || nm == "SUB" || nm == "ASCIIFOLD";
}
static Plan gen_c24(Rng &g, int) {
	Plan p;
	auto &m = maps();
	static const std::vector<std::string> names = {"UPPER", "LOWER", "FULL", "HALF", "UNIX", "MAC", "WIN", "NL2BR", "SUPER", "SUB", "ASCIIFOLD"};
	std::string conv = "UTF-8:";
	int n = g.chance(65) ? 1 : 2 + g.below(3);
	std::string first;
	for (int i = 0; i < n; i++) {
		std::string s = g.pick(names);
		if (i + 1 < n) while (s == "SUPER" || s == "SUB" || s == "ASCIIFOLD") s = g.pick(names); // only the last step may leave something open
		if (i) { if (g.chance(30)) { conv.back() = ':'; conv += "UTF-8|UTF-8:"; } } else first = s;
		if (g.chance(10)) for (auto &c : s) c = tolower(c);
		conv += s + ":";
	}
	conv += "UTF-8";
	std::string in;
	auto add = [&](uint32_t c) { if (c && scalar(c)) put_utf8(in, c); };
	const std::vector<uint32_t> *all[] = {&m.vupper, &m.vlower, &m.vfull, &m.vhalf, &m.vsuper, &m.vsub, &m.vascii};
	bool eol = first == "UNIX" || first == "MAC" || first == "WIN" || first == "NL2BR";
	const std::vector<uint32_t> *fit = first == "UPPER" ? all[0] : first == "LOWER" ? all[1] : first == "FULL" ? all[2] : first == "HALF" ? all[3] : first == "SUPER" ? all[4] : first == "SUB" ? all[5] : all[6];
	for (int i = 0, k = g.below(g.chance(20) ? 40 : 12); i < k; i++) {
		if (g.chance(eol ? 60 : 15)) { switch (g.below(5)) { case 0: add(13); break; case 1: add(10); break; case 2: add(13); add(10); break; case 3: add(10); add(13); break; default: add(g.chance(50) ? 0x85 : 0x2028); } continue; }
		switch (g.below(6)) {
		case 0: case 1: case 2: add(g.pick(*fit)); break;
		case 3: add(g.pick(*all[g.below(7)])); break;
		case 4: add(0x20 + g.below(0x5F)); break;
		default: add(g.chance(50) ? g.below(0x3000) : g.below(0x20000));
		}
	}
	p.add("conv", {}, {conv});
	p.add("in", {}, {in});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static bool chars_of(const std::string &in, Chars &t) {
	for (size_t q = 0; q < in.size();) {
		uint32_t c = (unsigned char)in[q];
		size_t n = c && c < 0x80 ? 1 : utf8_at(in, q, false, c);
		if (!n) return false;
		t.push_back(c); q += n;
	}
	return true;
}
static void exec_c24(const Plan &p) {
	std::string conv = str_of(p, "conv").c_str(), in = str_of(p, "in"), last;
	Chars t, got;
	if (!chars_of(in, t)) return;
	auto segs = split(conv, '|');
	for (size_t s = 0; s < segs.size(); s++) {
		auto ph = split(segs[s], ':');
		if (ph.size() < 2 || ph[0] != "UTF-8" || ph.back() != "UTF-8") return;
		for (size_t i = 1; i + 1 < ph.size(); i++) {
			if (!last.empty()) return;
			bool open; Chars o;
			if (!transform(ph[i], t, o, open)) return;
			if (open) { last = ph[i]; for (auto &c : last) c = toupper(c); } else t = o;
		}
	}
	std::string at = conv + " in=" + esc(in);
	Outcome r = deliver(p, conv, in, at);
	state(sched_hash(conv, feed_of(p, in)) ^ hash_str(in));
	if (!in.empty()) nontrivial();
	if (r.cnt["IERR"] || r.cnt["OERR"]) violation("errors counted for well-formed text", at + fmt(" got=%lu/%lu", (unsigned long)r.cnt["IERR"], (unsigned long)r.cnt["OERR"]));
	if (last.empty()) {
		std::string want;
		for (auto c : t) put_utf8(want, c);
		if (r.out != want) violation("a character or line end was not transformed as laid down", at + " want=" + esc(want) + " got=" + esc(r.out));
		return;
	}
	auto &m = maps();
	if (!chars_of(r.out, got)) { if (r.out.find('\0') == std::string::npos) violation("a transform produced malformed text", at + " got=" + esc(r.out)); return; }
	size_t k = 0;
	for (auto u : t) {
		std::string bad;
		if (last == "ASCIIFOLD") {
			auto it = m.ascii.find(u);
			if (it != m.ascii.end()) { for (auto c : it->second) if (k >= got.size() || got[k++] != c) { bad = "a letter with marks did not become its plain letter"; break; } }
			else if (u < 0x80) { if (k >= got.size() || got[k++] != u) bad = "an ASCII character was changed by ASCII folding"; }
			else if (k < got.size() && got[k] == u) k++;
			else { size_t b = k; if (k < got.size() && got[k] < 0x80) return; if (k == b) bad = "a character was folded to something outside ASCII"; } // how it is spelt out is not laid down: what follows can not be placed
		} else {
			auto &mp = last == "SUPER" ? m.super : m.sub;
			auto it = mp.find(u);
			if (k >= got.size()) bad = "a character was lost";
			else if (got[k] == u) { if (u < 0x80 && it != mp.end()) bad = "an ASCII character that has a raised or lowered form was left as it is"; }
			else if (it == mp.end() || std::find(it->second.begin(), it->second.end(), got[k]) == it->second.end()) bad = "a character became something that is not its raised or lowered form";
			k++;
		}
		if (!bad.empty()) { violation(bad, at + fmt(" U+%04X", u) + " got=" + esc(r.out)); return; }
	}
	if (k < got.size()) violation("more came out than went in", at + " got=" + esc(r.out));
}
static RegProp r24({"C24", gen_c24, exec_c24, 20000, 1000000, "distinct (conversion, text, chunk sequence)"});
static RegProp r21({"C21", gen_c21, exec_c21, 20000, 1000000, "distinct (conversion, text, chunk sequence)"});
