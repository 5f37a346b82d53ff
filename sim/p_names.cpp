// Module names: listing, look-up, aliases and completion, on simulated module directories and on the real one.
#include "p_common.h"
#include <dlfcn.h>
#include <errno.h>
#include <dirent.h>

int run_mktable(const std::vector<std::string> &args);
int run_cli(const std::vector<std::string> &args, const std::string &in);

static const int NT = 5;
static const int types[NT] = {FROM, INTER, TO, FILTER, SCORER};
static const char *tdir[NT] = {"from", "inter", "to", "filter", "scorer"};
static std::string upper_of(const std::string &s) { std::string r; for (char c : s) r += c >= 'a' && c <= 'z' ? c - 32 : c; return r; }
static std::string case_of(const std::string &s, uint64_t seed) { std::string r; for (size_t i = 0; i < s.size(); i++) r += s[i] >= 'A' && s[i] <= 'Z' && (mix(seed, i) & 1) ? s[i] + 32 : s[i]; return r; }
typedef std::vector<std::pair<std::string, std::string>> Alias;
static Alias alias_of(const std::string &text) {
	Alias a;
	for (auto &l : split(text, '\n')) {
		if (l.empty() || l[0] == '#') continue;
		size_t t = l.find('\t');
		if (t == std::string::npos) continue;
		size_t v = l.find_first_not_of('\t', t);
		a.push_back({l.substr(0, t), v == std::string::npos ? "" : l.substr(v)});
	}
	return a;
}
// What is installed, as the world (simulated or real) has it.
struct World {
	std::vector<std::string> mods[NT];
	Alias al[NT];
	bool dir[NT];
};
static std::string base;
static World world_now(bool real) {
	World w;
	for (int t = 0; t < NT; t++) {
		std::vector<std::string> names;
		std::string d = base + "/share/bsdconv/" + tdir[t], text;
		w.dir[t] = true;
		if (real) {
			if (DIR *dp = opendir(d.c_str())) { while (struct dirent *e = readdir(dp)) names.push_back(e->d_name); closedir(dp); }
			if (FILE *f = fopen((d + "/alias").c_str(), "rb")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) text.append(b, n); fclose(f); }
		} else {
			for (auto &f : os::list()) if (f.compare(0, d.size() + 1, d + "/") == 0) names.push_back(f.substr(d.size() + 1));
			if (Inode *i = os::inode(d + "/alias")) text = i->data;
		}
		for (auto &n : names) {
			if (n == "alias") continue;
			size_t dot = n.find('.');
			if (t < 3) { if (dot == std::string::npos) w.mods[t].push_back(n); }
			else if (n.size() > 3 && n.substr(n.size() - 3) == ".so") w.mods[t].push_back(n.substr(0, n.size() - 3));
		}
		w.al[t] = alias_of(text);
	}
	return w;
}
static std::vector<std::string> names_of(const World &w, int t, bool mods = true, bool al = true) {
	std::vector<std::string> r;
	if (mods) r = w.mods[t];
	if (al) for (auto &a : w.al[t]) r.push_back(a.first);
	std::sort(r.begin(), r.end());
	return r;
}
static std::string join(const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += (r.empty() ? "" : " ") + esc(x, 40); return r; }
static std::vector<std::string> uniq(std::vector<std::string> v) { v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static bool has(const std::vector<std::string> &v, const std::string &s) { return std::find(v.begin(), v.end(), s) != v.end(); }
// Text of a conversion with every alias replaced by what it stands for.
static bool expand(const World &w, std::string conv, std::string &out) {
	for (int round = 0; round < 60; round++) {
		std::string res;
		bool changed = false;
		auto st = split(conv, '|');
		for (size_t s = 0; s < st.size(); s++) {
			auto ph = split(st[s], ':');
			for (size_t i = 0; i < ph.size(); i++) {
				int t = i == 0 ? 0 : i + 1 == ph.size() ? 2 : 1;
				auto cs = split(ph[i], ',');
				for (size_t c = 0; c < cs.size(); c++) {
					size_t h = cs[c].find('#');
					std::string nm = upper_of(cs[c].substr(0, h)), rest = h == std::string::npos ? "" : cs[c].substr(h), to = nm;
					if (!changed && !has(w.mods[t], nm)) {
						bool ok = false;
						for (auto &a : w.al[t]) if (a.first == nm) { to = a.second; ok = true; break; }
						if (!ok) return false;
						changed = true;
						// arguments given to an alias go to every codec it stands for
						std::string got;
						for (auto &part : split(to, ',')) got += (got.empty() ? "" : ",") + part + (rest.size() < 2 ? "" : (part.find('#') == std::string::npos ? "#" : "&") + rest.substr(1));
						to = got; rest = "";
					}
					res += (s && !i && !c ? "|" : i && !c ? ":" : c ? "," : "") + to + rest;
				}
			}
		}
		conv = res;
		if (!changed) { out = conv; return true; }
	}
	return false;
}
static std::string odd_name(Rng &g) {
	static const std::vector<std::string> v = {"UTF-8", "UTF", "UTF8", "U", "A", "AB", "ABC", "B", "BA", "_AB", "AB-1", "1", "01", "Z", "ZH-TW", "LONG-NAME-OF-A-MODULE", "AB_", "UTF-8X", "UTF-16", "NFC"};
	if (g.chance(80)) return g.pick(v);
	std::string s; for (int i = 0, n = 1 + g.below(g.chance(10) ? 60 : 6); i < n; i++) s += "ABCUTF-_0189"[g.below(12)];
	return s;
}
static std::string near_name(Rng &g, std::string s) {
	if (g.chance(70)) return s;
	static const std::vector<std::string> x = {"Q", "-", "0", "Q1", "LOCALE"};
	switch (g.below(4)) {
	case 0: return s + g.pick(x);
	case 1: return g.pick(x) + s;
	case 2: return s.substr(0, g.below(s.size() + 1));
	}
	s.insert(g.below(s.size() + 1), g.pick(x));
	return s;
}
static Plan gen_c17(Rng &g, int tier) {
	Plan p;
	bool real = g.chance(30);
	p.add("world", {real});
	int n;
	if (real) {
		static const std::vector<std::string> loc = {"C.UTF-8", "zh_TW.BIG5", "C", "POSIX", "ja_JP.SHIFT_JIS", "de_DE.ISO-8859-1", "en_US", "", "zh_TW.big5", "ru_RU.KOI8-R"};
		p.add("locale", {(int64_t)g.below(3)}, {g.pick(loc)});
		for (int i = 0, m = 1 + g.below(3); i < m; i++) {
			int k = g.below(10);
			if (k < 2) p.add("list", {(int64_t)g.below(NT), (int64_t)g.below(1000), 0, 0});
			else if (k == 2) p.add("complete", {(int64_t)g.below(1000)}, {g.chance(50) ? "utf-8:" : g.chance(50) ? "_" : "utf-8:nfc,"});
			else if (k == 3) p.add("tool", {(int64_t)g.below(1000)});
			else if (k == 4) p.add("look", {(int64_t)g.below(NT), (int64_t)g.below(1000), 0}, {g.chance(50) ? "ASCII" : odd_name(g)});
			else {
				auto any = [&](const std::map<std::string, std::string> &m) { auto it = m.begin(); std::advance(it, g.below(m.size())); return it->first; };
				std::string f = g.chance(65) ? any(T.afrom) : gen_from(g, true), t = g.chance(65) ? any(T.ato) : gen_to(g, true), c;
				if (g.chance(12)) f = "LOCALE";
				if (g.chance(8)) t = "LOCALE";
				if (g.chance(10)) t += g.chance(50) ? ",3F" : ",SUB";
				if (g.chance(12)) t += "#ERROR";
				if (g.chance(25)) f += "," + (g.chance(50) ? any(T.afrom) : std::string("BYTE"));
				if (g.chance(25)) t += ",ANY#3F";
				c = f;
				for (int j = 0, q = g.below(3); j < q; j++) c += ":" + (g.chance(70) ? any(T.ainter) : gen_inter(g));
				c += ":" + t;
				std::string in = gen_input(g, c, 1 + g.below(12));
				p.add("conv", {(int64_t)g.below(1000)}, {c, in});
				p.add("chunks", gen_chunks(g, in.size()));
			}
		}
		return p;
	}
	// a made-up installation: the modules the library itself needs, a few tables, stray files, aliases
	bool args = g.chance(50);
	auto with_args = [&](int t, const std::string &nm) -> std::string {
		if (!args || t > 2 || !g.chance(30)) return nm;
		static const std::vector<std::string> a[3] = {{"A", "B=1", "A&C=2"}, {"C1", "c2", "C3&d4", "E5=01"}, {"ERROR", "A", "error&B=1"}};
		return nm + "#" + g.pick(a[t]);
	};
	std::vector<std::string> known[NT];
	for (int t = 0; t < NT; t++) {
		if (g.chance(t < 3 ? 3 : 15)) { p.add("nodir", {t}); continue; }
		for (int i = 0, m = g.below(g.chance(15) ? 40 : 6); i < m; i++) {
			std::string nm = odd_name(g);
			if (t >= 3) nm += ".so";
			else if (g.chance(25)) nm += g.chance(50) ? ".so" : ".man";
			if (t >= 3 && g.chance(20)) nm = odd_name(g) + (g.chance(50) ? "" : ".man");
			p.add("file", {t}, {nm});
		}
		if (g.chance(70)) {
			std::string text;
			std::vector<std::string> pool;
			for (int i = 0, m = 1 + g.below(g.chance(15) ? 30 : 6); i < m; i++) {
				std::string nm = odd_name(g), to;
				if (has(pool, nm)) continue;
				if (g.chance(8)) text += g.chance(50) ? "#comment\n" : "#\tX\n";
				// targets: built-in tables of the run, or aliases of earlier lines (so there is no cycle)
				auto one = [&] { return !pool.empty() && g.chance(35) ? with_args(t, g.pick(pool)) : args && t == 2 && g.chance(40) ? with_args(t, "ANY#3F") : args && t == 1 && g.chance(40) ? with_args(t, g.chance(50) ? "COUNT" : "COUNT#C1") : with_args(t, fmt("M%d", (int)g.below(3))); };
				if (args && t == 2 && g.chance(20)) { text += nm + "\tANY#3F\n"; pool.push_back(nm); continue; }
				to = one();
				if (g.chance(20)) to += "," + one();
				if (t == 1 && !args && g.chance(25)) to += ":" + one();
				if (g.chance(3)) to = std::string(100 + g.below(400), 'X');
				text += nm + (g.chance(80) ? "\t" : "\t\t\t") + to + "\n";
				pool.push_back(nm);
			}
			known[t] = pool;
			if (g.chance(20) && !text.empty()) text.pop_back();
			p.add("alias", {t}, {text});
		}
	}
	n = 1 + g.below(7);
	for (int i = 0; i < n; i++) {
		int k = g.below(20), t = g.below(NT);
		if (k < 6) { int f = g.below(10); p.add("list", {t, (int64_t)g.below(1000), f < 6 ? 0 : (int64_t)f - 5, (int64_t)g.below(3)}); }
		else if (k < 9) p.add("look", {t, (int64_t)g.below(1000), g.chance(15) ? 1 : 0}, {!known[t].empty() && g.chance(75) ? near_name(g, g.pick(known[t])) : odd_name(g)});
		else if (k < 10) p.add("file", {t}, {odd_name(g) + (t >= 3 ? ".so" : "")});
		else if (k < 11) p.add("del", {t}, {odd_name(g) + (t >= 3 ? ".so" : "")});
		else if (k < 14) {
			std::string a;
			if (g.chance(20)) a += g.chance(50) ? "'" : "\"";
			for (int j = 0, m = g.below(4); j < m; j++) a += odd_name(g) + g.pick(std::vector<std::string>{":", ",", "|", ":", "#A=B,"});
			if (g.chance(70)) { std::string q = odd_name(g); a += q.substr(0, g.below(q.size() + 1)); }
			if (g.chance(15)) a += g.chance(50) ? "'" : "\"";
			p.add("complete", {(int64_t)g.below(1000), g.chance(5) ? 1 : 0}, {case_of(upper_of(a), g.next())});
		}
		else if (k < 15) p.add("tool", {(int64_t)g.below(1000)});
		else {
			auto nm = [&](int t) { return !known[t].empty() && g.chance(80) ? with_args(t, g.pick(known[t])) : g.chance(80) ? with_args(t, fmt("M%d", (int)g.below(3))) : g.chance(4) ? std::string("?") : odd_name(g); };
			std::string c = nm(0);
			if (g.chance(25)) c += "," + nm(0);
			for (int j = 0, q = g.below(3); j < q; j++) { c += ":" + nm(1); if (g.chance(15)) c += "," + nm(1); }
			c += ":" + nm(2);
			if (g.chance(10)) c += "|" + nm(0) + ":" + nm(2);
			std::string in; for (int j = 0, q = 1 + g.below(12); j < q; j++) in += "ABCDE"[g.below(5)];
			p.add("conv", {(int64_t)g.below(1000)}, {c, in});
			p.add("chunks", gen_chunks(g, in.size()));
		}
	}
	return p;
}
static std::string slurp_real(const std::string &f) {
	std::string r; FILE *fp = fopen(f.c_str(), "rb");
	if (!fp) return r;
	char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) r.append(b, n);
	fclose(fp);
	return r;
}
// The few real modules a made-up installation needs, and three small tables per kind that tell themselves apart.
static void install(const Plan &p) {
	bool gone[NT] = {};
	for (auto &o : p.ops) if (o.k == "nodir") gone[llabs(o.N(0)) % NT] = true;
	static std::map<std::string, std::string> cache;
	auto real = [&](const std::string &f, bool so) {
		std::string r = os::root + "/share/bsdconv/" + f, v = "/custom/share/bsdconv/" + f;
		if (!cache.count(f)) cache[f] = slurp_real(r);
		os::add_file(v, so ? std::string("\x7f" "ELF") : cache[f]);
		if (so) os::so_map[v] = r;
	};
	auto table = [&](const std::string &text, const std::string &to) {
		if (!cache.count(text)) {
			os::add_file("/work/t.txt", text);
			if (run_mktable({"/work/t.txt", "/work/t.bin"}) != 0) harness_error("table of the installation does not compile");
			cache[text] = os::inode("/work/t.bin")->data;
		}
		os::add_file(to, cache[text]);
	};
	for (int t = 0; t < NT; t++) {
		std::string d = std::string("/custom/share/bsdconv/") + tdir[t];
		if (gone[t]) continue;
		os::add_dir(d);
		if (t == 0 || t == 2) real(std::string(tdir[t]) + "/ASCII", false);
		if (t == 2) { real("to/ANY", false); real("to/ANY.so", true); real("to/PASS", false); if (!cache.count("to/PASS.so")) cache["to/PASS.so"] = ""; real("to/PASS.so", true); }
		if (t == 1) {
			real("inter/COUNT", false); real("inter/COUNT.so", true);
			for (int k = 0; k < 3; k++) real(std::string("inter/ALIAS-") + (k == 0 ? "FROM" : k == 1 ? "INTER" : "TO") + ".so", true);
		}
		if (t < 3) for (int m = 0; m < 3; m++) {
			std::string tx;
			for (int c = 0; c < 5; c++) {
				if ((c + m) % 4 == 3) continue;
				if (t == 0) tx += fmt("%02X\t01%02X\n", 'A' + c, 'A' + (c + m) % 5);
				else if (t == 1) tx += fmt("01%02X\t01%02X,01%02X\n", 'A' + c, 'A' + (c * 2 + m) % 5, 'A' + m);
				else tx += fmt("01%02X\t%02X%02X\n", 'A' + c, 'a' + c, '0' + m);
			}
			table(tx, d + fmt("/M%d", m));
		}
	}
	std::string at[NT];
	for (auto &o : p.ops) {
		int t = llabs(o.N(0)) % NT;
		if (o.k == "alias" && !gone[t] && at[t].empty()) {
			for (auto &l : split(o.S(0), '\n')) if (!l.empty() && (l[0] == '#' || (l.find('\t') != std::string::npos && l[0] != '\t'))) at[t] += l + "\n";
			if (!o.S(0).empty() && o.S(0).back() != '\n' && !at[t].empty()) at[t].pop_back();
			os::add_file(std::string("/custom/share/bsdconv/") + tdir[t] + "/alias", at[t]);
		}
	}
	// the tables look-ups use, made from the alias files the way tools/mkalias.py does
	if (!gone[1]) for (int t = 0; t < 4; t++) {
		static const char *nm[] = {"FROM", "INTER", "TO", "FILTER"};
		std::string tx;
		auto h = [](const std::string &s) { std::string r; for (unsigned char c : s) r += fmt("%s01%02X", r.empty() ? "" : ",", c); return r; };
		for (auto &a : alias_of(at[t])) tx += h(a.first) + "\t" + h(a.second) + "\n";
		if (t == 0 || t == 2) tx += h("LOCALE") + "\t?\n";
		table(tx, std::string("/custom/share/bsdconv/inter/ALIAS-") + nm[t]);
	}
}
static std::vector<std::string> listing(int t) {
	std::vector<std::string> r;
	char **l;
	{ Sut s; l = bsdconv_modules_list(types[t]); }
	if (!l) violation("no list of modules", tdir[t]);
	for (char **q = l; *q; q++) r.push_back(*q);
	{ Sut s; for (char **q = l; *q; q++) bsdconv_free(*q); bsdconv_free(l); }
	return r;
}
static int run_tool(const char *tool, const std::vector<std::string> &args, std::string &out) {
	void *h = dlopen((os::root + "/../lib/lib" + tool + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
	int (*m)(int, char **) = h ? (int (*)(int, char **))dlsym(h, (std::string(tool) + "_main").c_str()) : nullptr;
	if (!m) harness_error(std::string(tool) + " not loadable");
	FILE *o = stdout, *e = stderr;
	os::sink("c.stdout").clear(); os::sink("c.stderr").clear();
	stdout = os::sink_file("c.stdout"); stderr = os::sink_file("c.stderr");
	std::vector<std::string> a = args;
	a.insert(a.begin(), std::string("bsdconv-") + tool);
	std::vector<char *> v;
	for (auto &x : a) { char *c = (char *)malloc(x.size() + 1); memcpy(c, x.c_str(), x.size() + 1); v.push_back(c); }
	int n = v.size();
	v.push_back(nullptr);
	int rc = run_process([&] { return m(n, v.data()); });
	os::process_end(rc == -1);
	stdout = o; stderr = e;
	os::cwd = "/work";
	for (auto x : v) free(x);
	dlclose(h);
	out = os::sink("c.stdout");
	return rc;
}
static void exec_c17(const Plan &p) {
	const Op *wo = p.find("world");
	bool real = wo && wo->N(0);
	g_step_limit = 200000000;
	if (real) {
		base = os::root;
		if (const Op *l = p.find("locale")) os::env[l->N(0) == 0 ? "LC_ALL" : l->N(0) == 1 ? "LC_CTYPE" : "LANG"] = l->S(0).c_str();
		if (const Op *l = p.find("locale")) if (l->N(0)) { os::env["LC_ALL"] = "\x01"; if (l->N(0) == 2) os::env["LC_CTYPE"] = "\x01"; }
	} else {
		base = "/custom";
		install(p);
		os::env["BSDCONV_PATH"] = "/custom";
	}
	uint64_t h = real;
	for (size_t i = 0; i < p.ops.size(); i++) {
		const Op &o = p.ops[i];
		int t = (int)(llabs(o.N(0)) % NT);
		std::string dir = base + "/share/bsdconv/" + tdir[t];
		if (o.k == "file" || o.k == "del") {
			if (real) continue;
			std::string nm = upper_of(o.S(0));
			for (auto sfx : {".SO", ".MAN"}) { size_t l = strlen(sfx); if (nm.size() > l && nm.substr(nm.size() - l) == sfx) { nm.resize(nm.size() - l); for (size_t q = 0; q < l; q++) nm += tolower(sfx[q]); break; } }
			if (nm.empty() || nm.find('/') != std::string::npos || nm == "alias" || nm.find('.') == 0 || !os::is_dir(dir)) continue;
			if (o.k == "file" && !os::exists(dir + "/" + nm)) {
				// an installed codec is a table: the first of this kind
				Inode *m = t < 3 ? os::inode(dir + "/M0") : nullptr;
				os::add_file(dir + "/" + nm, m && nm.find('.') == std::string::npos ? m->data : "x");
			}
			if (o.k == "del" && nm != "COUNT" && nm != "ASCII" && nm != "PASS" && nm.compare(0, 5, "ALIAS") && os::exists(dir + "/" + nm)) os::del_file(dir + "/" + nm);
			continue;
		}
		if (o.k == "list") {
			World w = world_now(real);
			os::dir_order_seed = llabs(o.N(1));
			int f = real ? 0 : (int)o.N(2);
			os::faults.clear();
			memset(os::fired, 0, sizeof os::fired);
			if (f == 1) os::faults.push_back({C_OPENDIR, 0, 1, o.N(3) == 0 ? EMFILE : o.N(3) == 1 ? EACCES : ENOENT, 0, dir});
			if (f == 2) os::faults.push_back({C_OPEN, 0, 1, o.N(3) == 0 ? EMFILE : o.N(3) == 1 ? EACCES : EIO, 0, dir + "/alias"});
			if (f == 3) os::faults.push_back({C_READ, llabs(o.N(3)) % 3, 1, EIO, 0, dir + "/alias"});
			if (f == 4) os::partial_reads_seed = 1 + llabs(o.N(3));
			int64_t a0 = live_allocs(); int d0 = os::open_count();
			auto got = listing(t);
			if (live_allocs() != a0 || os::open_count() != d0) violation("listing modules keeps memory or descriptors", fmt("%s: %ld blocks, %d descriptors", tdir[t], (long)(live_allocs() - a0), os::open_count() - d0));
			bool fo = os::fired[C_OPENDIR], fa = os::fired[C_OPEN], fr = os::fired[C_READ];
			os::faults.clear(); os::partial_reads_seed = 0;
			auto want = names_of(w, t, !fo, !fa), least = names_of(w, t, !fo, !fa && !fr);
			std::string at = fmt("%s order %ld fault %d: ", tdir[t], (long)o.N(1), f) + "got [" + join(got) + "] want [" + join(want) + "]";
			ev(at);
			if (!std::is_sorted(got.begin(), got.end())) violation("list of modules is not sorted", at);
			if (!fr && uniq(got) != uniq(want)) violation("list of modules is not what is installed", at);
			if (fr) { for (auto &x : least) if (!has(got, x)) violation("list of modules misses installed modules", at); for (auto &x : got) if (!has(want, x)) violation("list of modules names what is not installed", at); }
			for (auto &x : uniq(got)) if (std::count(got.begin(), got.end(), x) > std::count(want.begin(), want.end(), x)) violation("list of modules repeats a name", at);
			h = mix(h, hash_str(at));
			if (want.size() > 1) nontrivial();
		}
		if (o.k == "look") {
			World w = world_now(real);
			std::string nm = case_of(upper_of(o.S(0).c_str()), llabs(o.N(1)));
			if (nm.find('/') != std::string::npos || nm.find('.') != std::string::npos) continue;
			bool fault = o.N(2) && !real;
			os::faults.clear();
			if (fault) os::faults.push_back({C_OPEN, 0, 1, EMFILE, 0, dir});
			int64_t a0 = live_allocs(); int d0 = os::open_count();
			int got;
			{ Sut s; got = bsdconv_module_check(types[t], nm.c_str()); }
			os::faults.clear();
			if (live_allocs() != a0 || os::open_count() != d0) violation("looking up a module keeps memory or descriptors", nm);
			bool want = has(w.mods[t], upper_of(nm));
			ev(fmt("look %s %s %d", tdir[t], nm.c_str(), got));
			if (!fault && !!got != want) violation("look-up disagrees with what is installed", fmt("%s/%s: found %d, installed %d", tdir[t], nm.c_str(), got, want));
			if (got && !want) violation("look-up finds what is not installed", nm);
			h = mix(h, mix(hash_str(nm), t));
			// the alias table
			if (t < 4 && !want && !fault && !real && os::exists(base + "/share/bsdconv/inter/COUNT") && os::is_dir(base + "/share/bsdconv/from") && os::is_dir(base + "/share/bsdconv/to")) {
				const std::string *to = nullptr;
				for (auto &a : w.al[t]) if (a.first == upper_of(nm)) { to = &a.second; break; }
				char *r;
				{ Sut s; r = bsdconv_solve_alias(types[t], nm.c_str()); }
				std::string g = r ? r : "(none)";
				if (r) { Sut s; bsdconv_free(r); }
				if (to && to->size() < 120 && g != *to) violation("an alias does not stand for its target", fmt("%s/%s: ", tdir[t], nm.c_str()) + esc(g) + " want " + esc(*to));
				if (!to && r) { // not an alias: nothing, unless put together from several
					std::vector<bool> reach(nm.size() + 1); reach[0] = true;
					std::string u = upper_of(nm);
					for (size_t i = 0; i < u.size(); i++) if (reach[i]) {
						auto key = [&](const std::string &k) { if (!k.empty() && u.compare(i, k.size(), k) == 0) reach[i + k.size()] = true; };
						for (auto &a : w.al[t]) key(a.first);
						key("LOCALE");
					}
					bool ascii = std::all_of(u.begin(), u.end(), [](unsigned char c) { return c > 32 && c < 127; });
					if (ascii && !u.empty() && !reach[u.size()]) violation("a name that is no alias is taken for one", fmt("%s/%s: ", tdir[t], nm.c_str()) + esc(g));
				}
				ev("alias " + g);
			}
		}
		if (o.k == "complete") {
			World w = world_now(real);
			os::dir_order_seed = llabs(o.N(0));
			std::string arg = o.S(0).c_str(), out, a = upper_of(arg);
			int rc = run_tool("completion", o.N(1) ? std::vector<std::string>{} : std::vector<std::string>{arg}, out);
			if (o.N(1)) a = "";
			if (!a.empty() && (a[0] == '\'' || a[0] == '"')) a = a.substr(1);
			if (!a.empty() && (a.back() == '\'' || a.back() == '"')) a.pop_back();
			size_t part = 0; int mode = 0;
			for (size_t q = 0; q < a.size(); q++) { if (a[q] == ':') mode = 2; if (a[q] == '|') mode = 0; if (strchr(":|,", a[q])) part = q + 1; }
			std::vector<std::string> want, got = split(out, '\n');
			if (!got.empty() && got.back().empty()) got.pop_back();
			for (int k : {1, mode}) for (auto &x : names_of(w, k)) if (x.compare(0, a.size() - part, a.substr(part)) == 0) want.push_back(a.substr(0, part) + x);
			std::sort(want.begin(), want.end()); want = uniq(want); std::sort(got.begin(), got.end());
			std::string at = esc(arg) + fmt(" exit %d: got [", rc) + join(got) + "] want [" + join(want) + "]";
			ev(at);
			if (rc != 0) violation("completion fails", at);
			if (got != want) violation("completion does not offer the names that continue the text", at);
			h = mix(h, hash_str(at));
			nontrivial();
		}
		if (o.k == "tool") {
			World w = world_now(real);
			os::dir_order_seed = llabs(o.N(0));
			os::sink("stdout").clear();
			int rc = run_cli({"-l"}, "");
			std::map<std::string, std::vector<std::string>> got; std::string sec;
			for (auto &l : split(os::sink("stdout"), '\n')) { if (!l.empty() && l[0] == '[') sec = l; else if (!l.empty()) got[sec].push_back(l.substr(l.find_first_not_of('\t'))); }
			static const char *head[] = {"[From]", "[Inter]", "[To]", "[Filter]", "[Scorer]"};
			if (rc != 0) violation("listing modules with the tool fails", fmt("exit %d", rc));
			for (int k = 0; k < NT; k++) if (uniq(got[head[k]]) != uniq(names_of(w, k))) violation("the tool lists other modules than are installed", std::string(head[k]) + " got [" + join(got[head[k]]) + "] want [" + join(names_of(w, k)) + "]");
			if (got.size() > NT) violation("the tool lists other modules than are installed", "more than five kinds");
			h = mix(h, mix(77, o.N(0)));
		}
		if (o.k == "conv") {
			World w = world_now(real);
			std::string conv = case_of(upper_of(o.S(0).c_str()), llabs(o.N(0))), in = o.S(1), full;
			if (real) conv = o.S(0).c_str();
			std::vector<int64_t> ch;
			if (i + 1 < p.ops.size() && p.ops[i + 1].k == "chunks") ch = p.ops[i + 1].n;
			if (split(conv, ':').size() < 2) continue;
			if (!real && !(os::is_dir(base + "/share/bsdconv/from") && os::is_dir(base + "/share/bsdconv/to") && os::is_dir(base + "/share/bsdconv/inter"))) continue;
			auto loc = [&](const std::string &c) { // what the environment names
				std::string r, L = "LOCALE", e = "ASCII";
				const char *v = nullptr;
				for (auto k : {"LC_ALL", "LC_CTYPE", "LANG"}) { auto it = os::env.find(k); if (it != os::env.end() && it->second != "\x01") { v = it->second.c_str(); break; } }
				if (v) { const char *d = strchr(v, '.'); e = d ? d + 1 : v; if (e.empty() || e == "C" || e == "POSIX") e = "ASCII"; }
				for (size_t q = 0; q < c.size();) { if (c.compare(q, 6, L) == 0) { r += e; q += 6; } else r += c[q++]; }
				return r;
			};
			bool known = expand(w, real ? loc(conv) : conv, full);
				bool ok1 = false, ok2 = false;
			Outcome b, a = run_chunks(conv, cut(in, ch), ok1);
			std::string at = conv + " = " + (known ? full : std::string("(unknown)"));
			ev(at + (ok1 ? " made" : " refused"));
			// a name that is neither installed nor an alias, and not made of aliases either
			if (!known) { if (ok1 && conv.find('?') != std::string::npos) violation("a conversion naming nothing that is installed was created", at); continue; }
			if (full.size() > 2000) continue;
			b = run_chunks(full, cut(in, ch), ok2);
			if (ok1 != ok2) violation(ok2 ? "a conversion by alias cannot be created" : "a conversion by alias can be created but not by name", at);
			if (!ok1) continue;
			if (a.out != b.out || !cnt_equal(a.cnt, b.cnt)) violation("an alias converts differently from what it stands for", at + " in=" + esc(in) + " got=" + esc(a.out) + " want=" + esc(b.out) + " " + show(a.cnt) + " / " + show(b.cnt));
			h = mix(h, hash_str(at));
			if (full != upper_of(conv)) { stat("alias.conversions"); nontrivial(); }
		}
		state(h);
	}
}
static RegProp r17({"C17", gen_c17, exec_c17, 8000, 1000000, "distinct (installation, listings, look-ups and conversions)"});

// ---- C27: what the tools say: counters and failures per file, manual pages
const std::vector<std::string> &cli_convs();
std::string file_text(Rng &g, const std::string &conv);
static std::string page_text(Rng &g) {
	static const std::vector<std::string> w = {"INPUT", "OUTPUT", "\n", "\tTYPE ANY\n", "\n\n", "DESC ", "% %s %n\n", ".", "U+3400..U+4DB5\t", "功\\能", std::string(1, 0), ".redirect "};
	std::string s;
	for (int i = 0, n = g.below(12); i < n; i++) s += g.pick(w);
	if (g.chance(20)) { std::string t = s.empty() ? "line\n" : s; size_t want = 4000 + g.below(20000); while (s.size() < want) s += t; }
	if (s.compare(0, 5, ".redi") == 0) s = " " + s;
	return s;
}
static Plan gen_c27(Rng &g, int tier) {
	Plan p;
	if (g.chance(50)) { // the converter
		std::string conv = g.chance(35) ? g.pick(cli_convs()) : g.chance(25) ? "UTF-8:COUNT:WIDTH:SCORE#AS=S:UTF-8,BYTE" : gen_conv(g);
		if (g.chance(6)) conv = g.chance(50) ? "UTF-8:NO-SUCH-CODEC" : g.chance(50) ? "UTF-8:UPPER#X:ASCII:?" : "UTF-8";
		int n = g.below(5);
		for (int i = 0; i < n; i++) p.add("file", {g.chance(70) ? 0644 : 0600}, {fmt("f%d", i), g.chance(25) ? "plain" : file_text(g, conv)});
		std::vector<std::string> a = {conv};
		if (g.chance(35)) a.push_back("-i");
		if (g.chance(3)) a.push_back("-i");
		if (g.chance(3)) a.push_back("-l");
		for (int i = 0; i < n; i++) { a.push_back(fmt("f%d", (int)(g.chance(88) ? i : g.below(n)))); if (g.chance(4)) a.push_back("gone"); if (g.chance(2)) a.push_back("-i"); }
		if (g.chance(2)) a.clear();
		p.add("args", {}, a);
		if (n == 0) p.add("stdin", {}, {file_text(g, conv)});
		if (g.chance(30)) p.add("short", {1 + (int64_t)g.below(1000)});
		return p;
	}
	std::vector<std::pair<int, std::string>> pages;
	p = gen_c17(g, tier);
	while (p.find("world")->N(0)) p = gen_c17(g, tier);
	std::vector<Op> keep;
	for (auto &o : p.ops) if (o.k == "world" || o.k == "nodir" || o.k == "file" || o.k == "alias") keep.push_back(o);
	p.ops = keep;
	for (int i = 0, n = g.below(6); i < n; i++) {
		int t = g.below(4);
		std::string nm = g.chance(70) ? odd_name(g) : fmt("M%d", (int)g.below(3)), text = page_text(g);
		if (g.chance(25) && !pages.empty()) { auto &q = g.pick(pages); std::string to = std::string(tdir[q.first]) + "/" + q.second; text = ".redirect " + (g.chance(50) ? upper_of(to) : to) + (g.chance(80) ? "\n" : "\nmore\n"); }
		else if (g.chance(4)) text = g.chance(50) ? ".redirect FROM/GONE\n" : g.chance(50) ? ".redirect NOWHERE/X\n" : ".redirect";
		bool dup = false;
		for (auto &q : pages) dup |= q.first == t && q.second == nm;
		if (dup) continue;
		pages.push_back({t, nm});
		p.add("page", {t}, {nm, text});
	}
	auto known = [&](int t) { std::vector<std::string> r; for (auto &o : p.ops) if (o.k == "alias" && o.N(0) == t) for (auto &a : alias_of(o.S(0))) r.push_back(a.first); for (auto &o : p.ops) if (o.k == "file" && o.N(0) == t) r.push_back(o.S(0)); return r; };
	for (int i = 0, n = 1 + g.below(4); i < n; i++) {
		int t = g.below(4);
		std::string nm;
		if (!pages.empty() && g.chance(55)) { auto &q = g.pick(pages); t = q.first; nm = q.second; }
		else { auto v = known(t); nm = !v.empty() && g.chance(70) ? g.pick(v) : g.chance(50) ? odd_name(g) : fmt("M%d", (int)g.below(3)); }
		int f = g.below(12);
		p.add("man", {t, (int64_t)g.below(1000), f < 7 ? 0 : f - 6, (int64_t)g.below(4), g.chance(6) ? 1 + (int64_t)g.below(5) : 0}, {nm});
	}
	return p;
}
static void exec_conv27(const Plan &p) {
	std::vector<std::string> args = p.find("args")->s, files;
	std::map<std::string, std::string> fs;
	for (auto &o : p.ops) if (o.k == "file" && !o.S(0).empty() && o.S(0).find('/') == std::string::npos && !fs.count(o.S(0))) { fs[o.S(0)] = o.S(1); os::add_file("/work/" + o.S(0), o.S(1), (int)o.N(0, 0644) & 0777); }
	for (auto &a : args) if (a.find('\0') != std::string::npos) return;
	std::string in = str_of(p, "stdin"), wout, werr;
	int want = 0;
	bool made = false, inplace = false, list = false;
	size_t i = 1;
	if (args.empty()) want = 1;
	else {
		for (; i < args.size() && !list; i++) { if (args[i] == "-i") inplace = true; else if (args[i] == "-l") list = true; else break; }
		if (args[0] == "-l" || args[0].empty()) return;
		{ struct bsdconv_instance *t = create(args[0]); made = t; if (t) destroy(t); }
		if (!made && !list) want = 1;
	}
	uint64_t h = hash_str(args.empty() ? "" : args[0]);
	typedef std::vector<std::string> Lines;
	std::vector<std::pair<std::string, Lines>> blocks; // file, lines; sorted within
	std::string trouble;
	if (made && !list) {
		Counters sum;
		auto one = [&](const std::string &data, const std::string *name, std::string &out) {
			Outcome o = one_shot(args[0], data);
			out = o.out;
			for (auto &c : o.cnt) { bool f = false; for (auto &s : sum) if (s.first == c.first) { s.second += c.second; f = true; } if (!f) sum.insert(sum.end(), c); }
			Lines l;
			for (auto &s : sum) if (s.second) l.push_back(s.first + fmt(": %zu", (size_t)s.second));
			std::sort(l.begin(), l.end());
			if (!l.empty()) blocks.push_back({name ? *name : "", l});
		};
		if (i >= args.size()) one(in, nullptr, wout);
		else for (; i < args.size(); i++) {
			if (!fs.count(args[i])) { want = 1; trouble = args[i]; break; }
			std::string o;
			one(fs[args[i]], &args[i], o);
			if (inplace) fs[args[i]] = o; else wout += o;
			nontrivial();
		}
		if (!blocks.empty()) nontrivial();
	}
	if (const Op *c = p.find("short")) os::partial_reads_seed = (int)c->N(0);
	int rc = run_cli(args, in);
	std::string out = os::sink("stdout"), err = os::sink("stderr"), at;
	for (auto &a : args) at += (at.empty() ? "" : " ") + esc(a, 60);
	at += fmt(" exit %d: ", rc) + esc(err, 300);
	ev(at);
	if (rc != want) violation(rc ? "failure reported although nothing failed" : "success reported although something failed", at);
	for (auto &f : fs) { Inode *n = os::inode("/work/" + f.first); if (!n || n->data != f.second) violation("a file does not hold what it should", at + " " + f.first + " holds " + (n ? esc(n->data) : "nothing") + " want " + esc(f.second)); }
	if (os::list().size() != fs.size() + 0) { size_t k = 0; for (auto &f : os::list()) k += f.compare(0, 6, "/work/") == 0; if (k != fs.size()) violation("files are left behind", at); }
	if (list) { if (!err.empty()) violation("listing complains", at); state(mix(h, 5)); return; }
	if (out != wout) violation("output is not the converted input", at + " got " + esc(out) + " want " + esc(wout));
	if (!made) { if (err.empty()) violation("failure without a word", at); state(mix(h, 6)); return; }
	// what is said, file by file; after that the complaint
	std::vector<std::pair<std::string, Lines>> got;
	std::string said;
	for (auto &l : split(err, '\n')) {
		if (l.empty()) continue;
		if (l.compare(0, 6, "File: ") == 0) { got.push_back({l.substr(6), {}}); continue; }
		size_t c = l.rfind(": ");
		if (c != std::string::npos && l.find_first_not_of("0123456789", c + 2) == std::string::npos && c + 2 < l.size()) { if (got.empty()) got.push_back({"", {}}); got.back().second.push_back(l); continue; }
		said += l + "\n";
	}
	std::string ws, gs;
	for (auto &b : got) std::sort(b.second.begin(), b.second.end());
	for (auto &b : blocks) ws += b.first + "[" + join(b.second) + "]";
	for (auto &b : got) gs += b.first + "[" + join(b.second) + "]";
	if (ws != gs) violation("the counters told are not those of the files", at + " told " + gs + " want " + ws);
	if (want && said.find(trouble) == std::string::npos) violation("a failure does not name its file", at);
	if (!want && !said.empty()) violation("complaint although nothing failed", at);
	state(mix(h, hash_str(at)));
}
static void exec_c27(const Plan &p) {
	if (p.find("args")) return exec_conv27(p);
	base = "/custom";
	g_step_limit = 200000000;
	install(p);
	os::add_dir("/custom/share/bsdconv"); os::add_dir("/custom/share"); os::add_dir("/custom");
	os::env["BSDCONV_PATH"] = "/custom";
	auto clean = [](const std::string &s) { std::string r; for (char c : upper_of(s)) if (c != '/' && c != '.' && c > ' ') r += c; return r; };
	for (auto &o : p.ops) {
		int t = llabs(o.N(0)) % 4;
		std::string d = base + "/share/bsdconv/" + tdir[o.k == "file" ? llabs(o.N(0)) % NT : t], nm = clean(o.S(0));
		if (nm.empty() || !os::is_dir(d)) continue;
		if (o.k == "file" && o.S(0).find('.') == std::string::npos && !os::exists(d + "/" + nm)) { Inode *m = os::inode(d + "/M0"); os::add_file(d + "/" + nm, m ? m->data : "x"); }
		if (o.k == "page" && !os::exists(d + "/" + nm + ".man")) os::add_file(d + "/" + nm + ".man", o.S(1));
	}
	World w = world_now(false);
	uint64_t h = 27;
	for (auto &o : p.ops) if (o.k == "man") {
		int t = llabs(o.N(0)) % 4, f = (int)llabs(o.N(2)) % 6;
		std::string U = clean(o.S(0));
		if (U.empty() || !os::is_dir(base + "/share/bsdconv/" + tdir[t])) continue;
		std::vector<std::string> args;
		std::string ph = case_of(upper_of(tdir[t]), o.N(1)), nm = case_of(U, o.N(1) + 1);
		static const char *bad[] = {"", "scorer", "foo", "", "fro", "tox"};
		int wrong = (int)(llabs(o.N(4)) % 6);
		if (wrong) ph = bad[wrong];
		if (o.N(1) & 1) args = {ph, nm}; else args = {ph + "/" + nm};
		if (wrong == 3) args = {nm}; // no type at all
		// what the installation says
		std::string want; int wrc = wrong ? 1 : 0; bool open = false;
		int ct = t; std::string cu = U, page;
		for (int k = 0; !wrong && k < 20; k++) {
			Inode *i = os::is_dir(base + "/share/bsdconv/" + tdir[ct]) ? os::inode(base + "/share/bsdconv/" + tdir[ct] + "/" + cu + ".man") : nullptr;
			if (i && i->data.compare(0, 9, ".redirect") == 0) {
				if (i->data.find('\0') != std::string::npos) { open = true; break; }
				size_t a = i->data.find_first_not_of(" \t\n\r\v\f", 9);
				if (a != std::string::npos) {
					std::string to = i->data.substr(a, i->data.find_first_of(" \t\n\r\v\f", a) - a);
					size_t s = to.find('/');
					if (to.size() > 4000) { open = true; break; }
					int nt = -1;
					for (int q = 0; q < 4; q++) if (s != std::string::npos && upper_of(to.substr(0, s)) == upper_of(tdir[q])) nt = q;
					if (nt < 0) { wrc = 1; break; }
					ct = nt; cu = upper_of(to.substr(s + 1));
					if (cu.empty() || cu != clean(cu) || k == 18 || !os::is_dir(base + "/share/bsdconv/" + tdir[ct])) { open = true; break; }
					continue;
				}
			}
			std::string head = upper_of(tdir[ct]) + "/" + cu + ":\n";
			if (i) { want = head + i->data; page = cu + ".man"; break; }
			if (cu.find("LOCALE") != std::string::npos || !os::exists(base + "/share/bsdconv/inter/COUNT") || !os::is_dir(base + "/share/bsdconv/from") || !os::is_dir(base + "/share/bsdconv/to") || !os::is_dir(base + "/share/bsdconv/inter")) { open = true; break; }
			const std::string *to = nullptr;
			for (auto &a : w.al[ct]) if (a.first == cu) { to = &a.second; break; }
			if (to) { if (to->size() > 110) open = true; want = head + "Alias to " + *to + "\n"; break; }
			std::vector<bool> reach(cu.size() + 1); reach[0] = true; // put together from several aliases: left open
			for (size_t c = 0; c < cu.size(); c++) if (reach[c]) for (auto &a : w.al[ct]) if (!a.first.empty() && cu.compare(c, a.first.size(), a.first) == 0) reach[c + a.first.size()] = true;
			if (reach[cu.size()]) { open = true; break; }
			want = has(w.mods[ct], cu) ? "No man page for such codec\n" : "No such codec\n";
			break;
		}
		os::faults.clear(); os::partial_reads_seed = 0;
		memset(os::fired, 0, sizeof os::fired);
		if (f == 1 && !page.empty()) os::faults.push_back({C_READ, llabs(o.N(3)) % 4, 1, EIO, 0, page});
		if (f == 2) os::partial_reads_seed = 1 + llabs(o.N(3));
		if (f == 3) os::faults.push_back({C_WRITE, llabs(o.N(3)) % 4, o.N(3) & 1 ? 1 : 1000, ENOSPC, 0, "sink:c.stdout"});
		if (f == 4) os::faults.push_back({C_WRITE, llabs(o.N(3)) % 2, 2, 0, 1 + llabs(o.N(3)) * 7, "sink:c.stdout"});
		std::string out;
		int rc = run_tool("man", args, out);
		bool fr = os::fired[C_READ], fw = os::fired[C_WRITE];
		os::faults.clear(); os::partial_reads_seed = 0;
		std::string at = join(args) + fmt(" exit %d fault %d: ", rc, f) + "got " + esc(out, 120) + " want " + esc(want, 120);
		ev(at);
		h = mix(h, hash_str(at));
		nontrivial();
		if (rc < 0 || rc > 127) violation("abnormal end", at);
		if (open) continue;
		bool hard = (f == 1 && fr) || (f == 3 && fw);
		if (rc == 0 && wrc) violation("success reported although there is no such kind of module", at);
		if (rc == 0 && out != want) violation("success reported but the page is incomplete or wrong", at);
		if (rc != 0 && !wrc && !hard) violation("failure reported although nothing failed", at);
		if (rc != 0 && wrc && os::sink("c.stderr").empty()) violation("failure without a word", at);
	}
	state(h);
}
static RegProp r27({"C27", gen_c27, exec_c27, 8000, 1000000, "distinct (arguments, files or installation, everything said)"});
