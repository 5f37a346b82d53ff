// Codec tables: the table compiler as a process, and conversion by tables against a reference model.
#include "model.h"
#include <dlfcn.h>
#include <errno.h>

// ---------------------------------------------------------------- the table compiler
// Each run of the tool starts from freshly loaded code: its globals are a new process's.
int run_mktable(const std::vector<std::string> &args) {
	void *h = dlopen((os::root + "/../lib/libmktable.so").c_str(), RTLD_NOW | RTLD_LOCAL);
	int (*mk)(int, char **) = h ? (int (*)(int, char **))dlsym(h, "mktable_main") : nullptr;
	if (!mk) harness_error("table compiler not loadable");
	FILE *o = stdout, *e = stderr;
	stdout = os::sink_file("mk.stdout");
	stderr = os::sink_file("mk.stderr");
	setvbuf(stderr, nullptr, _IONBF, 0);
	std::vector<std::string> a = args;
	a.insert(a.begin(), "bsdconv-mktable");
	std::vector<char *> v;
	for (auto &x : a) v.push_back(strdup(x.c_str()));
	int n = v.size();
	v.push_back(nullptr);
	int rc = run_process([&] { return mk(n, v.data()); });
	os::process_end(rc == -1);
	stdout = o; stderr = e;
	for (auto x : v) free(x);
	dlclose(h);
	return rc;
}
// Random table text around a small alphabet, so that entries are prefixes and duplicates of each other.
static std::string garbage_line(Rng &g) {
	static const std::vector<std::string> odd = {"", " ", "\t", "4", "41", "41\t", "4\t41", "\t41", "!\t01", "!41\t", "Source: somewhere", "zz\t0141", "41 ", "41  \t 0142 # x", "!4141\t0141", "#41\t0142", "41\t#", ",\t01", "*\t", "41,\t0141", "??\t??", "41\t?", "41\t?0141", "*\t?01", "41*\t?"};
	if (g.chance(70)) return g.pick(odd);
	if (g.chance(30)) return std::string(1000 + g.below(60), '4') + "\t0141";
	if (g.chance(50)) { std::string s; for (int i = 0, n = 1 + g.below(600); i < n; i++) s += "41"; return s + "\t" + s.substr(0, g.below(s.size())); }
	std::string s; for (int i = 0, n = g.below(40); i < n; i++) { char c = (char)(1 + g.below(255)); if (c != '\n' && c != '*') s += c; }
	return s;
}
static std::string table_text(Rng &g, int n, int bad) {
	static const std::vector<std::string> units = {"41", "42", "00", "FF", "80", "61", ",", "01"};
	std::string t;
	for (int i = 0; i < n; i++) {
		if (g.chance(bad)) { t += garbage_line(g) + "\n"; continue; }
		std::string k = g.chance(6) ? "!" : "", v;
		for (int j = 0, m = 1 + g.below(5); j < m; j++) k += g.chance(2) && k.find('*') == std::string::npos ? "*" : g.pick(units);
		if (g.chance(12)) v = g.chance(50) ? "?" : "?01" + g.pick(units);
		else for (int j = 0, m = g.below(4); j < m; j++) v += (j ? "," : "") + std::string("01") + g.pick(units) + (g.chance(30) ? "42" : "");
		t += k + (g.chance(80) ? "\t" : g.chance(50) ? " " : "\t\t ") + v + (g.chance(10) ? " # note" : "") + (g.chance(5) ? "\r\n" : "\n");
	}
	if (g.chance(15) && !t.empty()) t.pop_back();
	return t;
}
static Plan gen_c15(Rng &g, int tier) {
	Plan p;
	std::string t;
	if (g.chance(8)) { // big enough for several write-outs of the output stream
		for (int i = 0, n = 100 + g.below(tier ? 900 : 300); i < n; i++) t += hexs(std::string(1, (char)g.below(256)) + (char)g.below(8)) + "\t01" + hexs(std::string(1, (char)g.below(256))) + "\n";
	} else t = table_text(g, 1 + g.below(g.chance(30) ? 60 : 10), g.chance(50) ? 25 : 0);
	p.add("in", {}, {t});
	int n = 1 + g.below(3);
	for (int i = 0; i < n; i++) {
		p.add("run", {(int64_t)g.below(1000), (int64_t)g.below(1000), g.chance(40) ? 1 + (int64_t)g.below(1000) : 0, (int64_t)g.below(4), g.chance(30) ? 1 : 0});
		int m = g.below(10);
		if (m < 2) p.add("crash", {(int64_t)g.below(20)});
		else if (m < 6) for (int k = 0, q = 1 + g.below(2); k < q; k++) {
			static const std::vector<int64_t> calls = {C_READ, C_WRITE, C_WRITE, C_WRITE, C_OPEN, C_CLOSE, C_MKSTEMP, C_FTRUNC, C_MMAP};
			static const std::vector<int64_t> errs = {EIO, ENOSPC, EACCES, EMFILE, EDQUOT};
			int c = g.pick(calls);
			bool part = (c == C_READ || c == C_WRITE) && g.chance(30);
			p.add("fault", {c, (int64_t)g.below(g.chance(60) ? 3 : 8), g.chance(70) ? 1 : 50, part ? 0 : g.pick(errs), 1 + (int64_t)g.below(200)});
		}
		else if (m == 6) p.add("disk", {(int64_t)g.below(600)});
	}
	return p;
}
static void exec_c15(const Plan &p) {
	std::string in = str_of(p, "in"), src = "/work/T.txt";
	g_step_limit = 200000000;
	os::add_file(src, in, 0444);
	int rc0 = run_mktable({src, "/work/ref"});
	if (rc0 != 0 || !os::exists("/work/ref")) violation("a table did not compile though nothing failed", fmt("exit %d ", rc0) + esc(in, 300));
	std::string ref = os::inode("/work/ref")->data;
	ev(fmt("ref %zu bytes", ref.size()));
	uint64_t h = hash_str(ref);
	int i = 0;
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op &o = p.ops[k];
		if (o.k != "run") continue;
		static const char *outs[] = {"/work/out", "/work/sub/out", "/work/sub/../out2", "/work/./o"};
		std::string out = outs[llabs(o.N(3)) % 4];
		std::string old = "previous table";
		os::faults.clear(); os::crash_at = -1; os::disk_free = -1; os::sysno = 0;
		memset(os::fired, 0, sizeof os::fired); memset(os::calls, 0, sizeof os::calls);
		if (o.N(4)) os::add_file(out, old);
		bool had = os::exists(out);
		std::string prev = had ? os::inode(out)->data : "";
		auto before = os::list();
		for (size_t j = k + 1; j < p.ops.size() && p.ops[j].k != "run"; j++) {
			const Op &f = p.ops[j];
			if (f.k == "crash") os::crash_at = f.N(0);
			if (f.k == "disk") os::disk_free = std::max<int64_t>(0, f.N(0));
			if (f.k == "fault" && f.N(0) >= 0 && f.N(0) < C_NCALLS) {
				FaultRule r{(int)f.N(0), f.N(1), std::max<int64_t>(1, f.N(2)), (int)f.N(3), std::max<int64_t>(1, f.N(4, 1)), "/work"};
				if (r.call != C_READ && r.call != C_WRITE && !r.err) r.err = EIO;
				os::faults.push_back(r);
			}
		}
		os::heap_seed = (uint64_t)llabs(o.N(0)); os::stack_seed = 1 + (uint64_t)llabs(o.N(1)); os::partial_reads_seed = (int)o.N(2);
		if (i++ % 2) os::real_stack();
		int rc = run_mktable({src, out});
		uint64_t nf = 0;
		for (int c = 0; c < C_NCALLS; c++) nf += os::fired[c];
		bool crashed = rc == -1, disk = os::disk_free >= 0;
		os::faults.clear(); os::crash_at = -1; os::disk_free = -1;
		std::string at = fmt("exit %d, %lu faults, table ", rc, (unsigned long)nf) + esc(in, 300);
		ev(at);
		bool have = os::exists(out);
		std::string now = have ? os::inode(out)->data : "";
		if (os::inode(src)->data != in) violation("compiling changed its source", at);
		if (rc == 0 && (!have || now != ref)) {
			size_t d = 0; while (d < now.size() && d < ref.size() && now[d] == ref[d]) d++;
			violation(nf || disk ? "success reported for an incomplete table" : "compiling twice gives different tables", at + fmt(" differs at byte %zu of %zu/%zu", d, now.size(), ref.size()));
		}
		if (rc != 0 && !crashed) {
			if (!nf && !disk) violation("a table did not compile though nothing failed", at);
			if (have && !(had && now == prev)) violation("a failed compile leaves something that looks like a table", at);
		}
		if (!crashed) for (auto &f : os::list()) if (f != out && os::inode(f) && std::find(before.begin(), before.end(), f) == before.end() && os::inode(out) != os::inode(f)) violation("a file is left behind", f + " " + at);
		if (crashed || nf || disk || o.N(2)) nontrivial();
		h = mix(h, mix(rc, hash_str(now)));
		state(h);
		// the command repeated without trouble
		if (rc != 0) {
			rc = run_mktable({src, out});
			if (rc != 0 || !os::exists(out) || os::inode(out)->data != ref) violation("repeating the command does not give the table", at + fmt(" then exit %d", rc));
		}
	}
}
static RegProp r15({"C15", gen_c15, exec_c15, 6000, 1000000, "distinct (table, sequence of results)"});

// ---------------------------------------------------------------- C18: conversion by tables, against a model
// The table as this model understands it; anything else (left by minimisation) is dropped before compiling.
static std::string clean_table(const std::string &text) {
	std::string r;
	int stars = 0;
	for (auto &ln : split(text, '\n')) {
		auto w = split(ln, '\t');
		if (w.size() != 2 || w[0].empty()) continue;
		auto ok = [&](const std::string &x, bool key) {
			size_t run = 0; bool cell = false;
			for (char c : x) {
				if (c == ',') { if (!cell || run % 2) return false; cell = false; run = 0; }
				else if (c == '*' && key) { if (run % 2 || ++stars > 3) return false; cell = true; run = 0; }
				else if (isxdigit((unsigned char)c)) { run++; cell = true; }
				else return false;
			}
			return cell && run % 2 == 0;
		};
		if (!ok(w[0].substr(w[0][0] == '!'), true) || (!w[1].empty() && !ok(w[1], false))) continue;
		r += ln + "\n";
	}
	return r;
}
static Plan gen_shipped(Rng &g) {
	Plan p;
	std::string conv;
	bool wide = g.chance(50);
	std::vector<std::pair<int, std::string>> used;
	auto phase = [&](int kind, const std::vector<std::string> &v) { conv += (conv.empty() ? "" : ":"); for (size_t i = 0; i < v.size(); i++) { conv += (i ? "," : "") + v[i]; used.push_back({kind, v[i]}); } };
	std::vector<std::string> v;
	if (wide) v = g.chance(80) ? std::vector<std::string>{"ASCII", "_UTF-8"} : std::vector<std::string>{"_UTF-8", g.pick(shipped_plain(0))};
	else for (int i = 0, n = 1 + g.below(3); i < n; i++) v.push_back(g.pick(shipped_plain(0)));
	phase(0, v);
	for (int i = 0, n = g.below(3); i < n; i++) { v.clear(); for (int j = 0, m = 1 + g.below(2); j < m; j++) v.push_back(g.chance(8) ? "ZH-BONUS" : g.chance(6) ? "ZH-BONUS-PHRASE" : g.pick(shipped_plain(1))); phase(1, v); }
	v.clear();
	static const std::vector<std::string> eb = {"IBM-930", "IBM-933", "IBM-935", "IBM-937", "IBM-939"};
	if (g.chance(20)) v.push_back(g.pick(eb));
	else { for (int i = 0, n = 1 + g.below(2); i < n; i++) v.push_back(g.pick(shipped_plain(2))); if (g.chance(40)) v.push_back(g.chance(50) ? "RAW" : "_UTF-8"); }
	phase(2, v);
	std::string in;
	// a character near what the tables speak of
	auto character = [&](const std::string &pk) {
		uint32_t u = 0;
		for (size_t i = 1; i < pk.size() && i < 4; i++) u = u << 8 | (unsigned char)pk[i];
		int k = g.below(10);
		if (k == 0) u = u << 8 | g.below(256);
		if (k == 1) u >>= 8;
		if (k == 2) u += g.chance(50) ? 1 : -1;
		if (!scalar(u)) u = 0x4E00;
		put_utf8(in, u);
	};
	for (int i = 0, n = 1 + g.below(g.chance(20) ? 40 : 10); i < n; i++) {
		auto &c = used[g.below(used.size())];
		if (wide) {
			if (g.chance(5)) { in += (char)g.below(128); continue; }
			auto &tab = c.first == 0 ? T.inter : c.first == 1 ? T.inter : T.to;
			auto it = tab.find(c.second);
			if (it == tab.end() || it->second.empty()) { put_utf8(in, g.chance(50) ? 0x80 + g.below(0x3000) : 0x4E00 + g.below(0x5000)); continue; }
			for (auto &pk : packets_of(g.pick(it->second).lhs)) character(pk);
		} else {
			auto it = T.from.find(used[g.below(v.size() ? 1 + g.below(2) : 1) % used.size()].second);
			std::string k = it == T.from.end() || it->second.empty() || g.chance(10) ? std::string(1, (char)g.below(256)) : unhex_bytes(g.pick(it->second).lhs);
			if (g.chance(10)) k = k.substr(0, g.below(k.size() + 1));
			if (g.chance(5)) k += (char)g.below(256);
			in += k;
		}
	}
	p.add("conv", {}, {conv});
	p.add("in", {}, {in});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static Plan gen_c18(Rng &g, int tier) {
	if (g.chance(25)) return gen_shipped(g);
	Plan p;
	static const std::vector<std::string> alphab = {"41", "42", "43", "00", "FF", "80"};
	static const std::vector<std::string> packsb = {"0141", "0142", "02FF", "01", "0141" "42", "03", "0100", "FF"};
	static const std::vector<std::string> alphac = {"41", "61", "5B", "7B", "42", "7A", "5A", "62"}, packsc = {"0141", "0161", "01", "5B", "7B", "0161" "42", "FF", "017A"};
	bool anycase = g.chance(20);
	const auto &alpha0 = anycase ? alphac : alphab, &packs0 = anycase ? packsc : packsb;
	std::vector<std::string> alpha(alpha0.begin(), alpha0.begin() + 2 + g.below(alpha0.size() - 1)), packs(packs0.begin(), packs0.begin() + 2 + g.below(packs0.size() - 1));
	int stages = g.chance(15) ? 2 : 1, id = 0;
	std::string conv;
	auto name = [&] { return fmt("T%d", id++); };
	auto outs = [&](const std::vector<std::string> &v, int lo, int hi) { std::string s; for (int i = 0, n = lo + g.below(hi - lo + 1); i < n; i++) s += (i ? "," : "") + g.pick(v); return s; };
	for (int st = 0; st < stages; st++) {
		if (st) conv += "|";
		auto phase = [&](int type) {
			int nc = 1 + g.below(g.chance(50) ? 3 : 1);
			for (int c = 0; c < nc; c++) {
				std::string nm = name(), t;
				if (g.chance(4)) for (int i = 0, n = 50 + g.below(400); i < n; i++) // wide nodes
					t += (type ? std::string("01") : std::string()) + hexs(std::string(1, (char)g.below(256)) + (g.chance(50) ? std::string(1, (char)g.below(256)) : "")) + "\t" + (type == 2 ? "" : "01") + hexs(std::string(1, (char)g.below(256))) + "\n";
				for (int i = 0, n = 1 + g.below(g.chance(30) ? 20 : 8); i < n; i++) {
					std::string k;
					if (type == 0) { for (int j = 0, m = 1 + g.below(g.chance(30) ? 6 : 3); j < m; j++) k += g.pick(alpha); }
					else k = outs(packs, 1, g.chance(30) ? 4 : 2);
					if (g.chance(2)) { size_t q = g.below(k.size() / 2) * 2; if (k[q] != ',' && k.find(',') == std::string::npos) k = k.substr(0, q) + "*" + k.substr(q + 2); }
					std::string v = type == 2 ? (g.chance(8) ? "" : outs(alpha, 1, 2)) : g.chance(6) ? "" : outs(packs, 1, g.chance(30) ? 3 : 1);
					t += (anycase && g.chance(50) ? "!" : "") + k + "\t" + v + "\n";
				}
				p.add("codec", {type}, {nm, t});
				conv += (c ? "," : "") + nm;
			}
		};
		phase(0);
		for (int i = 0, n = g.below(3); i < n; i++) { conv += ":"; phase(1); }
		conv += ":"; phase(2);
	}
	p.add("conv", {}, {conv});
	std::string in;
	std::vector<std::string> keys;
	for (auto &o : p.ops) if (o.k == "codec" && o.N(0) == 0) for (auto &ln : split(o.S(1), '\n')) { size_t tab = ln.find('\t'); if (tab != std::string::npos && ln.find('*') == std::string::npos) { keys.push_back(unhex_bytes(ln.substr(ln[0] == '!', tab - (ln[0] == '!')))); if (anycase) for (auto &c : keys.back()) if (isalpha((unsigned char)c) && g.chance(40)) c ^= 32; } }
	for (int i = 0, n = 1 + g.below(g.chance(20) ? 40 : 10); i < n; i++) {
		std::string k = !keys.empty() && g.chance(70) ? g.pick(keys) : unhex_bytes(g.pick(alpha0));
		if (g.chance(15)) k = k.substr(0, g.below(k.size() + 1));
		in += k;
	}
	p.add("in", {}, {in});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static void exec_c18(const Plan &p) {
	std::string conv = str_of(p, "conv").c_str(), in = str_of(p, "in");
	std::map<std::string, Codec> known;
	std::string desc = conv;
	bool shipped = !p.find("codec");
	if (!shipped) os::env["BSDCONV_PATH"] = "/custom";
	for (auto &o : p.ops) if (o.k == "codec") {
		static const char *dir[] = {"from", "inter", "to"};
		std::string text = clean_table(o.S(1));
		os::add_file("/work/t.txt", text);
		if (run_mktable({"/work/t.txt", "/work/t.bin"}) != 0 || !os::exists("/work/t.bin")) violation("a table did not compile though nothing failed", esc(text, 400));
		os::add_file(std::string("/custom/share/bsdconv/") + dir[llabs(o.N(0)) % 3] + "/" + o.S(0), os::inode("/work/t.bin")->data);
		Codec c;
		c.t = std::make_shared<Trie>(trie_of(text));
		known[fmt("%d", (int)(llabs(o.N(0)) % 3)) + o.S(0)] = c;
		desc += " " + o.S(0) + "={" + esc(text, 300) + "}";
	}
	uint64_t ierr = 0, oerr = 0;
	std::string want;
	int ok = model_conv(conv, in, [&](int kind, const std::string &n, Codec &c, const std::set<std::string> &need) {
		auto it = known.find(fmt("%d", kind) + n);
		if (it != known.end()) c = it->second;
		return it != known.end() || (shipped && shipped_codec(kind, n, c, need));
	}, want, ierr, oerr);
	if (ok < 0) stat("c18.undecided");
	if (ok <= 0) return;
	if (shipped) stat("c18.shipped");
	std::string at = desc + " in=" + esc(in);
	Outcome got = deliver(p, conv, in, at);
	state(mix(hash_str(desc), sched_hash(conv, feed_of(p, in))));
	if (!in.empty()) nontrivial();
	if (got.out != want) violation("output is not what the tables say", at + " want=" + esc(want) + " got=" + esc(got.out));
	if (got.cnt["IERR"] != ierr) violation("input errors are not what the tables say", at + fmt(" want=%lu got=%lu", (unsigned long)ierr, (unsigned long)got.cnt["IERR"]));
	if (got.cnt["OERR"] != oerr) violation("output errors are not what the tables say", at + fmt(" want=%lu got=%lu", (unsigned long)oerr, (unsigned long)got.cnt["OERR"]));
}
static RegProp r18({"C18", gen_c18, exec_c18, 8000, 1000000, "distinct (tables, conversion, chunk sequence)"});
