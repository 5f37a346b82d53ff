// Life cycle: creation that fails, and the resources of instances over whole histories.
#include "p_common.h"
#include <errno.h>

// ---------------------------------------------------------------- what a process owns besides its memory contents
struct World {
	int64_t heap; int fds, vfds; std::string maps, cwd;
	static World now() { World w; w.heap = live_allocs(); w.fds = open_fds(); w.vfds = os::open_count(); w.maps = canon_maps(); w.cwd = os::cwd; return w; }
};
static void same_world(const World &a, const std::string &at) {
	World b = World::now();
	if (b.cwd != a.cwd) violation("working directory changed", at + " " + a.cwd + " -> " + b.cwd);
	if (b.fds != a.fds || b.vfds != a.vfds) violation("file descriptors leaked or stolen", at + fmt(" %d -> %d, %d -> %d", a.fds, b.fds, a.vfds, b.vfds));
	if (b.maps != a.maps) violation("mapped tables or modules leaked or lost", at + " before " + esc(a.maps, 300) + " after " + esc(b.maps, 300));
	if (b.heap != a.heap) violation("memory leaked or freed twice", at + fmt(" %ld blocks -> %ld:", (long)a.heap, (long)b.heap) + leak_sites());
}

// ---------------------------------------------------------------- C06: creation either works or fails cleanly
std::string odd_codec(Rng &g, int where) {
	static const std::vector<std::string> from = {"PASS#X", "PASS#FOR=NOPE", "PASS#UNMARK", "ANY#zz", "ANY#0", "ANY#DROP&zz", "ANY#DROP", "BSDCONV-LOG", "JIS", "UTF-8#CESU", "BIG5#X=1", "utf8#CESU&LOOSE", "LOCALE", "LOCALE#X"};
	static const std::vector<std::string> inter = {"INSERT", "INSERT#X", "INSERT#AFTER", "INSERT#AFTER=0", "INSERT#AFTER=1", "INSERT#AFTER=zz", "INSERT#AFTER=0141&BEFORE=01.zz", "INSERT#BEFORE=", "REPLACE", "REPLACE#", "REPLACE#zz", "REPLACE#0141=zz", "REPLACE#0141=0142&0143", "REPLACE#0141=0142&0143=01",
		"COUNT#FOR=NOPE", "COUNT#FOR", "COUNT#FOR=CJK", "COUNT#X&FOR=cjk", "PASS#LIMIT", "PASS#LIMIT=x", "PASS#LIMIT=-1", "PASS#FOR=NOPE", "PASS#X", "STRINGS#MIN-LEN", "STRINGS#MIN-LEN=x", "STRINGS#FOR", "STRINGS#FOR=NOPE", "STRINGS#AFTER=zz", "STRINGS#BEFORE=0", "STRINGS#AFTER=0141&BEFORE=zz", "STRINGS#AFTER=&BEFORE=",
		"SCORE#WITH", "SCORE#AS", "SCORE#WITH=NOPE", "SCORE#WITH=TRAINED", "SCORE#X", "SCORE#WITH=CJK&AS=K", "SCORE-TRAIN", "TRIM-WIDTH", "TRIM-WIDTH#x", "TRIM-WIDTH#-1", "TRIM-WIDTH#0", "TRIM-WIDTH#5&x", "NFC#X", "NFKC#X=1&Y", "ZHTW#A", "SPLIT#X", "ALIAS-FROM", "ALIAS-INTER", "ALIAS-FILTER"};
	static const std::vector<std::string> to = {"ESCAPE#MODE", "ESCAPE#MODE=9", "ESCAPE#MODE=8", "ESCAPE#FOR=x", "ESCAPE#FOR", "ESCAPE#PREFIX=z", "ESCAPE#PREFIX=2&SUFFIX=zz", "ESCAPE#SUFFIX", "ESCAPE#PREFIX", "ESCAPE#X", "ESCAPE#PREFIX=0", "ANY#zz", "ANY#", "ANY#0", "ANY#DROP&zz", "ANY#3F&ERROR=X", "PASS#FOR=NOPE", "PASS#X", "PASS#MARK",
		"BSDCONV-LOG", "BSDCONV-OUTPUT#X", "BSDCONV-OUTPUT#STDERR", "_UTF-8#X", "ASCII-HTML-INFO", "HTMLENTITY#X", "BIG5#Y=2", "utf8#X"};
	if (g.chance(25)) { static const std::vector<std::string> bad = {"NOPE", "", "#", "#X=1", "ALIAS", "alias", ".", "..", "../from/ASCII", "UTF-8.so", "\xff\xfe", "UTF8\xff", "UTF-8#", "UTF-8#&", "UTF-8#=", "UTF-8##", "A_VERY_LONG_NAME_THAT_NO_MODULE_HAS_AND_THAT_IS_LONGER_THAN_ANY_SENSIBLE_BUFFER_FOR_NAMES_0123456789_0123456789_0123456789_0123456789", "nfc", "CJK", "3F", "3F#X", "INSERT", "BIG5", "UTF-16LE"}; return g.pick(bad); }
	return g.pick(where == 0 ? from : where == 1 ? inter : to);
}
std::string odd_conv(Rng &g) {
	std::string c = gen_conv(g);
	int n = 1 + g.below(2);
	for (int i = 0; i < n; i++) {
		int k = g.below(10);
		if (k < 6) { // another codec somewhere
			std::vector<std::string> ph = split(c, ':');
			size_t w = g.below(ph.size());
			std::string x = odd_codec(g, w == 0 ? 0 : w + 1 == ph.size() ? 2 : 1);
			if (g.chance(40)) ph[w] += "," + x; else if (g.chance(50)) ph[w] = x + "," + ph[w]; else ph[w] = x;
			if (g.chance(20)) ph.insert(ph.begin() + w, odd_codec(g, 1));
			c.clear();
			for (size_t j = 0; j < ph.size(); j++) c += (j ? ":" : "") + ph[j];
		} else if (k == 6) { if (!c.empty()) c.erase(g.below(c.size()), 1 + g.below(4)); }
		else if (k == 7) { static const std::vector<std::string> t = {":", "|", ",", "#", "&", "=", " ", "\n", "\t", "::", "|:", "||", ",,", "#X=1"}; c.insert(g.below(c.size() + 1), g.pick(t)); }
		else if (k == 8) { for (auto &x : c) if (g.chance(50)) x = tolower(x); }
		else { static const std::vector<std::string> t = {"", ":", "UTF-8", "NFC", "|", "UTF-8:", ":UTF-8", "WIDTH", "UTF-8|UTF-8", "UTF-8:UTF-8|", "   ", "BIG5:UTF-8|", "UTF-8:UTF-8|UTF-8"}; c = g.pick(t); }
	}
	return c;
}
void gen_env(Rng &g, Plan &p) {
	if (g.chance(15)) p.add("env", {}, {"HOME", g.chance(50) ? "\x01" : "/home/" + std::string(g.below(400), 'x')});
	if (g.chance(15)) p.add("env", {}, {"BSDCONV_SCORE", g.chance(50) ? "/work/score" : "/nowhere/score"});
	if (g.chance(30)) { p.add("env", {}, {"BSDCONV_FROM_LOG", g.chance(70) ? "/work/flog" : "/nowhere/log"}); p.add("env", {}, {"BSDCONV_TO_LOG", g.chance(70) ? "/work/tlog" : "/nowhere/log"}); }
	if (g.chance(10)) { static const std::vector<std::string> l = {"", "C", "zh_TW.Big5", "ja_JP.eucJP", "POSIX", "en.", "NOPE.NOPE", "\x01"}; p.add("env", {}, {"LC_ALL", g.pick(l)}); }
}
void apply_env(const Plan &p) { for (auto &o : p.ops) if (o.k == "env") os::env[o.S(0)] = o.S(1); }
static Plan gen_c06(Rng &g, int tier) {
	Plan p;
	gen_env(g, p);
	int n = 1 + g.below(3);
	for (int i = 0; i < n; i++) {
		bool odd = g.chance(60);
		std::string c = odd ? odd_conv(g) : gen_conv(g);
		p.add("create", {odd}, {c, gen_input(g, gen_conv(g), 1 + g.below(4))});
		if (g.chance(odd ? 40 : 90)) for (int k = 0, m = 1 + g.below(2); k < m; k++) {
			static const std::vector<int64_t> calls = {C_OPEN, C_OPEN, C_OPEN, C_MMAP, C_MMAP, C_DLOPEN, C_DLOPEN, C_FSTAT, C_CLOSE, C_READ};
			static const std::vector<int64_t> errs = {EMFILE, ENFILE, EIO, EACCES, ENOMEM, EINTR, ENOENT};
			p.add("fault", {g.pick(calls), (int64_t)g.below(g.chance(60) ? 10 : 50), g.chance(70) ? 1 : g.chance(50) ? 3 : 0, g.pick(errs)});
		}
	}
	return p;
}
static void exec_c06(const Plan &p) {
	apply_env(p);
	static const std::set<std::string> reasons = {"Unexpected condition", "Unsupported charset/encoding or filter", "Mmap failed", "Conversion syntax error", "Unknown error"};
	FILE *so = stdout;
	stdout = os::sink_file("stdout");
	setvbuf(stdout, nullptr, _IONBF, 0);
	{ struct bsdconv_instance *w = create("UTF-8:UTF-16LE"); if (w) destroy(w); w = create("UTF8:NFC:GBK"); if (w) destroy(w); } // lazy one-time state
	uint64_t h = 0;
	for (size_t i = 0; i < p.ops.size(); i++) {
		const Op &o = p.ops[i];
		if (o.k != "create") continue;
		std::string conv = o.S(0).c_str(), in = o.S(1), at = "\"" + esc(conv, 200) + "\"";
		World before = World::now();
		// without faults
		bool ok; Outcome ref; std::string why;
		auto make = [&](bool &made, Outcome &res, std::string &reason) {
			char *copy = strdup(conv.c_str()); // the caller's string lives only during the call
			struct bsdconv_instance *ins;
			{ Sut s; errno = 0; ins = bsdconv_create(copy); }
			int e = errno;
			if (conv != copy) violation("the caller's conversion string was modified", at);
			memset(copy, 'X', strlen(copy)); free(copy);
			made = ins != nullptr;
			os::faults.clear();
			if (ins) {
				{ Sut s; bsdconv_init(ins); }
				res = run_whole(ins, in);
				destroy(ins);
			} else {
				char *m;
				{ Sut s; errno = e; m = bsdconv_error(); }
				if (!m || !reasons.count(m)) violation("no reason given for a failed creation", at);
				reason = m;
				{ Sut s; bsdconv_free(m); }
			}
		};
		make(ok, ref, why);
		same_world(before, at + (ok ? " created and destroyed" : " failed"));
		if (!ok && !o.N(0)) violation("a valid conversion is rejected", at + " " + why);
		if (!ok && why == "Unknown error") violation("no reason given for a failed creation", at);
		h = mix(h, hash_str(conv, ok));
		state(h);
		ev(at + (ok ? " ok " + ref.out : " " + why));
		stat(ok ? "created" : "rejected." + why);
		// with faults
		bool any = false;
		for (size_t k = i + 1; k < p.ops.size() && p.ops[k].k == "fault"; k++) {
			const Op &f = p.ops[k];
			if (f.N(0) < 0 || f.N(0) >= C_NCALLS) continue;
			std::string where = f.N(0) == C_OPEN || f.N(0) == C_DLOPEN ? os::root : "";
			if (f.N(0) == C_READ) where = "";
			os::faults.push_back(FaultRule{(int)f.N(0), f.N(1), f.N(2), f.N(3) ? (int)f.N(3) : EIO, 1, where});
			any = true;
		}
		if (any) {
			uint64_t f0 = 0, f1 = 0;
			for (int c = 0; c < C_NCALLS; c++) f0 += os::fired[c];
			bool ok2; Outcome r2; std::string why2;
			make(ok2, r2, why2);
			os::faults.clear();
			for (int c = 0; c < C_NCALLS; c++) f1 += os::fired[c];
			ev(fmt("with %ld faults: %s", (long)(f1 - f0), ok2 ? "ok" : why2.c_str()));
			same_world(before, at + " under faults" + (ok2 ? " created and destroyed" : " failed"));
			h = mix(h, f1 - f0 + (ok2 ? 100 : 200));
			state(h);
			if (f1 > f0) nontrivial();
			if (ok2 && !ok) violation("a fault makes an invalid conversion acceptable", at);
			if (!ok2 && ok && f1 == f0) violation("creation fails without a reason", at + " " + why2);
			if (ok2 && conv.find("SCORE") == std::string::npos && (r2.out != ref.out || !cnt_equal(r2.cnt, ref.cnt)))
				violation("an instance created under a transient fault converts differently", at + " in=" + esc(in) + " want=" + esc(ref.out) + " got=" + esc(r2.out) + " " + show(ref.cnt) + "/ " + show(r2.cnt));
		}
		if (!ok) nontrivial();
		// whatever happened, the next creations are unaffected
		bool ok3; Outcome r3; std::string why3;
		make(ok3, r3, why3);
		if (ok3 != ok || (ok && conv.find("SCORE") == std::string::npos && r3.out != ref.out)) violation("an earlier failure changed a later creation", at);
		std::string c0 = conv; conv = "UTF-8:UTF-16LE"; std::string in0 = in; in = "A\xe4\xb8\xad";
		make(ok3, r3, why3);
		conv = c0; in = in0;
		if (!ok3 || r3.out != std::string("A\0\x2d\x4e", 4)) violation("an earlier failure changed a later creation", at + " then UTF-8:UTF-16LE gives " + esc(r3.out));
		same_world(before, at + " and others");
		if (!os::sink("stdout").empty() && conv.find("OUTPUT") == std::string::npos) violation("creation writes to standard output", at + " " + esc(os::sink("stdout")));
		os::sink("stdout").clear();
	}
	stdout = so;
}
static RegProp r06({"C06", gen_c06, exec_c06, 6000, 1000000, "distinct histories of (conversion string, result, number of faults)"});

// ---------------------------------------------------------------- C07: everything is given back
static Plan gen_c07(Rng &g, int tier) {
	Plan p;
	gen_env(g, p);
	int n = 6 + g.below(tier ? 60 : 26);
	int slots = 1 + g.below(3);
	std::vector<std::string> conv(3);
	for (int i = 0; i < n; i++) {
		int s = g.below(slots);
		if (conv[s].empty()) {
			std::string c = g.chance(92) ? gen_conv(g) : odd_conv(g);
			p.add("create", {s}, {c});
			conv[s] = c;
			continue;
		}
		int k = g.below(100);
		if (k < 52) {
			std::string in = g.chance(8) ? "" : gen_input(g, conv[s], 1 + g.below(8));
			if (g.chance(50)) in = in.substr(0, g.below(in.size() + 1));
			p.add("feed", {s, (int64_t)g.below(2), (int64_t)g.below(9), g.chance(25) ? 0 : (int64_t)g.below(40), g.chance(20), (int64_t)g.below(slots)}, {in});
		} else if (k < 60) p.add("init", {s});
		else if (k < 72) { p.add("destroy", {s}); conv[s].clear(); }
		else if (k < 78) p.add("hash", {s, (int64_t)g.below(3)}, {g.chance(50) ? "a" : "b"});
		else if (k < 82) p.add("counter", {s, (int64_t)g.below(3)}, {g.chance(50) ? "IERR" : "Foo"});
		else if (k < 84) p.add("pack", {s});
		else {
			static const std::vector<std::string> names = {"UTF-8", "utf-8", "NOPE", "", "NFC", "_NFC", "CJK", "BIG5", "alias", "3F", "\xff"};
			p.add("lookup", {(int64_t)g.below(9), 1 + (int64_t)g.below(6), (int64_t)g.range(-3, 3), (int64_t)g.range(-3, 3)}, {g.pick(names), conv[s]});
		}
		if (g.chance(5)) p.add("fault", {g.chance(50) ? C_WRITE : C_OPEN, (int64_t)g.below(6), 1, EIO, 1});
	}
	return p;
}
static void exec_c07(const Plan &p) {
	apply_env(p);
	{ struct bsdconv_instance *w = create("UTF-8:NFC:GBK"); if (w) { Sut s; bsdconv_init(w); } if (w) { run_whole(w, "a"); destroy(w); } }
	struct bsdconv_instance *ins[3] = {};
	std::string name[3];
	bool borrows[3][3] = {}; // [to][from]: data handed over with BSDCONV_PASS may still point into the source's tables
	auto release = [&](int from) { // so the receiver has to let go of it first
		for (int t = 0; t < 3; t++) if (borrows[t][from] && ins[t]) { { Sut x; bsdconv_init(ins[t]); } for (int k = 0; k < 3; k++) borrows[t][k] = false; }
	};
	int fd = os::vfd_open_sink("fd");
	FILE *fp = os::sink_file("file");
	setvbuf(fp, nullptr, _IONBF, 0);
	World base = World::now();
	std::string trail;
	uint64_t h = 0; int did = 0;
	{
		Keep keep;
		auto state_kept = [&](const char *what) { if (os::cwd != base.cwd) violation("working directory changed", std::string(what) + " " + base.cwd + " -> " + os::cwd); };
		for (auto &o : p.ops) {
			int s = (int)(((o.N(0) % 3) + 3) % 3);
			if (o.k == "fault") { if (o.N(0) == C_WRITE || o.N(0) == C_OPEN) os::faults.push_back(FaultRule{(int)o.N(0), o.N(1), 1, EIO, 1, o.N(0) == C_WRITE ? "sink:" : os::root}); continue; }
			if (o.k == "create") {
				if (ins[s]) continue;
				ins[s] = create(o.S(0).c_str());
				name[s] = o.S(0);
				if (ins[s]) { Sut x; bsdconv_init(ins[s]); } else stat("create.failed");
			} else if (o.k == "destroy") {
				if (!ins[s]) continue;
				for (int k = 0; k < 3; k++) borrows[s][k] = false;
				for (int pass = 0; pass < 3; pass++) release(s);
				destroy(ins[s]); ins[s] = nullptr;
				bool all = true;
				for (auto x : ins) all &= !x;
				if (all) same_world(base, "after destroying \"" + esc(name[s], 150) + "\"" + trail);
			} else if (o.k == "init") { if (ins[s]) { for (int k = 0; k < 3; k++) borrows[s][k] = false; Sut x; bsdconv_init(ins[s]); } }
			else if (o.k == "feed") {
				if (!ins[s]) continue;
				set_input(ins[s], o.S(0), o.N(1), keep);
				ins[s]->flush = o.N(4) ? 1 : 0;
				int mode = (int)o.N(2), other = (int)(((o.N(5) % 3) + 3) % 3);
				size_t size = (size_t)std::max<int64_t>(0, o.N(3)) % 4096;
				if (mode == BSDCONV_PREMALLOCED) {
					char *b = size ? (char *)malloc(size) : nullptr;
					ins[s]->output_mode = mode; ins[s]->output.data = b; ins[s]->output.len = size;
					{ Sut x; bsdconv(ins[s]); }
					free(b);
				} else if (mode == BSDCONV_FD || mode == BSDCONV_FILE || mode == BSDCONV_HOLD || mode == BSDCONV_NULL) {
					ins[s]->output_mode = mode;
					ins[s]->output.data = mode == BSDCONV_FD ? (void *)(intptr_t)fd : mode == BSDCONV_FILE ? (void *)fp : nullptr;
					Sut x; bsdconv(ins[s]);
				} else if (mode == BSDCONV_PASS && other != s && ins[other]) {
					ins[s]->output_mode = mode; ins[s]->output.data = ins[other];
					ins[other]->input.data = nullptr; ins[other]->input.len = 0; ins[other]->input.flags = 0; ins[other]->input.next = nullptr;
					{ Sut x; bsdconv(ins[s]); }
					for (int k = 0; k < 3; k++) borrows[other][k] |= borrows[s][k];
					borrows[other][s] = true;
					ins[other]->flush = 0;
					drain_auto(ins[other]);
					stat("passed.on");
				} else drain_auto(ins[s], size % 5);
			} else if (o.k == "hash") {
				if (!ins[s]) continue;
				Sut x;
				if (o.N(1) == 0) bsdconv_hash_set(ins[s], o.S(0).c_str(), (void *)1);
				else if (o.N(1) == 1) bsdconv_hash_get(ins[s], o.S(0).c_str());
				else bsdconv_hash_del(ins[s], o.S(0).c_str());
			} else if (o.k == "counter") {
				if (!ins[s]) continue;
				Sut x;
				if (o.N(1) == 0) ++*bsdconv_counter(ins[s], o.S(0).c_str());
				else bsdconv_counter_reset(ins[s], o.N(1) == 1 ? o.S(0).c_str() : nullptr);
			} else if (o.k == "pack") { if (ins[s]) { Sut x; bsdconv_free(bsdconv_pack(ins[s])); } }
			else if (o.k == "lookup") {
				World b = World::now();
				int type = (int)o.N(1), ph = (int)o.N(2), co = (int)o.N(3);
				const char *n = o.S(0).c_str(), *c = o.S(1).c_str();
				std::vector<std::string> parts;
				for (auto &x : split(o.S(1).c_str(), '|')) for (auto &y : split(x, ':')) parts.push_back(y);
				int np = (int)parts.size();
				if (ph < -np || ph > np) ph = 0; // the documented index range
				int at = (ph + np) % np, nc = (int)split(parts[at], ',').size();
				if (co < -nc || co > nc) co = 0;
				switch ((int)o.N(0)) {
				case 0: case 1: { Sut x; bsdconv_module_check(type, n); bsdconv_codec_check(type, n); break; }
				case 2: { char *r; { Sut x; r = bsdconv_solve_alias(type, n); bsdconv_free(r); } break; }
				case 3: case 4: {
					char **l; { Sut x; l = bsdconv_modules_list(type); }
					for (char **q = l; *q; q++) { Sut x; bsdconv_free(*q); }
					{ Sut x; bsdconv_free(l); }
					break;
				}
				case 5: { Sut x; bsdconv_free(bsdconv_insert_phase(c, "UPPER", INTER, ph)); break; }
				case 6: { Sut x; bsdconv_free(bsdconv_insert_codec(c, "ASCII", ph == np ? 0 : ph, co)); break; }
				case 7: { Sut x; bsdconv_free(bsdconv_replace_phase(c, "UPPER", INTER, ph == np ? 0 : ph)); break; }
				default: { Sut x; bsdconv_free(bsdconv_replace_codec(c, "ASCII", ph == np ? 0 : ph, co == nc ? 0 : co)); break; }
				}
				same_world(b, fmt("after lookup %d", (int)o.N(0)) + " \"" + esc(o.S(0)) + "\" \"" + esc(o.S(1), 150) + "\"");
			} else continue;
			did++;
			h = mix(h, hash_str(o.k, mix(s, o.N(2)) * 31 + o.N(3)));
			state(h);
			ev(o.k + fmt(" slot %d", s));
			state_kept(o.k.c_str());
		}
		for (int s = 0; s < 3; s++) if (ins[s]) { for (int k = 0; k < 3; k++) borrows[s][k] = false; release(s); destroy(ins[s]); trail += " \"" + esc(name[s], 150) + "\""; }
	}
	if (did > 4) nontrivial();
	os::faults.clear();
	same_world(base, "after destroying everything" + trail);
	fclose(fp);
}
static RegProp r07({"C07", gen_c07, exec_c07, 6000, 1000000, "distinct operation histories (prefixes)"});
