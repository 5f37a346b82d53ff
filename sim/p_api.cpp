// API-level properties: key/value store, creation failure, resource balance, isolation, memory safety, listing.
#include "p_common.h"
#include <errno.h>

// ---- C11: the key/value store of an instance
static Plan gen_c11(Rng &g, int tier) {
	Plan p;
	static const std::vector<std::string> convs = {"UTF-8:UTF-8", "UTF-8:NFC:UTF-8", "ASCII:ASCII", "UTF-8:WHITESPACE-DERAIL:WHITESPACE-RERAIL:UTF-8", "UTF-8:STRINGS#FOR=CJK:UTF-8"};
	p.add("conv", {}, {g.pick(convs)});
	int n = 3 + g.below(tier ? 120 : 40), keys = 1 + g.below(8);
	for (int i = 0; i < n; i++) {
		static const std::vector<std::string> ks = {"alpha", "beta", "Alpha", "", "k", "kk", "a key with spaces", "gamma"};
		static const std::vector<std::string> kinds = {"set", "set", "get", "has", "del", "get", "del"};
		p.add(g.pick(kinds), {g.chance(12) ? 0 : 1 + (int64_t)g.below(1000)}, {ks[g.below(keys)]});
		if (g.chance(4)) p.add("init");
		if (g.chance(4)) p.add("convert", {}, {"a b\xe4\xb8\xad"});
	}
	return p;
}
static void exec_c11(const Plan &p) {
	struct bsdconv_instance *ins = must(str_of(p, "conv").empty() ? "UTF-8:UTF-8" : str_of(p, "conv"));
	if (!ins) return;
	std::map<std::string, int64_t> model;
	uint64_t h = 0; int n = 0;
	for (auto &o : p.ops) {
		n++;
		const std::string &k = o.S(0);
		std::string at = fmt("operation %d %s \"%s\"", n, o.k.c_str(), esc(k).c_str());
		h = mix(h, hash_str(o.k + k));
		char *key = (char *)malloc(k.size() + 1);
		memcpy(key, k.c_str(), k.size() + 1); // the caller's key lives only during the call
		if (o.k == "set") { Sut s; bsdconv_hash_set(ins, key, (void *)(intptr_t)o.N(0)); model[k] = o.N(0); }
		else if (o.k == "get") {
			void *v; { Sut s; v = bsdconv_hash_get(ins, key); }
			int64_t want = model.count(k) ? model[k] : 0;
			if ((int64_t)(intptr_t)v != want) violation("lookup returned another value", at + fmt(" got %ld want %ld", (long)(intptr_t)v, (long)want));
		} else if (o.k == "has") {
			int v; { Sut s; v = bsdconv_hash_has(ins, key); }
			if (!!v != (model.count(k) > 0)) violation("presence is wrong", at + fmt(" got %d", v));
		} else if (o.k == "del") { Sut s; bsdconv_hash_del(ins, key); model.erase(k); }
		else if (o.k == "init") { Sut s; bsdconv_init(ins); }
		else if (o.k == "convert") run_whole(ins, o.S(0));
		free(key);
		for (auto &m : model) { void *v; { Sut s; v = bsdconv_hash_get(ins, m.first.c_str()); } if ((int64_t)(intptr_t)v != m.second) violation("an entry changed or vanished", at + " key " + esc(m.first)); }
		if (n == (int)p.ops.size()) for (auto &m : model) { int v; { Sut s; v = bsdconv_hash_has(ins, m.first.c_str()); } if (!v) violation("an entry vanished", at + " key " + esc(m.first)); }
		state(h);
	}
	if (n > 3) nontrivial();
	destroy(ins);
}
static RegProp r11({"C11", gen_c11, exec_c11, 8000, 1000000, "distinct operation histories (prefixes)"});

// ---- C13: nothing a caller can pass in corrupts memory, hangs, or lets leftover memory show through
// "packets" input for BSDCONV as source reaches every codec with arbitrary (also ill-formed) internal packets.
static std::string weird_packet(Rng &g) {
	int k = g.below(14);
	if (k > 11) { // every kind, with bytes at the ends of their range
		std::string r(1, (char)(g.chance(90) ? g.below(6) : 0x1b));
		static const unsigned char e[] = {0, 1, 0x7f, 0x80, 0xff};
		for (int i = 0, n = g.below(g.chance(15) ? 40 : 6); i < n; i++) r += (char)e[g.below(5)];
		return r;
	}
	std::string r;
	if (k == 0) return r;
	if (k < 6) { r = "\x01"; int n = g.below(g.chance(20) ? 9 : 4); for (int i = 0; i < n; i++) r += (char)(g.chance(40) ? g.below(256) : g.below(32)); return r; }
	if (k == 6) { r += (char)3; int n = g.below(4); for (int i = 0; i < n; i++) r += (char)g.below(256); return r; }
	if (k == 7) { r += (char)0x1b; static const std::vector<std::string> a = {"[0m", "[1;31m", "[", "", "[10;20H", "]"}; return r + g.pick(a); }
	if (k == 8) { r += (char)2; int n = g.below(7); for (int i = 0; i < n; i++) r += (char)(i == 0 ? 1 + g.below(7) : 0x21 + g.below(94)); return r; }
	if (k == 9) { r += (char)g.below(256); int n = g.below(g.chance(10) ? 300 : 12); for (int i = 0; i < n; i++) r += (char)g.below(256); return r; }
	if (k == 10) { r += (char)(4 + g.below(4)); int n = g.below(6); for (int i = 0; i < n; i++) r += (char)g.below(256); return r; }
	return "\x01" + std::string(1, (char)(0xd8 + g.below(8))) + std::string(1, (char)g.below(256));
}
static Plan gen_c13(Rng &g, int tier) {
	Plan p;
	gen_env(g, p);
	std::string conv;
	int k = g.below(10);
	if (k < 4) { // arbitrary packets straight into filters and targets
		conv = "BSDCONV";
		static const std::vector<std::string> empties = {"INSERT#AFTER=0", "INSERT#BEFORE=0141..0142", "INSERT#AFTER=.0141", "REPLACE#0141=0142..0143", "REPLACE#0141=0", "INSERT#AFTER=01&BEFORE=03", "INSERT#BEFORE=1B.02.01"};
		if (g.chance(20)) conv += ":" + g.pick(empties); // packets without content
		int n = g.below(3);
		for (int i = 0; i < n; i++) { conv += ":" + (g.chance(25) ? odd_codec(g, 1) : gen_inter(g)); if (g.chance(20)) conv += "," + gen_inter(g); }
		conv += ":" + (g.chance(20) ? odd_codec(g, 2) : gen_to(g, g.chance(30)));
		if (g.chance(25)) { auto bare = [](const std::string &c) { return c.substr(0, c.find('#')); }; std::string x = bare(gen_inter(g)), t = bare(g.pick(T.tos)); conv = g.chance(50) ? "BSDCONV:" + x + ":BSDCONV" : "BSDCONV:" + t; } // one codec by itself
		if (g.chance(15)) { auto x = split(conv, ':'); conv += "|" + gen_from(g, g.chance(30)) + ":" + gen_to(g, false); }
	} else if (k < 7) conv = odd_conv(g);
	else conv = g.chance(12) ? gen_focus(g) : gen_conv(g);
	if (g.chance(3)) for (int i = 0, n = g.below(40); i < n; i++) conv.insert(conv.find(':') == std::string::npos ? 0 : conv.find(':'), ":UPPER");
	p.add("conv", {}, {conv});
	int n = 1 + g.below(tier ? 14 : 7);
	for (int i = 0; i < n; i++) {
		std::string in;
		int m = g.below(10);
		if (conv.compare(0, 7, "BSDCONV") == 0 && m < 8) {
			int c = 1 + g.below(8);
			for (int j = 0; j < c; j++) { static const char *d = "0123456789ABCDEFabcdef"; for (unsigned char b : weird_packet(g)) { in += d[b >> 4]; in += d[b & 15]; } in += g.chance(90) ? "," : g.chance(50) ? ",," : ""; }
		} else if (m < 5) in = gen_input(g, conv, 1 + g.below(12));
		else if (m < 6) { int len = g.below(g.chance(10) ? 3000 : 60); for (int j = 0; j < len; j++) in += (char)g.below(256); }
		else if (m < 7) { std::string a = gen_input(g, conv, 1); int reps = 1 + g.below(g.chance(10) ? 400 : 20); for (int j = 0; j < reps && in.size() < 4000; j++) in += a; }
		else if (m < 8 && g.chance(15)) { in = gen_input(g, conv, 2) + "\x1b["; for (int k = g.below(80); k > 0; k--) in += (char)(g.chance(60) ? '0' + g.below(10) : ';'); if (g.chance(70)) in += (char)('A' + g.below(26)); }
		else if (m < 8) in = corrupt(g, gen_input(g, conv, 1 + g.below(12)));
		else if (m < 9) in = "";
		else { int len = 1 + g.below(40); std::string a = gen_input(g, conv, 2); for (int j = 0; j < len; j++) in += a.empty() || g.chance(30) ? (char)(g.chance(50) ? 0x80 + g.below(128) : g.below(128)) : a[g.below(a.size())]; }
		p.add("feed", {(int64_t)g.below(2), (int64_t)g.below(9), g.chance(30) ? 0 : (int64_t)g.below(40), g.chance(35)}, {in});
		if (g.chance(12)) p.add("init");
		if (g.chance(5)) p.add("call", {(int64_t)g.below(9), g.chance(40)});
		if (g.chance(4)) p.add("reset", {}, {g.chance(50) ? "IERR" : "nope"});
	}
	p.add("fill", {1 + (int64_t)g.below(1000)});
	return p;
}
static void c13_once(const Plan &p, uint64_t fill, std::string &log, Counters &cnt) {
	std::string conv = str_of(p, "conv").c_str();
	os::heap_seed = fill;
	struct bsdconv_instance *ins = create(conv);
	if (!ins) { log = "rejected"; return; }
	{ Sut s; bsdconv_init(ins); }
	Keep keep;
	int fd = os::vfd_open_sink("fd");
	FILE *fp = os::sink_file("file");
	setvbuf(fp, nullptr, _IONBF, 0);
	auto call = [&](int mode, size_t size) {
		switch (mode) {
		case BSDCONV_PREMALLOCED: {
			char *b = size ? (char *)malloc(size) : nullptr;
			ins->output_mode = mode; ins->output.data = b; ins->output.len = size;
			{ Sut s; bsdconv(ins); }
			if (size && ins->output.len > size) violation("more bytes reported than the buffer holds", conv + fmt(" %zu > %zu", ins->output.len, size));
			if (size) log += std::string(b, ins->output.len); else log += fmt("[%zu]", ins->output.len);
			free(b);
			break;
		}
		case BSDCONV_HOLD: case BSDCONV_NULL: case BSDCONV_FD: case BSDCONV_FILE:
			ins->output_mode = mode;
			ins->output.data = mode == BSDCONV_FD ? (void *)(intptr_t)fd : mode == BSDCONV_FILE ? (void *)fp : nullptr;
			{ Sut s; bsdconv(ins); }
			break;
		default: log += drain_auto(ins, size % 7);
		}
		log += ";";
	};
	size_t bytes = 0;
	for (auto &o : p.ops) {
		if (o.k == "feed") {
			set_input(ins, o.S(0), o.N(0), keep);
			bytes += o.S(0).size();
			ins->flush = o.N(3) ? 1 : 0;
			call((int)o.N(1), (size_t)std::max<int64_t>(0, o.N(2)) % 4096);
		} else if (o.k == "init") { Sut s; bsdconv_init(ins); }
		else if (o.k == "call") { ins->flush = o.N(1) ? 1 : 0; call((int)o.N(0), 3); }
		else if (o.k == "reset") { Sut s; bsdconv_counter_reset(ins, o.S(0).c_str()); }
	}
	ins->flush = 1;
	log += drain_auto(ins);
	log += "|" + os::sink("fd") + "|" + os::sink("file");
	os::sink("fd").clear(); os::sink("file").clear();
	cnt = counters_of(ins);
	destroy(ins);
	fclose(fp);
	stat("bytes.fed", bytes);
}
static void exec_c13(const Plan &p) {
	apply_env(p);
	FILE *so = stdout;
	stdout = os::sink_file("stdout");
	setvbuf(stdout, nullptr, _IONBF, 0);
	g_step_limit = 60000000;
	std::string a, b; Counters ca, cb;
	const Op *f = p.find("fill");
	std::string conv = str_of(p, "conv");
	os::add_file("/home/.bsdconv.score", "");
	c13_once(p, 0, a, ca);
	auto score = os::inode("/home/.bsdconv.score"); if (score) score->data.clear();
	score = os::inode("/work/score"); if (score) score->data.clear();
	std::string out1 = os::sink("stdout"); os::sink("stdout").clear();
	os::real_stack(); os::stack_seed = f ? 1 + (uint64_t)llabs(f->N(0)) : 1;
	c13_once(p, f ? (uint64_t)f->N(0) * 7919 : 7919, b, cb);
	std::string out2 = os::sink("stdout");
	state(mix(hash_str(conv), g_cov ? g_cov : hash_str(a)));
	ev("log " + a);
	if (a != "rejected" && a.size() > 3) nontrivial();
	if (a != b) violation("result depends on what memory contained before", conv + " one=" + esc(a, 200) + " other=" + esc(b, 200));
	if (!cnt_equal(ca, cb)) violation("counters depend on what memory contained before", conv + " " + show(ca) + "/ " + show(cb));
	(void)out1; (void)out2;
	stdout = so;
}
static RegProp r13({"C13", gen_c13, exec_c13, 12000, 1000000, "distinct (conversion, transcript)"});
