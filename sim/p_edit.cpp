// Conversion strings as data: editing them by phase and codec, and packing them from an instance.
#include "p_common.h"

struct Phase { int type; std::vector<std::string> codecs; };
typedef std::vector<Phase> Conv;
static bool read_conv(const std::string &s, Conv &c) { // only strings every segment of which reads, and writes
	c.clear();
	for (auto &st : split(s, '|')) {
		auto ph = split(st, ':');
		if (ph.size() < 2) return false;
		for (size_t i = 0; i < ph.size(); i++) {
			c.push_back({i == 0 ? FROM : i + 1 == ph.size() ? TO : INTER, split(ph[i], ',')});
			for (auto &x : c.back().codecs) if (x.empty() || x[0] == '#' || x.back() == '#') return false;
		}
	}
	return true;
}
static std::string write_conv(const Conv &c) {
	std::string r;
	for (size_t i = 0; i < c.size(); i++) {
		if (i) r += c[i].type == FROM ? "|" : ":";
		for (size_t j = 0; j < c[i].codecs.size(); j++) r += (j ? "," : "") + c[i].codecs[j];
	}
	return r;
}
static Plan gen_c23(Rng &g, int tier) {
	Plan p;
	std::string conv = gen_conv(g);
	if (g.chance(30)) { // long ones, names that need not exist
		conv.clear();
		for (int s = 1 + g.below(3); s > 0; s--) {
			if (!conv.empty()) conv += "|";
			for (int i = 0, n = 2 + g.below(4); i < n; i++) {
				if (i) conv += ":";
				for (int j = 0, m = 1 + g.below(4); j < m; j++) { if (j) conv += ","; conv += std::string(1 + g.below(9), 'A' + g.below(26)); if (g.chance(30)) conv += "#x=1&Y"; }
			}
		}
	}
	p.add("conv", {}, {conv});
	static const std::vector<std::string> names = {"UTF-8", "upper", "ANY#3F&ERROR", "A", "X#1=2&3=4.5", "big5,ascii", "NFC", "utf-16le,any#013f", "PASS#FOR=CJK", "ALongerNameThanMost"};
	int64_t len = 4;
	for (int i = 0, n = g.below(tier ? 10 : 5); i < n; i++) {
		static const std::vector<std::string> ops = {"insert-phase", "insert-phase", "replace-phase", "insert-codec", "replace-codec"};
		const std::string &o = g.pick(ops);
		p.add(o, {g.range(-len, len), g.range(-4, 4), (int64_t)g.below(3)}, {g.pick(names)});
	}
	std::string in = gen_input(g, conv, 1 + g.below(8), false);
	p.add("in", {}, {in});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	return p;
}
static std::string taken(char *s, const std::string &at) {
	if (!s) violation("editing a conversion string failed", at);
	std::string r = s;
	{ Sut z; bsdconv_free(s); }
	return r;
}
static Outcome convert(struct bsdconv_instance *ins, const Plan &p, const std::string &in) {
	Keep keep; Outcome o;
	Feed f = feed_of(p, in);
	for (size_t i = 0; i < f.chunks.size(); i++) { set_input(ins, f.chunks[i], owns(f.own_seed, i), keep); ins->flush = 0; o.out += drain_auto(ins); }
	ins->flush = 1;
	o.out += drain_auto(ins);
	o.cnt = counters_of(ins);
	return o;
}
static void exec_c23(const Plan &p) {
	std::string cur = str_of(p, "conv").c_str(), in = str_of(p, "in");
	Conv c;
	if (!read_conv(cur, c)) return;
	uint64_t h = hash_str(cur);
	static const int types[] = {INTER, FROM, TO};
	int64_t live = live_allocs();
	for (auto &o : p.ops) {
		bool ip = o.k == "insert-phase", rp = o.k == "replace-phase", ic = o.k == "insert-codec", rc = o.k == "replace-codec";
		if (!ip && !rp && !ic && !rc) continue;
		if (!read_conv(cur, c)) break; // an edit made a segment of one phase: what it is depends on its neighbours
		const std::string &name = o.S(0);
		int64_t n = c.size(), ph = o.N(0), cd = o.N(1);
		if (ph < -n || ph > n || (ph == n && !ip)) continue; // no such phase
		size_t i = ph < 0 ? ph + n : ph;
		int type = types[o.N(2) % 3];
		std::string at = cur + fmt(" %s %ld %ld ", o.k.c_str(), (long)ph, (long)cd) + name + (type == FROM ? " FROM" : type == TO ? " TO" : " INTER");
		char *r;
		if (ip || rp) {
			if (ip) c.insert(c.begin() + i, Phase{type, {name}}); else c[i] = Phase{type, {name}};
			{ Sut s; r = ip ? bsdconv_insert_phase(cur.c_str(), name.c_str(), type, ph) : bsdconv_replace_phase(cur.c_str(), name.c_str(), type, ph); }
		} else {
			int64_t m = c[i].codecs.size();
			if (cd < -m || cd > m || (cd == m && rc)) continue;
			size_t j = cd < 0 ? cd + m : cd;
			if (ic) c[i].codecs.insert(c[i].codecs.begin() + j, name); else c[i].codecs[j] = name;
			{ Sut s; r = ic ? bsdconv_insert_codec(cur.c_str(), name.c_str(), ph, cd) : bsdconv_replace_codec(cur.c_str(), name.c_str(), ph, cd); }
		}
		std::string got = taken(r, at), want = write_conv(c);
		if (got != want) violation("an edit changed another part of the conversion, or not its own", at + " want=" + want + " got=" + got);
		h = mix(h, hash_str(got));
		cur = got;
		state(h);
		nontrivial();
	}
	if (live_allocs() != live) violation("editing keeps memory", fmt("%ld blocks", (long)(live_allocs() - live)));
	// An instance packs into a string that means the same.
	if (!read_conv(cur, c)) return;
	struct bsdconv_instance *a = create(cur), *b;
	if (!a) return;
	char *s;
	{ Sut z; s = bsdconv_pack(a); }
	std::string packed = taken(s, cur), again;
	{ Sut z; s = bsdconv_pack(a); }
	again = taken(s, cur);
	if (again != packed) violation("packing changed the instance", cur + " packed=" + packed + " again=" + again);
	if (!(b = create(packed))) violation("what an instance packs into is not a conversion", cur + " packed=" + packed);
	{ Sut z; s = bsdconv_pack(b); }
	again = taken(s, packed);
	if (again != packed) violation("packing is not stable", cur + " packed=" + packed + " again=" + again);
	{ Sut z; bsdconv_init(a); bsdconv_init(b); }
	Outcome x = convert(a, p, in), y = convert(b, p, in);
	destroy(a); destroy(b);
	nontrivial();
	state(mix(h, hash_str(in)));
	ev("out " + x.out);
	if (x.out != y.out) violation("what an instance packs into converts differently", cur + " packed=" + packed + " in=" + esc(in) + " want=" + esc(x.out) + " got=" + esc(y.out));
	if (!cnt_equal(x.cnt, y.cnt)) violation("what an instance packs into counts differently", cur + " packed=" + packed + " in=" + esc(in));
}
static RegProp r23({"C23", gen_c23, exec_c23, 20000, 1000000, "distinct (conversion, edits) histories"});
