// Several instances at once: interleaved by call and by caller threads preempted between any two basic blocks.
#include "p_common.h"
#include <errno.h>

// ---------------------------------------------------------------- C09: instances do not influence each other
// plan: "sess" {thread, flags} {conv, input} + following "chunks"; "look" {thread, kind, type} {name}; "sw" {after, to, ...}
static Plan gen_c09(Rng &g, int tier) {
	Plan p;
	int threads = 2 + g.below(2), n = threads + g.below(3);
	bool focus = g.chance(45); // the same small conversion everywhere, switched between often
	std::string c0 = focus ? gen_focus(g) : gen_conv(g);
	for (int i = 0; i < n; i++) {
		std::string conv;
		if (focus || g.chance(45)) conv = c0; // the same modules on both sides
		else if (g.chance(40)) { // some codecs in common
			std::vector<std::string> a = split(c0, ':'), b = split(gen_conv(g), ':');
			if (g.chance(50)) conv = a[0] + ":" + b.back(); else conv = b[0] + ":" + a.back();
			if (a.size() > 2 && conv.find('|') == std::string::npos) { auto x = split(conv, ':'); conv = x[0] + ":" + a[1 + g.below(a.size() - 2)] + ":" + x[1]; }
			if (conv.find('|') != std::string::npos) conv = gen_conv(g);
		} else conv = gen_conv(g);
		std::string in = focus ? gen_input(g, conv, 5 + g.below(30), true) : gen_input(g, conv, 1 + g.below(10));
		p.add("sess", {i < threads ? i : (int64_t)g.below(threads), (int64_t)g.below(8)}, {conv, in});
		p.add("chunks", gen_chunks(g, in.size()));
		if (g.chance(35)) {
			static const std::vector<std::string> names = {"UTF-8", "utf-8", "NOPE", "NFC", "_NFC", "CJK", "BIG5", "alias", "big5", "EUC-JP"};
			p.add("look", {(int64_t)g.below(threads), (int64_t)g.below(4), 1 + (int64_t)g.below(5)}, {g.pick(names)});
		}
	}
	std::vector<int64_t> sw;
	if (focus) {
		bool early = g.chance(70);
		if (early) p.add("early");
		sw.push_back(1 + g.below(early ? 1000 : 20000)); sw.push_back(g.below(threads));
		int step = 2 + g.below(60);
		for (int i = 0, k = 50 + g.below(tier ? 2000 : 900); i < k; i++) { sw.push_back(1 + g.below(step)); sw.push_back(g.below(threads)); }
		p.add("sw", sw);
		return p;
	}
	int m = 4 + g.below(tier ? 400 : 150), scale = g.chance(30) ? 30 : g.chance(50) ? 300 : 3000;
	for (int i = 0; i < m; i++) { sw.push_back(1 + g.below(g.chance(20) ? scale * 10 : scale)); sw.push_back(g.below(threads)); }
	p.add("sw", sw);
	return p;
}
struct Sess { int thread; int flags; std::string conv, in; std::vector<std::string> pieces; Outcome want, got; bool ok = false, made = false; struct bsdconv_instance *ins = nullptr; };
struct Look { int thread, kind, type; std::string name, want, got; };
static std::string look(const Look &l) {
	std::string r;
	if (l.kind == 0) { Sut s; r = bsdconv_module_check(l.type, l.name.c_str()) ? "yes" : "no"; }
	else if (l.kind == 1) { char *a; { Sut s; a = bsdconv_solve_alias(l.type > 4 ? 1 : l.type, l.name.c_str()); } r = a ? a : "(none)"; { Sut s; bsdconv_free(a); } }
	else if (l.kind == 2) { char **v; { Sut s; v = bsdconv_modules_list(l.type); } for (char **q = v; *q; q++) { r += std::string(*q) + " "; Sut s; bsdconv_free(*q); } { Sut s; bsdconv_free(v); } }
	else { char *a; { Sut s; a = bsdconv_insert_codec("UTF-8:NFC:UTF-8", l.name.c_str(), 1, 0); } r = a ? a : "(none)"; { Sut s; bsdconv_free(a); } }
	return r;
}
static void session(Sess &s) {
	struct bsdconv_instance *ins = s.ins ? s.ins : create(s.conv);
	s.ins = nullptr;
	s.made = ins != nullptr;
	if (!ins) return;
	{ Sut x; bsdconv_init(ins); }
	Keep keep;
	for (size_t i = 0; i < s.pieces.size(); i++) {
		set_input(ins, s.pieces[i], owns(s.flags % 5, i), keep);
		ins->flush = 0;
		s.got.out += drain_auto(ins);
	}
	ins->flush = 1;
	s.got.out += drain_auto(ins);
	s.got.cnt = counters_of(ins);
	destroy(ins);
}
static void exec_c09(const Plan &p) {
	std::vector<Sess> ss; std::vector<Look> ls;
	std::vector<std::pair<int, int>> order; // 0 session, 1 lookup
	int threads = 0;
	std::vector<sched::Switch> sw;
	for (auto &o : p.ops) {
		int th = (int)(((o.N(0) % 3) + 3) % 3);
		if (o.k == "sess") {
			Sess s; s.thread = th; s.flags = (int)llabs(o.N(1)); s.conv = o.S(0).c_str(); s.in = o.S(1);
			s.pieces = cut(s.in, {});
			order.push_back({0, (int)ss.size()}); ss.push_back(s); threads = std::max(threads, th + 1);
		} else if (o.k == "chunks" && !ss.empty()) ss.back().pieces = cut(ss.back().in, o.n);
		else if (o.k == "look") { Look l{th, (int)llabs(o.N(1)) % 4, 1 + (int)llabs(o.N(2) - 1) % 5, o.S(0).c_str()}; order.push_back({1, (int)ls.size()}); ls.push_back(l); threads = std::max(threads, th + 1); }
		else if (o.k == "sw") for (size_t i = 0; i + 1 < o.n.size(); i += 2) sw.push_back({std::max<int64_t>(1, o.n[i]), (int)llabs(o.n[i + 1])});
	}
	// what each gives alone, in a library freshly loaded; and where it changes data that everybody shares
	std::vector<std::vector<int64_t>> hits(order.size()), len(order.size());
	bool shared = false;
	for (size_t i = 0; i < order.size(); i++) {
		int64_t n = 0;
		watch::reset();
		if (order[i].first == 0) {
			auto &s = ss[order[i].second];
			struct bsdconv_instance *ins = create(s.conv);
			s.ok = ins != nullptr;
			if (!ins) { stat("conv.rejected"); continue; }
			destroy(ins);
			watch::reset();
			watch::begin();
			session(s);
			hits[i] = watch::end(n);
			s.want = s.got; s.got = Outcome(); s.made = false;
		} else {
			auto &l = ls[order[i].second];
			watch::begin();
			l.want = look(l);
			hits[i] = watch::end(n);
		}
		len[i] = {n};
		if (!hits[i].empty()) shared = true;
	}
	if (threads < 1) return;
	auto judge = [&](bool all, size_t a, size_t b, const std::string &how) {
		for (size_t i = 0; i < order.size(); i++) {
			if (!all && i != a && i != b) continue;
			if (order[i].first == 0) {
				auto &s = ss[order[i].second];
				if (!all && !s.ok) continue;
				if (s.made != s.ok) violation("an instance could not be created beside others", s.conv + how);
				if (s.got.out != s.want.out) violation("output is influenced by another instance", s.conv + " in=" + esc(s.in) + " alone=" + esc(s.want.out) + " beside others=" + esc(s.got.out) + how);
				if (!cnt_equal(s.got.cnt, s.want.cnt)) violation("counters are influenced by another instance", s.conv + " in=" + esc(s.in) + " alone=" + show(s.want.cnt) + " beside others=" + show(s.got.cnt) + how);
			} else {
				auto &l = ls[order[i].second];
				if (l.got != l.want) violation("a lookup is influenced by other threads", fmt("kind %d type %d ", l.kind, l.type) + l.name + " alone=" + esc(l.want, 300) + " beside others=" + esc(l.got, 300) + how);
			}
		}
	};
	// Changed data is not wrong in itself, but it says where a switch may matter: two at a time, switching there.
	if (shared) {
		stat("conc.shared");
		uint64_t x = hash_str(plan_to_text(p));
		auto rnd = [&](size_t n) { x = mix(x, 77); return (size_t)(x % n); };
		for (int k = 0; k < 30; k++) {
			size_t a = rnd(order.size()), b = rnd(order.size());
			if (a == b || hits[a].empty() || (order[a].first == 0 && !ss[order[a].second].ok) || (order[b].first == 0 && !ss[order[b].second].ok)) continue;
			std::vector<sched::Switch> w;
			int64_t ca = hits[a][rnd(hits[a].size())] + (rnd(3) ? 0 : (int64_t)rnd(40));
			w.push_back({ca, 1});
			if (!hits[b].empty() && rnd(2)) { w.push_back({hits[b][rnd(hits[b].size())] + (rnd(3) ? 0 : (int64_t)rnd(40)), 0}); if (rnd(2)) w.push_back({1 + (int64_t)rnd(200), 1}); }
			auto go = [&](size_t i) { if (order[i].first == 0) { auto &s = ss[order[i].second]; s.got = Outcome(); s.made = false; session(s); } else ls[order[i].second].got = look(ls[order[i].second]); };
			watch::reset();
			sched::run({[&, a] { go(a); }, [&, b] { go(b); }}, w);
			stat("conc.targeted");
			std::string how = " switches:";
			for (auto &s : w) how += fmt(" %ld>%d", (long)s.after, s.to);
			judge(false, a, b, how);
		}
		for (auto &s : ss) { s.got = Outcome(); s.made = false; }
	}
	watch::reset();
	if (p.find("early")) for (auto &s : ss) s.ins = create(s.conv); // the threads start with their instances made
	std::vector<std::function<void()>> bodies;
	for (int t = 0; t < threads; t++) bodies.push_back([&, t] {
		for (auto &o : order) {
			if (o.first == 0 && ss[o.second].thread == t) session(ss[o.second]);
			if (o.first == 1 && ls[o.second].thread == t) ls[o.second].got = look(ls[o.second]);
		}
	});
	sched::run(bodies, sw);
	stat("preemptions", sched::switches);
	state(sched::ihash);
	ev(fmt("switches %lu", (unsigned long)sched::switches));
	for (auto &s : ss) ev("out " + s.got.out);
	judge(true, 0, 0, "");
	if (sched::switches > 1 && threads > 1) nontrivial();
}
static RegProp r09({"C09", gen_c09, exec_c09, 8000, 1000000, "distinct interleavings (sequence of preemption points and threads)"});
