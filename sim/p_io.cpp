// Files the library and its tools keep themselves: score tables, logs, compiled codec tables, module directories.
#include "p_common.h"
#include <dlfcn.h>
#include <errno.h>

// ---------------------------------------------------------------- C16: score table training
// plan: "table" {absent, where} {bytes}; "sess" {fault kind.., } ...
static const char *score_path(int where) { return where == 0 ? "/home/.bsdconv.score" : "/work/score.tab"; }
static std::string u8(uint32_t u) {
	std::string r;
	if (u < 0x80) r += (char)u;
	else if (u < 0x800) { r += (char)(0xc0 | u >> 6); r += (char)(0x80 | (u & 63)); }
	else if (u < 0x10000) { r += (char)(0xe0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
	else { r += (char)(0xf0 | (u >> 18 & 7)); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
	return r;
}
static Plan gen_c16(Rng &g, int tier) {
	Plan p;
	int where = g.below(2);
	std::vector<uint32_t> alpha;
	int na = 2 + g.below(6);
	for (int i = 0; i < na; i++) {
		static const std::vector<int64_t> some = {0x41, 0x42, 0x61, 0x00e9, 0x4e2d, 0x6587, 0xffff, 0x1f600, 0x10ffff, 0x0fff, 0x1000, 0x1001, 0x2000, 0x0, 0x7f, 0x3042, 0x20000};
		alpha.push_back(g.chance(70) ? g.pick(some) : 0x20 + g.below(0x3000));
	}
	std::string tab;
	bool absent = g.chance(30);
	if (!absent) {
		size_t len = g.chance(50) ? 0x50 : g.chance(50) ? 0x2100 : 0x7000;
		tab.assign(len, '\0');
		for (auto u : alpha) if (u < len) tab[u] = (char)g.below(g.chance(10) ? 256 : 4);
		for (int i = 0; i < 6; i++) tab[g.below(len)] = (char)g.below(4);
		if (g.chance(20)) tab.resize(g.below(tab.size() + 1));
	}
	p.add("table", {absent, where}, {tab});
	int n = 1 + g.below(3);
	for (int i = 0; i < n; i++) {
		static const std::vector<std::string> convs = {"UTF-8:SCORE-TRAIN:UTF-8", "UTF-8:UPPER:SCORE-TRAIN:UTF-16LE", "UTF-8:NFC:SCORE-TRAIN:UTF-8", "UTF-8,BYTE:SCORE-TRAIN:UTF-8,ANY#3F", "UTF-8:UTF-16LE|UTF-16LE:SCORE-TRAIN:BSDCONV", "ANSI-CONTROL,UTF-8:SCORE-TRAIN:UTF-8,ANSI-CONTROL", "UTF-8:score-train:NULL", "UTF-8:SCORE-TRAIN:BIG5,3F"};
		std::string in;
		for (int j = 0, m = 1 + g.below(g.chance(20) ? 60 : 12); j < m; j++) {
			if (g.chance(5)) in += (char)(0x80 + g.below(128));
			else if (g.chance(4)) in += "\x1b[1m";
			else in += u8(alpha[g.below(alpha.size())]);
		}
		p.add("sess", {g.chance(30) ? 1 : 0, g.chance(15) ? 1 : 0}, {g.pick(convs), in}); // list attached, other table attached
		p.add("chunks", gen_chunks(g, in.size()));
		int m = g.below(10);
		if (m < 3) p.add("crash", {(int64_t)g.below(30)});
		else if (m < 7) for (int k = 0, q = 1 + g.below(3); k < q; k++) {
			static const std::vector<int64_t> calls = {C_READ, C_READ, C_WRITE, C_WRITE, C_LSEEK, C_LSEEK, C_OPEN, C_CLOSE};
			static const std::vector<int64_t> errs = {EIO, EINTR, ENOSPC, EACCES};
			int c = g.pick(calls);
			bool part = (c == C_READ || c == C_WRITE) && g.chance(25);
			p.add("fault", {c, (int64_t)g.below(g.chance(50) ? 4 : 25), g.chance(75) ? 1 : 30, part ? 0 : g.pick(errs), 1 + (int64_t)g.below(100)});
		}
		else if (m == 7) p.add("disk", {(int64_t)g.below(4000)});
	}
	return p;
}
static void exec_c16(const Plan &p) {
	const Op *t = p.find("table");
	int where = t ? (int)llabs(t->N(1)) % 2 : 0;
	std::string path = score_path(where);
	if (where) os::env["BSDCONV_SCORE"] = path;
	if (t && !t->N(0)) os::add_file(path, t->S(0));
	os::add_file("/work/other.tab", "");
	auto tab = [&](const std::string &f) { Inode *i = os::inode(f); return i ? i->data : std::string(); };
	uint64_t h = 0;
	for (size_t i = 0; i < p.ops.size(); i++) {
		const Op &o = p.ops[i];
		if (o.k != "sess") continue;
		std::string conv = o.S(0).c_str(), in = o.S(1), pre, plain;
		size_t k = 0;
		{ std::string up; for (char c : conv) up += toupper(c); k = up.find(":SCORE-TRAIN"); }
		if (k == std::string::npos) continue;
		pre = conv.substr(0, k) + ":UTF-32BE";
		plain = conv.substr(0, k) + conv.substr(k + strlen(":SCORE-TRAIN"));
		std::vector<int64_t> chunks;
		os::faults.clear(); os::crash_at = -1; os::disk_free = -1; os::sysno = 0;
		memset(os::fired, 0, sizeof os::fired); memset(os::calls, 0, sizeof os::calls);
		Outcome seen = one_shot(pre, in), text = one_shot(plain, in);
		std::string lower = tab(path), upper, news, other0 = tab("/work/other.tab"), own0 = lower;
		bool other = o.N(1), list = o.N(0);
		if (other) lower = other0;
		upper = lower;
		std::map<uint32_t, int> occ;
		for (size_t j = 0; j + 3 < seen.out.size(); j += 4) {
			uint32_t u = 0; for (int b = 0; b < 4; b++) u = u << 8 | (unsigned char)seen.out[j + b];
			if (u >= upper.size()) upper.resize(u + 1, '\0');
			if (upper[u] == 0) news += seen.out.substr(j, 4);
			if ((unsigned char)upper[u] < 3) upper[u]++;
		}
		for (size_t j = i + 1; j < p.ops.size() && p.ops[j].k != "sess"; j++) {
			const Op &f = p.ops[j];
			if (f.k == "chunks") chunks = f.n;
			if (f.k == "crash") os::crash_at = f.N(0);
			if (f.k == "disk") os::disk_free = std::max<int64_t>(0, f.N(0));
			if (f.k == "fault" && f.N(0) >= 0 && f.N(0) < C_NCALLS) {
				FaultRule r{(int)f.N(0), f.N(1), std::max<int64_t>(1, f.N(2)), (int)f.N(3), std::max<int64_t>(1, f.N(4, 1)), where || other ? "/work/" : "/home/"};
				if (r.call != C_READ && r.call != C_WRITE && !r.err) r.err = EIO;
				os::faults.push_back(r);
			}
		}
		std::string out; bool made = false; Counters cnt;
		std::string listname = "list" + std::to_string(i);
		int rc = run_process([&] {
			struct bsdconv_instance *ins = bsdconv_create(conv.c_str());
			{ Harness hh; made = ins != nullptr; }
			if (!ins) return 1;
			FILE *lf = nullptr, *of = nullptr;
			if (list) { { Harness hh; lf = os::sink_file(listname); } bsdconv_ctl(ins, BSDCONV_CTL_ATTACH_OUTPUT_FILE, lf, 0); }
			if (other) { of = fopen("/work/other.tab", "rb+"); if (of) bsdconv_ctl(ins, BSDCONV_CTL_ATTACH_SCORE, of, 0); else { bsdconv_destroy(ins); { Harness hh; made = false; } return 1; } }
			bsdconv_init(ins);
			for (auto &c : cut(in, chunks)) {
				void *m = bsdconv_malloc(c.size() + 1);
				memcpy(m, c.data(), c.size());
				ins->input.data = m; ins->input.len = c.size(); ins->input.flags = F_FREE; ins->input.next = nullptr;
				ins->flush = 0; ins->output_mode = BSDCONV_AUTOMALLOC; ins->output.len = 0;
				bsdconv(ins);
				{ Harness hh; out.append((char *)ins->output.data, ins->output.len); }
				bsdconv_free(ins->output.data);
			}
			ins->flush = 1; ins->output_mode = BSDCONV_AUTOMALLOC; ins->output.len = 0;
			bsdconv(ins);
			{ Harness hh; out.append((char *)ins->output.data, ins->output.len); cnt = counters_of(ins); }
			bsdconv_free(ins->output.data);
			bsdconv_destroy(ins);
			if (of) fclose(of);
			if (lf) fclose(lf);
			return 0;
		});
		os::process_end(rc == -1);
		uint64_t nf = 0;
		for (int c = 0; c < C_NCALLS; c++) nf += os::fired[c];
		std::string after = tab(other ? "/work/other.tab" : path), at = conv + " in=" + esc(in) + fmt(" rc=%d faults=%lu ", rc, (unsigned long)nf);
		ev(at + out);
		if (!made && rc != -1 && !nf) violation("training could not start though nothing failed", at);
		size_t n = std::max(after.size(), std::max(lower.size(), upper.size()));
		auto e = [](const std::string &s, size_t j) { return j < s.size() ? (unsigned char)s[j] : 0; };
		for (size_t j = 0; j < n; j++) {
			int a = e(after, j), lo = e(lower, j), up = e(upper, j);
			if (a < lo) violation("a count went down", at + fmt("U+%04lX %d -> %d", (unsigned long)j, lo, a));
			if (a > up) violation("a count is higher than the occurrences justify", at + fmt("U+%04lX %d -> %d, at most %d", (unsigned long)j, lo, a, up));
			if (rc == 0 && !nf && a != up) violation("an occurrence was not counted", at + fmt("U+%04lX %d -> %d instead of %d", (unsigned long)j, lo, a, up));
			h = mix(h, a + (j << 8));
		}
		if (after.size() < lower.size()) violation("the table got shorter", at);
		if (other && tab(path) != own0) violation("the table that was not attached changed", at);
		if (!other && tab("/work/other.tab") != other0) violation("another table changed", at);
		if (rc == 0) {
			if (out != text.out) violation("training changed the text", at + "want=" + esc(text.out) + " got=" + esc(out));
			if (!cnt_equal(cnt, text.cnt)) violation("training changed the counters", at);
			if (list && !nf && os::sink(listname) != news) violation("the list of new characters is wrong", at + " want=" + esc(news) + " got=" + esc(os::sink(listname)));
			if (list && nf) { // each new character at most once
				std::set<std::string> once;
				std::string l = os::sink(listname);
				for (size_t j = 0; j + 3 < l.size(); j += 4) if (news.find(l.substr(j, 4)) == std::string::npos) violation("a known character is listed as new", at + esc(l));
			}
		}
		if (rc != 0 || nf) nontrivial();
		state(h);
		os::faults.clear(); os::crash_at = -1; os::disk_free = -1;
		// what was learned is what scoring uses
		if (!other) {
			std::string cur = tab(path);
			uint64_t want = 0;
			for (size_t j = 0; j + 3 < seen.out.size(); j += 4) { uint32_t u = 0; for (int b = 0; b < 4; b++) u = u << 8 | (unsigned char)seen.out[j + b]; want += e(cur, u); }
			Outcome sc = one_shot(conv.substr(0, k) + ":SCORE#WITH=TRAINED:UTF-32BE", in);
			if (os::exists(path) && sc.cnt["SCORE"] != want) violation("scoring does not use the trained table", at + fmt("score %lu instead of %lu", (unsigned long)sc.cnt["SCORE"], (unsigned long)want));
			if (tab(path) != cur) violation("scoring changed the table", at);
		}
	}
}
static RegProp r16({"C16", gen_c16, exec_c16, 8000, 1000000, "distinct table contents after each session"});
