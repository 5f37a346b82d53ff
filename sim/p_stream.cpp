// Streaming properties: arrival schedules, output modes, sink faults, reset, counters, cascades, endless streams.
#include "p_common.h"
#include <errno.h>

// ---- C01: what arrives decides the result, not how it arrives
static Plan gen_c01(Rng &g, int tier) { Plan p; gen_common(g, p, tier); return p; }
static void exec_c01(const Plan &p) {
	std::string conv = p.find("conv") ? p.find("conv")->S(0) : "", in = p.find("in") ? p.find("in")->S(0) : "";
	struct bsdconv_instance *ins = must(conv);
	if (!ins) return;
	Outcome ref = one_shot(conv, in);
	Feed f = feed_of(p, in);
	Keep keep;
	std::string out;
	size_t n = f.chunks.size();
	for (size_t i = 0; i < n; i++) {
		set_input(ins, f.chunks[i], owns(f.own_seed, i), keep);
		ins->flush = (i + 1 == n && f.flush_style == 0) ? 1 : 0;
		out += drain_auto(ins);
		ev(fmt("chunk %zu -> %zu", f.chunks[i].size(), out.size()));
	}
	if (f.flush_style != 0 || n == 0) {
		if (f.flush_style == 2) set_input(ins, "", true, keep);
		ins->flush = 1;
		out += drain_auto(ins);
	}
	Counters c = counters_of(ins);
	stat("chunks", n);
	state(sched_hash(conv, f));
	if (n > 1 && !in.empty()) nontrivial();
	ev("out " + out);
	if (out != ref.out) violation("output differs by arrival schedule", conv + " in=" + esc(in) + " whole=" + esc(ref.out) + " chunked=" + esc(out));
	if (!cnt_equal(c, ref.cnt)) violation("counters differ by arrival schedule", conv + " in=" + esc(in) + " whole=" + show(ref.cnt) + " chunked=" + show(c));
	destroy(ins);
}
static RegProp r01({"C01", gen_c01, exec_c01, 24000, 2000000, "distinct (conversion, chunk-length sequence, flush style)"});

// ---- C02: every way of taking output delivers the same bytes, once and in order
// A twin instance fed identically and drained after every call tells how many bytes each call produces; a byte queue is
// the reference model of what is waiting.  drain op: mode, size.
static Plan gen_c02(Rng &g, int tier) {
	Plan p;
	gen_common(g, p, tier);
	size_t n = p.find("chunks")->n.size() + 2;
	int style = g.below(4);
	for (size_t i = 0; i < n; i++) {
		int mode;
		if (style == 0) mode = g.below(7);
		else if (style == 1) mode = g.chance(50) ? BSDCONV_HOLD : BSDCONV_PREMALLOCED;
		else if (style == 2) mode = BSDCONV_PREMALLOCED;
		else mode = g.chance(60) ? BSDCONV_PASS : BSDCONV_HOLD;
		if (mode == BSDCONV_NULL && g.chance(70)) mode = BSDCONV_FD;
		p.add("drain", {mode, g.chance(25) ? 0 : (int64_t)g.below(g.chance(30) ? 200 : 24)});
	}
	static const std::vector<std::string> second = {"BYTE:BYTE", "UTF-8:UTF-8", "UTF-8:UTF-16LE", "ASCII:ASCII", "BYTE:RAW", "UTF-8:NFC:UTF-8", "GBK:UTF-8", "UTF-8,BYTE:BSDCONV", "JIS:UTF-8", "BSDCONV:UTF-8"};
	p.add("second", {}, {g.pick(second)});
	return p;
}
static void exec_c02(const Plan &p) {
	std::string conv = str_of(p, "conv"), in = str_of(p, "in"), second = str_of(p, "second");
	struct bsdconv_instance *ins = must(conv), *twin = must(conv), *down = must(second.empty() ? "BYTE:BYTE" : second);
	if (!ins || !twin || !down) return;
	Feed f = feed_of(p, in);
	std::vector<const Op *> dr;
	for (auto &o : p.ops) if (o.k == "drain") dr.push_back(&o);
	std::vector<std::pair<std::string, int>> calls; // data, flags: 1 has input, 2 flush
	for (size_t i = 0; i < f.chunks.size(); i++) calls.push_back({f.chunks[i], 1 | (i + 1 == f.chunks.size() && f.flush_style == 0 ? 2 : 0)});
	if (f.flush_style != 0 || calls.empty()) calls.push_back({"", f.flush_style == 2 ? 3 : 2});
	while (calls.size() < dr.size()) calls.push_back({"", 2}); // drain the rest piecemeal
	std::string queue, passed, downout, fdsink, filesink;
	size_t fdpos = 0, filepos = 0;
	int fd = os::vfd_open_sink("fd");
	FILE *fp = os::sink_file("file");
	if (const Op *fl = p.find("short")) os::faults.push_back(FaultRule{C_WRITE, 0, 0, 0, fl->N(0), ""});
	Keep keep;
	uint64_t h = hash_str(conv);
	bool usednull = false;
	for (size_t i = 0; i < calls.size(); i++) {
		bool has = calls[i].second & 1, fl = calls[i].second & 2;
		if (has) { set_input(ins, calls[i].first, owns(f.own_seed, i), keep); set_input(twin, calls[i].first, true, keep); }
		ins->flush = twin->flush = fl;
		queue += drain_auto(twin);
		int mode = i < dr.size() ? (int)dr[i]->N(0) : BSDCONV_AUTOMALLOC;
		size_t size = i < dr.size() ? (size_t)std::max<int64_t>(0, dr[i]->N(1)) : 0;
		h = mix(mix(h, mode), size);
		ev(fmt("call %zu mode %d size %zu queued %zu", i, mode, size, queue.size()));
		std::string at = fmt("%s in=%s call=%zu mode=%d size=%zu ", conv.c_str(), esc(in).c_str(), i, mode, size);
		auto take = [&](const std::string &got, const char *how) {
			if (queue.compare(0, got.size(), got) || got.size() > queue.size())
				violation("delivered bytes are not the next bytes of the stream", at + how + " got=" + esc(got) + " waiting=" + esc(queue));
			queue.erase(0, got.size());
		};
		switch (mode) {
		case BSDCONV_HOLD:
			ins->output_mode = BSDCONV_HOLD;
			{ Sut s; bsdconv(ins); }
			if (ins->output.len) violation("output reported while holding", at);
			break;
		case BSDCONV_PREMALLOCED: {
			ins->output_mode = BSDCONV_PREMALLOCED;
			char *b = size ? (char *)malloc(size) : nullptr;
			ins->output.data = b; ins->output.len = size;
			{ Sut s; bsdconv(ins); }
			if (!size) {
				if (ins->output.len != queue.size()) violation("size query is wrong", at + fmt("answer=%zu waiting=%zu", ins->output.len, queue.size()));
				if (ins->output.len) { // a buffer of exactly the announced size takes everything
					size_t want = ins->output.len;
					b = (char *)malloc(want);
					ins->output_mode = BSDCONV_PREMALLOCED; ins->output.data = b; ins->output.len = want;
					ins->flush = fl;
					{ Sut s; bsdconv(ins); }
					if (ins->output.len != want) violation("buffer of the announced size is not filled", at + fmt("announced=%zu delivered=%zu", want, ins->output.len));
					take(std::string(b, want), "query");
				}
			} else {
				if (ins->output.len > size) violation("more bytes reported than the buffer holds", at);
				take(std::string(b, ins->output.len), "premalloced");
			}
			free(b);
			break;
		}
		case BSDCONV_FD:
			ins->output_mode = BSDCONV_FD; ins->output.data = (void *)(intptr_t)fd;
			{ Sut s; bsdconv(ins); }
			{ std::string got = os::sink("fd").substr(fdpos); fdpos += got.size(); take(got, "fd"); if (!queue.empty()) violation("output left behind by a writable descriptor", at + esc(queue)); }
			break;
		case BSDCONV_FILE:
			ins->output_mode = BSDCONV_FILE; ins->output.data = fp;
			{ Sut s; bsdconv(ins); }
			fflush(fp);
			{ std::string got = os::sink("file").substr(filepos); filepos += got.size(); take(got, "file"); if (!queue.empty()) violation("output left behind by a writable stream", at + esc(queue)); }
			break;
		case BSDCONV_NULL:
			ins->output_mode = BSDCONV_NULL; ins->output.data = nullptr;
			{ Sut s; bsdconv(ins); }
			queue.clear(); usednull = true;
			break;
		case BSDCONV_PASS: {
			ins->output_mode = BSDCONV_PASS; ins->output.data = down;
			down->input.data = nullptr; down->input.len = 0; down->input.flags = 0; down->input.next = nullptr;
			{ Sut s; bsdconv(ins); }
			passed += queue; queue.clear();
			down->flush = 0;
			downout += drain_auto(down);
			break;
		}
		default: {
			std::string got;
			got = drain_auto(ins, size % 7);
			take(got, "automalloc");
			if (!queue.empty()) violation("automalloc left output behind", at + esc(queue));
		}
		}
	}
	ins->flush = 1;
	std::string rest = drain_auto(ins);
	if (rest != queue) violation("remaining output differs", conv + " in=" + esc(in) + " got=" + esc(rest) + " want=" + esc(queue));
	if (!cnt_equal(counters_of(ins), counters_of(twin))) violation("counters differ by output mode", conv + " in=" + esc(in) + " " + show(counters_of(ins)) + "/ " + show(counters_of(twin)));
	if (!passed.empty()) {
		down->flush = 1;
		downout += drain_auto(down);
		Outcome o = one_shot(second.empty() ? "BYTE:BYTE" : second, passed);
		if (downout != o.out || !cnt_equal(counters_of(down), o.cnt))
			violation("handing output to the next instance changed it", conv + " then " + second + " in=" + esc(in) + " passed=" + esc(passed) + " got=" + esc(downout) + " want=" + esc(o.out));
		stat("passed.bytes", passed.size());
	}
	state(h);
	if (dr.size() > 1 && !in.empty()) nontrivial();
	destroy(ins); destroy(twin); destroy(down);
	fclose(fp);
}
static RegProp r02({"C02", gen_c02, exec_c02, 12000, 2000000, "distinct (conversion, sequence of output mode and buffer size)"});

// ---- C03: a sink that stalls, takes part of the data or fails never corrupts, duplicates or loses converted data
static Plan gen_c03(Rng &g, int tier) {
	Plan p;
	gen_common(g, p, tier);
	p.add("sink", {g.chance(70) ? BSDCONV_FD : BSDCONV_FILE, (int64_t)g.below(6)}); // kind, buffering of the FILE and whether its user clears errors
	int n = 1 + g.below(4);
	for (int i = 0; i < n; i++) {
		static const std::vector<int64_t> errs = {EINTR, ENOSPC, EIO, EAGAIN, EINTR, 0, 0, 0};
		p.add("fault", {g.pick(errs), (int64_t)g.below(12), 1 + (int64_t)g.below(g.chance(20) ? 30 : 4), 1 + (int64_t)g.below(4)});
	}
	return p;
}
static void exec_c03(const Plan &p) {
	std::string conv = str_of(p, "conv"), in = str_of(p, "in");
	struct bsdconv_instance *ins = must(conv);
	if (!ins) return;
	Outcome ref = one_shot(conv, in);
	Feed f = feed_of(p, in);
	const Op *sk = p.find("sink");
	bool file = sk && sk->N(0) == BSDCONV_FILE;
	int fd = -1; FILE *fp = nullptr;
	if (file) { fp = os::sink_file("out"); if (sk->N(1) / 2 == 1) setvbuf(fp, nullptr, _IONBF, 0); else if (sk->N(1) / 2 == 2) setvbuf(fp, nullptr, _IOFBF, 16); }
	else fd = os::vfd_open_sink("out");
	for (auto &o : p.ops) if (o.k == "fault") os::faults.push_back(FaultRule{C_WRITE, o.N(1), std::max<int64_t>(1, o.N(2)), (int)o.N(0), o.N(3), "sink:"});
	Keep keep, keep2;
	uint64_t h = hash_str(conv);
	size_t last = 0;
	struct bsdconv_instance *twin = file ? must(conv) : nullptr; // tells what each call produces
	bool dirty = false;
	auto call = [&](bool fl, const std::string *piece) {
		if (piece && twin) set_input(twin, *piece, true, keep2);
		ins->flush = fl;
		uint64_t f0 = os::fired[C_WRITE];
		ins->output_mode = file ? BSDCONV_FILE : BSDCONV_FD;
		ins->output.data = file ? (void *)fp : (void *)(intptr_t)fd;
		{ Sut s; bsdconv(ins); }
		std::string &got = os::sink("out");
		if (file) {
			{ Sut s; fflush(fp); }
			twin->flush = fl;
			std::string d = drain_auto(twin), gain = got.substr(std::min(last, got.size()));
			bool faulted = os::fired[C_WRITE] != f0;
			if (!faulted && (gain.size() < d.size() || gain.compare(gain.size() - d.size(), d.size(), d) || (!dirty && gain != d)))
				violation("output of a call during which the stream worked is missing", conv + " in=" + esc(in) + " got=" + esc(gain) + " want=" + esc(d) + (ferror(fp) ? " (error flag of an earlier call still set)" : ""));
			dirty = faulted;
			if (faulted && sk->N(1) % 2) clearerr(fp);
		}
		if (!file && ref.out.compare(0, got.size(), got)) violation("sink holds something else than a prefix of the converted data", conv + " in=" + esc(in) + " got=" + esc(got) + " want=" + esc(ref.out));
		h = mix(h, got.size() - last); last = got.size();
		ev(fmt("sink has %zu", got.size()));
	};
	for (size_t i = 0; i < f.chunks.size(); i++) {
		set_input(ins, f.chunks[i], owns(f.own_seed, i), keep);
		call(i + 1 == f.chunks.size() && f.flush_style == 0, &f.chunks[i]);
	}
	call(true, nullptr);
	uint64_t nf = os::fired[C_WRITE];
	bool hadferr = file && nf;
	os::faults.clear(); // the sink accepts everything from here on
	for (int i = 0; i < 2; i++) call(true, nullptr);
	std::string got = os::sink("out");
	if (!hadferr && got != ref.out)
		violation(file ? "stream reports no error but data is missing" : "data lost or repeated after the sink recovered", conv + " in=" + esc(in) + " got=" + esc(got) + " want=" + esc(ref.out));
	Counters c = counters_of(ins);
	if (!cnt_equal(c, ref.cnt)) violation("counters differ after sink errors", conv + " in=" + esc(in) + " want=" + show(ref.cnt) + " got=" + show(c));
	if (nf) nontrivial();
	state(h);
	destroy(ins);
	if (twin) destroy(twin);
	if (fp) fclose(fp);
}
static RegProp r03({"C03", gen_c03, exec_c03, 12000, 2000000, "distinct (conversion, sequence of bytes accepted per call)"});

// ---- C08: bsdconv_init makes a used instance as good as a new one, wherever the previous session was abandoned
static Plan gen_c08(Rng &g, int tier) {
	Plan p;
	bool focus = g.chance(20);
	if (!focus) gen_common(g, p, tier);
	else { // one codec that remembers, and what it remembers
		std::string c = gen_focus(g), in = gen_input(g, c, 2 + g.below(4), true);
		p.add("conv", {}, {c});
		p.add("in", {}, {in});
		p.add("chunks", gen_chunks(g, in.size()));
		p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
	}
	std::string conv = str_of(p, "conv");
	int n = 1 + g.below(3);
	for (int i = 0; i < n; i++) {
		std::string in = gen_input(g, conv, 1 + g.below(10));
		std::string rest = str_of(p, "in");
		if (i + 1 == n && g.chance(focus ? 70 : 15) && rest.size() > 1) { // what was abandoned could go on with what comes next
			size_t at = 1 + g.below(rest.size() - 1);
			for (auto &o : p.ops) if (o.k == "in") o.s[0] = rest.substr(at);
			in = rest.substr(0, at);
		} else if (g.chance(50) && in.size() > 1) in.resize(1 + g.below(in.size() - 1)); // abandon in the middle of something
		p.add("past", {(int64_t)g.below(3), (int64_t)g.below(5), (int64_t)g.below(50)}, {in});
	}
	if (g.chance(35)) p.add("bare", {(int64_t)g.below(4)}); // the first calls say nothing about flushing, taking output or owning input
	return p;
}
static void exec_c08(const Plan &p) {
	std::string conv = str_of(p, "conv"), in = str_of(p, "in");
	struct bsdconv_instance *ins = must(conv);
	if (!ins) return;
	Outcome ref = one_shot(conv, in);
	Keep keep;
	uint64_t h = hash_str(conv);
	size_t past = 0;
	for (auto &o : p.ops) if (o.k == "past") {
		{ Sut s; bsdconv_init(ins); }
		int flush = o.N(0), drain = o.N(1);
		const std::string &d = o.S(0);
		size_t cutat = d.size() ? o.N(2) % (d.size() + 1) : 0;
		set_input(ins, d.substr(0, cutat), true, keep);
		ins->flush = 0; ins->output_mode = BSDCONV_HOLD;
		{ Sut s; bsdconv(ins); }
		set_input(ins, d.substr(cutat), true, keep);
		ins->flush = flush == 1;
		if (drain == 0) drain_auto(ins);
		else if (drain > 2) { // some of it is taken, or what is waiting is asked for and left
			char b[8];
			ins->output_mode = BSDCONV_PREMALLOCED; ins->output.data = drain == 3 ? b : nullptr; ins->output.len = drain == 3 ? 1 + o.N(2) % 8 : 0;
			Sut s; bsdconv(ins);
		} else { ins->output_mode = drain == 1 ? BSDCONV_HOLD : BSDCONV_NULL; Sut s; bsdconv(ins); }
		past += d.size();
		h = mix(mix(h, hash_str(d)), flush * 3 + drain);
	}
	Counters before = counters_of(ins);
	{ Sut s; bsdconv_init(ins); }
	Feed f = feed_of(p, in);
	std::string out;
	size_t bare = 0;
	for (auto &o : p.ops) if (o.k == "bare") bare = o.N(0) + 1;
	if (bare > f.chunks.size()) bare = f.chunks.size();
	for (size_t i = 0; i < bare; i++) {
		int flags = ins->input.flags; // as the programming guide does it: |= F_FREE
		set_input(ins, f.chunks[i], owns(f.own_seed, i), keep);
		ins->input.flags |= flags;
		{ Sut s; bsdconv(ins); }
		if (ins->output.len) violation("output delivered that was not asked for after reset", conv + fmt(" call=%zu len=%zu", i, (size_t)ins->output.len));
	}
	for (size_t i = bare; i < f.chunks.size(); i++) { set_input(ins, f.chunks[i], owns(f.own_seed, i), keep); ins->flush = 0; out += drain_auto(ins); }
	ins->flush = 1;
	out += drain_auto(ins);
	Counters c = counters_of(ins);
	for (auto &x : before) c[x.first] -= x.second;
	state(h);
	if (past && !in.empty()) nontrivial();
	if (out != ref.out) violation("output after reset differs from a fresh instance", conv + " in=" + esc(in) + " fresh=" + esc(ref.out) + " reset=" + esc(out));
	if (!cnt_equal(c, ref.cnt)) violation("counters after reset advance differently", conv + " in=" + esc(in) + " fresh=" + show(ref.cnt) + " reset=" + show(c));
	destroy(ins);
}
static RegProp r08({"C08", gen_c08, exec_c08, 16000, 2000000, "distinct (conversion, abandoned sessions)"});

// ---- C10: counters account for exactly what was dropped
// IERR: the same source with a catch-all byte codec appended shows every rejected byte as a 03xx packet.
// OERR: the same target with a catch-all marker appended shows every rejected character as a marker.
static std::string join(const std::vector<std::string> &v, const char *c) { std::string r; for (size_t i = 0; i < v.size(); i++) r += (i ? c : "") + v[i]; return r; }
static Plan gen_c10(Rng &g, int tier) {
	Plan p;
	std::string from = gen_from(g, g.chance(35)), inter = g.chance(35) ? ":" + gen_inter(g) : "", to = gen_to(g, g.chance(35));
	if (from.find("BYTE") != std::string::npos && g.chance(80)) from = "UTF-8";
	std::string conv = from + inter + ":" + to;
	int n = 1 + g.below(3);
	p.add("from", {}, {from}); p.add("inter", {}, {inter}); p.add("to", {}, {to});
	for (int i = 0; i < n; i++) {
		std::string in = gen_input(g, conv, 1 + g.below(12));
		if (g.chance(60)) in = corrupt(g, in);
		std::vector<int64_t> c = gen_chunks(g, in.size());
		c.insert(c.begin(), (int64_t)g.below(4)); // what is reset before this session
		p.add("session", c, {in});
	}
	return p;
}
static void exec_c10(const Plan &p) {
	std::string from = str_of(p, "from"), inter = str_of(p, "inter"), to = str_of(p, "to"), commas = ":INSERT#AFTER=002C:BSDCONV-KEYWORD,BSDCONV";
	std::string conv = from + inter + ":" + to, seen_in = from + ",BYTE" + commas, plain_in = from + commas;
	struct bsdconv_instance *ins = must(conv), *a = create(seen_in), *b = create(plain_in);
	if (!ins || !a || !b) return;
	destroy(a); destroy(b);
	Counters model;
	uint64_t h = hash_str(conv);
	std::vector<std::pair<std::string, bsdconv_counter_t *>> ptrs;
	for (const char *k : {"IERR", "oerr", "Custom"}) { Sut s; ptrs.push_back({k, bsdconv_counter(ins, k)}); }
	for (auto &o : p.ops) if (o.k == "session") {
		const std::string &in = o.S(0);
		int rs = o.N(0);
		{
			Sut s;
			if (rs == 1) { bsdconv_counter_reset(ins, nullptr); }
			if (rs == 2) { bsdconv_counter_reset(ins, "ierr"); }
			if (rs == 3) { bsdconv_counter_reset(ins, "OERR"); }
			bsdconv_init(ins);
		}
		if (rs == 1) for (auto &x : model) x.second = 0;
		if (rs == 2) model["IERR"] = 0;
		if (rs == 3) model["OERR"] = 0;
		Keep keep;
		std::vector<int64_t> c(o.n.begin() + (o.n.empty() ? 0 : 1), o.n.end());
		std::string out;
		for (auto &piece : cut(in, c)) { set_input(ins, piece, true, keep); ins->flush = 0; out += drain_auto(ins); h = mix(h, piece.size()); }
		ins->flush = 1;
		out += drain_auto(ins);
		Counters got = counters_of(ins);
		Outcome fresh = one_shot(conv, in);
		for (auto &x : fresh.cnt) model[x.first] += x.second;
		if (!cnt_equal(got, model)) violation("counters do not add up over sessions", conv + " in=" + esc(in) + " want=" + show(model) + " got=" + show(got));
		if (from.find("BYTE") == std::string::npos && from.find("PASS") == std::string::npos) {
			Outcome all = one_shot(seen_in, in), pl = one_shot(plain_in, in);
			uint64_t rejected = 0;
			std::string kept;
			for (auto &w : split(all.out, ',')) { if (w.size() == 4 && w.compare(0, 2, "03") == 0) rejected++; else if (!w.empty()) kept += w + ","; }
			std::string plk;
			uint64_t raw = 0; // byte packets the sources produce themselves
			for (auto &w : split(pl.out, ',')) { if (w.size() == 4 && w.compare(0, 2, "03") == 0) raw++; else if (!w.empty()) plk += w + ","; }
			if (rejected != raw + pl.cnt["IERR"] || (rejected && 0)) violation("input error count differs from the bytes dropped", plain_in + " in=" + esc(in) + fmt(" dropped=%lu counted=%lu", (unsigned long)(rejected - raw), (unsigned long)pl.cnt["IERR"]));
			if (kept != plk) violation("dropping bytes changed what was kept", plain_in + " in=" + esc(in) + " kept=" + esc(plk) + " with byte fallback=" + esc(kept));
			uint64_t dropped = pl.cnt["IERR"];
			if (fresh.cnt["IERR"] != dropped) violation("input error count depends on the target", conv + " in=" + esc(in) + fmt(" alone=%lu here=%lu", (unsigned long)dropped, (unsigned long)fresh.cnt["IERR"]));
			if (dropped) { stat("bytes.rejected", dropped); nontrivial(); }
		}
		// output side
		std::string last = to.substr(to.rfind(',') == std::string::npos ? 0 : to.rfind(',') + 1);
		if (last.compare(0, 3, "ANY") && to.find("3F") != 0 && to.find(",3F") == std::string::npos && last != "NULL" && last != "RAW" && last != "3F" && last.compare(0, 4, "PASS")) {
			std::string marked = conv + ",ANY#40236021&ERROR";
			struct bsdconv_instance *m = create(marked);
			if (m) {
				destroy(m);
				Outcome mk = one_shot(marked, in);
				uint64_t k = fresh.cnt["OERR"];
				if (mk.cnt["OERR"] != k || mk.out.size() != fresh.out.size() + 4 * k)
					violation("output error count differs from the characters dropped", conv + " in=" + esc(in) + fmt(" counted=%lu with fallback=%lu bytes %zu -> %zu", (unsigned long)k, (unsigned long)mk.cnt["OERR"], fresh.out.size(), mk.out.size()));
				if (k) { stat("characters.rejected", k); nontrivial(); }
			}
		}
		for (auto &x : ptrs) { bsdconv_counter_t *q; { Sut s; q = bsdconv_counter(ins, x.first.c_str()); } if (q != x.second) violation("counter moved", conv + " " + x.first); }
	}
	state(h);
	destroy(ins);
}
static RegProp r10({"C10", gen_c10, exec_c10, 12000, 2000000, "distinct (conversion, chunk sequence of all sessions)"});

// ---- C12: "a|b" is a followed by b
static Plan gen_c12(Rng &g, int tier) {
	Plan p;
	std::string c;
	for (int i = 0; i < 60; i++) { c = gen_conv(g); if (c.find('|') != std::string::npos) break; }
	if (c.find('|') == std::string::npos) c = "UTF-8:BIG5|BIG5:UTF-8";
	std::string in = gen_input(g, c, 1 + g.below(16));
	p.add("conv", {}, {c}); p.add("in", {}, {in});
	for (int i = 0; i < 4; i++) p.add("cut", gen_chunks(g, i == 0 ? in.size() : 60));
	return p;
}
static void exec_c12(const Plan &p) {
	std::string conv = str_of(p, "conv"), in = str_of(p, "in");
	std::vector<const Op *> cuts;
	for (auto &o : p.ops) if (o.k == "cut") cuts.push_back(&o);
	auto at = [&](size_t i) { return i < cuts.size() ? cuts[i]->n : std::vector<int64_t>(); };
	bool ok;
	Outcome whole = run_chunks(conv, cut(in, at(0)), ok);
	if (!ok) { stat("conv.rejected"); return; }
	std::string data = in;
	Counters sum;
	size_t k = 1;
	std::vector<std::string> st = split(conv, '|');
	for (auto &s : st) {
		Outcome o = run_chunks(s, cut(data, at(k++)), ok);
		if (!ok) { if (st.size() > 1) violation("a stage of an accepted cascade is rejected", conv + " stage " + s); return; }
		data = o.out;
		for (auto &x : o.cnt) sum[x.first] += x.second;
	}
	state(sched_hash(conv, feed_of(p, in)));
	if (st.size() > 1 && !in.empty()) nontrivial();
	ev("out " + data);
	if (data != whole.out) violation("cascade differs from its stages run one after another", conv + " in=" + esc(in) + " cascade=" + esc(whole.out) + " stages=" + esc(data));
	if (!cnt_equal(sum, whole.cnt)) violation("cascade counters differ from the sum of its stages", conv + " in=" + esc(in) + " cascade=" + show(whole.cnt) + " stages=" + show(sum));
}
static RegProp r12({"C12", gen_c12, exec_c12, 12000, 2000000, "distinct (cascade, input)"});

// ---- C14: an endless stream is converted in bounded memory and in time that does not grow with its age
static Plan gen_c14(Rng &g, int tier) {
	Plan p;
	// conversions that by design wait for an end marker which need not come are left out (a collected string,
	// whitespace set aside until it is put back, one hexadecimal packet without separators)
	std::string conv;
	bool focus = g.chance(30);
	for (;;) {
		conv = focus ? gen_focus(g) : gen_conv(g);
		if (conv.find("STRINGS") != std::string::npos || conv.find("WHITESPACE") != std::string::npos || conv.find("|BSDCONV") != std::string::npos || conv.find(",BSDCONV") != std::string::npos) continue;
		if (orders_marks(conv) && !knows_letters(conv)) continue;
		break;
	}
	p.add("conv", {}, {conv});
	p.add("block", {}, {gen_input(g, conv, 1 + g.below(g.chance(focus ? 70 : 40) ? 2 : 12), g.chance(focus ? 60 : 20))});
	if (g.chance(focus ? 70 : 30) && !orders_marks(conv) && conv.compare(0, 7, "BSDCONV")) p.add("bare");
	p.add("chunks", gen_chunks(g, 24));
	// how the output is taken, and whether the stream is one document or an endless run of them on one instance
	p.add("rounds", {24 + (int64_t)g.below(40), g.chance(50) ? 0 : (int64_t)g.below(6), g.chance(20) ? 1 : 0});
	return p;
}
static void exec_c14(const Plan &p) {
	std::string conv = str_of(p, "conv"), block = str_of(p, "block");
	if (!p.find("bare")) { Rng g(1); block += terminator(g, conv); }
	int rounds = p.find("rounds") ? (int)std::max<int64_t>(24, p.find("rounds")->N(0)) : 30, mode = p.find("rounds") ? p.find("rounds")->N(1) : 0;
	bool docs = p.find("rounds") && p.find("rounds")->N(2) == 1;
	if (block.empty()) return;
	live_allocs();
	struct bsdconv_instance *ins = must(conv);
	if (!ins) return;
	struct bsdconv_instance *down = mode == 4 ? must("BYTE:BYTE") : nullptr;
	int fd = os::vfd_open_sink("fd");
	FILE *fp = os::sink_file("file");
	stat(fmt("c14.mode%d%s", mode, docs ? ".documents" : ""));
	auto take = [&]() -> size_t {
		switch (mode) {
		case 1: { ins->output_mode = BSDCONV_FD; ins->output.data = (void *)(intptr_t)fd; size_t b = os::sink("fd").size(); { Sut s; bsdconv(ins); } return os::sink("fd").size() - b; }
		case 2: { ins->output_mode = BSDCONV_FILE; ins->output.data = fp; size_t b = os::sink("file").size(); { Sut s; bsdconv(ins); } fflush(fp); return os::sink("file").size() - b; }
		case 3: {
			char b[1500]; size_t n = 0; // larger than any single piece
			for (int i = 0; i < 100000; i++) {
				ins->output_mode = BSDCONV_PREMALLOCED; ins->output.data = b; ins->output.len = sizeof b;
				{ Sut s; bsdconv(ins); }
				if (!ins->output.len) break;
				n += ins->output.len;
			}
			return n;
		}
		case 4:
			ins->output_mode = BSDCONV_PASS; ins->output.data = down;
			down->input.data = nullptr; down->input.len = 0; down->input.flags = 0; down->input.next = nullptr;
			{ Sut s; bsdconv(ins); }
			down->flush = 0;
			return drain_auto(down).size();
		case 5: { ins->output_mode = BSDCONV_NULL; ins->output.data = nullptr; Sut s; bsdconv(ins); return 0; }
		default: return drain_auto(ins).size();
		}
	};
	std::vector<std::string> pieces = cut(block, p.find("chunks") ? p.find("chunks")->n : std::vector<int64_t>());
	std::vector<uint64_t> steps; std::vector<int64_t> mem, blocks; std::vector<size_t> outs;
	for (int r = 0; r < rounds; r++) {
		uint64_t s0 = g_steps; size_t o = 0;
		for (auto &c : pieces) {
			Keep none;
			set_input(ins, c, false, none); // the library may not keep the caller's block beyond this session's end
			none.v.clear();
			free(ins->input.data);
			{ Sut s; ins->input.data = bsdconv_malloc(c.size() ? c.size() : 1); }
			memcpy(ins->input.data, c.data(), c.size());
			ins->input.flags = F_FREE;
			ins->flush = 0;
			o += take();
		}
		if (docs) { // this document ends here, with or without being flushed, and another one begins
			if (r % 3) { ins->flush = 1; o += take(); }
			Sut s; bsdconv_init(ins);
		}
		steps.push_back(g_steps - s0); mem.push_back(live_bytes()); blocks.push_back(live_allocs()); outs.push_back(o);
	}
	ins->flush = 1;
	uint64_t s0 = g_steps;
	std::string tail = drain_auto(ins);
	uint64_t fs = g_steps - s0;
	ins->flush = 1;
	std::string again = drain_auto(ins);
	if (!again.empty()) violation("output still pending after the stream was flushed", conv + " block=" + esc(block) + " rest=" + esc(again));
	(void)fs;
	ev(fmt("mem %ld steps %lu", (long)mem.back(), (unsigned long)steps.back()));
	state(mix(hash_str(conv), hash_str(block)));
	nontrivial();
	// growth: the second half keeps growing with every round, and has grown by a multiple of what the first half needed
	auto grows = [&](auto &v, int64_t unit) {
		int n = v.size(), q = n / 4;
		int64_t a = 0, b = 0, c = 0;
		for (int i = q; i < 2 * q; i++) a = std::max<int64_t>(a, v[i]);
		for (int i = 2 * q; i < 3 * q; i++) b = std::max<int64_t>(b, v[i]);
		for (int i = 3 * q; i < 4 * q; i++) c = std::max<int64_t>(c, v[i]);
		return b - a >= unit * q && c - b >= unit * q;
	};
	if (grows(blocks, 1) || grows(mem, 4))
		violation("memory grows without bound on a periodic stream", conv + " block=" + esc(block) + fmt(" bytes %ld %ld %ld blocks %ld %ld", (long)mem[rounds / 4], (long)mem[rounds / 2], (long)mem[rounds - 1], (long)blocks[rounds / 2], (long)blocks[rounds - 1]) + leak_sites());
	if (grows(steps, (int64_t)block.size() * 2 + 4))
		violation("work per block grows with the age of the stream", conv + " block=" + esc(block) + fmt(" steps %lu %lu %lu", (unsigned long)steps[rounds / 4], (unsigned long)steps[rounds / 2], (unsigned long)steps[rounds - 1]));
	destroy(ins);
	if (down) destroy(down);
	fclose(fp);
}
static RegProp r14({"C14", gen_c14, exec_c14, 8000, 2000000, "distinct (conversion, periodic block)"});
