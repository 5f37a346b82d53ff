// The command line tool on the simulated operating system: in-place conversion, exit status, listing.
#include "p_common.h"
#include <dlfcn.h>
#include <errno.h>

static int (*cli_main)(int, char **);
// Runs the tool as a process with simulated stdin/stdout/stderr; -1: it died at the crash point.
int run_cli(const std::vector<std::string> &args, const std::string &in) {
	if (!cli_main) {
		void *h = dlopen((os::root + "/../lib/libcli.so").c_str(), RTLD_NOW);
		if (h) cli_main = (int (*)(int, char **))dlsym(h, "cli_main");
		if (!cli_main) harness_error("command line tool not loadable");
	}
	FILE *o = stdout, *i = stdin, *e = stderr;
	stdout = os::sink_file("stdout");
	stderr = os::sink_file("stderr");
	setvbuf(stderr, nullptr, _IONBF, 0);
	stdin = os::file_source("stdin", in);
	std::vector<std::string> a = args;
	a.insert(a.begin(), "bsdconv");
	std::vector<char *> v;
	for (auto &x : a) v.push_back(strdup(x.c_str()));
	int n = v.size();
	v.push_back(nullptr);
	int rc = run_process([&] { return cli_main(n, v.data()); });
	os::process_end(rc == -1);
	stdout = o; stdin = i; stderr = e;
	os::cwd = "/work";
	return rc;
}
const std::vector<std::string> &cli_convs() {
	static const std::vector<std::string> v = {"UTF-8:UTF-16LE", "UTF-8:NFC:UTF-8", "UTF-8:UPPER:UTF-8", "BIG5:UTF-8", "UTF-8:BIG5", "UTF-8:NULL", "BYTE:BSDCONV", "UTF-8,BYTE:UTF-8,ANY#3F", "UTF-8:FULL:UTF-8", "ISO-8859-1:UTF-8", "UTF-8:BSDCONV"};
	return v;
}
std::string file_text(Rng &g, const std::string &conv) {
	if (g.chance(8)) return "";
	std::string s = gen_input(g, conv, 1 + g.below(20));
	if (g.chance(35)) { std::string t = s.empty() ? "x" : s; size_t want = 900 + g.below(g.chance(20) ? 9000 : 1500); while (s.size() < want) s += t; }
	return s;
}
static void gen_io_faults(Rng &g, Plan &p, const std::vector<int> &kinds, int max) {
	static const std::vector<int64_t> errs = {EIO, ENOSPC, EACCES, EPERM, EINTR, EROFS, EMFILE};
	int n = g.below(max + 1);
	for (int i = 0; i < n; i++) {
		int c = kinds[g.below(kinds.size())];
		bool part = (c == C_WRITE || c == C_READ) && g.chance(40);
		p.add("fault", {c, (int64_t)g.below(g.chance(50) ? 2 : 6), g.chance(70) ? 1 : 50, part ? 0 : g.pick(errs), 1 + (int64_t)g.below(600), g.chance(85) ? 1 : 0});
	}
}
static void apply_faults(const Plan &p) {
	for (auto &o : p.ops) if (o.k == "fault") {
		FaultRule r{(int)o.N(0), o.N(1), std::max<int64_t>(1, o.N(2)), (int)o.N(3), o.N(4, 1), o.S(0)};
		if (r.call == C_READ && r.err == 0 && r.arg < 1) r.arg = 1;
		if (r.call != C_READ && r.call != C_WRITE && r.err == 0) r.err = EIO;
		if (r.call < 0 || r.call >= C_NCALLS) continue;
		// most faults hit the user's files; some hit any file the process touches (its tables, modules)
		if ((r.call == C_OPEN || r.call == C_CLOSE || r.call == C_FSTAT || r.call == C_READ) && o.N(5)) r.path = "/work";
		os::faults.push_back(r);
	}
}

// ---- C04: in-place conversion never leaves anything but the complete old or the complete new content
static Plan gen_c04(Rng &g, int tier) {
	Plan p;
	std::string conv = g.chance(75) ? g.pick(cli_convs()) : gen_conv(g);
	p.add("conv", {}, {conv});
	int n = 1 + g.below(3);
	for (int i = 0; i < n; i++) {
		static const std::vector<int64_t> modes = {0644, 0600, 0755, 04755, 0444, 0640};
		p.add("file", {g.pick(modes), (int64_t)g.below(3) * 500, (int64_t)g.below(2) * 20}, {fmt(i == 2 ? "/work/sub/f%d" : "f%d.txt", i), file_text(g, conv)});
	}
	if (g.chance(10)) p.add("missing", {(int64_t)g.below(n + 1)});
	int m = g.below(10);
	if (m < 5) p.add("crash", {(int64_t)g.below(g.chance(60) ? 14 : 40 * n)});
	else if (m < 9) gen_io_faults(g, p, {C_OPEN, C_READ, C_WRITE, C_WRITE, C_CLOSE, C_RENAME, C_UNLINK, C_FCHMOD, C_FCHOWN, C_MKSTEMP, C_FDOPEN, C_FSTAT, C_LINK, C_FSYNC}, 3);
	if (g.chance(12)) p.add("disk", {(int64_t)g.below(3000)});
	if (g.chance(30)) p.add("short", {1 + (int64_t)g.below(1000)});
	return p;
}
struct Tracked { std::string path, old, neu; int mode, uid, gid; };
static void exec_c04(const Plan &p) {
	std::string conv = str_of(p, "conv");
	std::vector<Tracked> fs;
	{ struct bsdconv_instance *t = must(conv); if (!t) return; destroy(t); }
	for (auto &o : p.ops) if (o.k == "file") {
		std::string path = o.S(0).empty() ? "f" : o.S(0);
		if (path[0] != '/') path = "/work/" + path;
		bool dup = false;
		for (auto &t : fs) dup |= t.path == path;
		if (dup || path == "/work/" || os::exists(path)) continue;
		os::add_file(path, o.S(1), (int)o.N(0, 0644) & 07777, (int)o.N(1), (int)o.N(2));
		fs.push_back({path, o.S(1), one_shot(conv, o.S(1)).out, (int)o.N(0, 0644) & 07777, (int)o.N(1), (int)o.N(2)});
	}
	if (fs.empty()) return;
	os::add_file("/work/bystander", "do not touch", 0600, 7, 7);
	std::vector<std::string> args = {conv, "-i"};
	const Op *miss = p.find("missing");
	int missing = -1;
	for (size_t i = 0; i < fs.size(); i++) {
		if (miss && (size_t)miss->N(0) == i) { args.push_back("/work/nothere"); missing = i; }
		args.push_back(fs[i].path);
	}
	if (miss && (size_t)miss->N(0) >= fs.size()) { args.push_back("nothere"); missing = fs.size(); }
	apply_faults(p);
	if (const Op *c = p.find("crash")) os::crash_at = c->N(0);
	if (const Op *c = p.find("disk")) os::disk_free = std::max<int64_t>(0, c->N(0));
	if (const Op *c = p.find("short")) os::partial_reads_seed = (int)c->N(0);
	os::sysno = 0;
	uint64_t h = hash_str(conv);
	bool chown_failed = false;
	auto look = [&](const char *when) {
		Harness hh;
		uint64_t st = 0;
		for (auto &t : fs) {
			Inode *i = os::inode(t.path);
			std::string who = conv + " " + t.path + " after " + when;
			if (!i) violation("file does not exist", who);
			if (i->data != t.old && i->data != t.neu) violation("file holds neither its old nor its new content", who + " holds " + esc(i->data) + " old " + esc(t.old) + " new " + esc(t.neu));
			if (i->mode != t.mode && !(os::fired[C_FCHOWN] && (i->mode & 0777) == (t.mode & 0777))) violation("file mode changed", who + fmt(" %o -> %o", t.mode, i->mode));
			if ((i->uid != t.uid || i->gid != t.gid) && !os::fired[C_FCHOWN]) violation("file owner changed", who);
			st = st * 3 + (i->data == t.old ? 1 : 2);
		}
		Inode *b = os::inode("/work/bystander");
		if (!b || b->data != "do not touch" || b->mode != 0600) violation("another file was touched", conv);
		h = mix(h, st);
		state(mix(h, hash_str(when)));
	};
	(void)chown_failed;
	os::on_mutate = look;
	int rc = run_cli(args, "");
	os::on_mutate = nullptr;
	look("the run");
	uint64_t nf = 0;
	for (int c = 0; c < C_NCALLS; c++) nf += os::fired[c];
	ev(fmt("exit %d after %ld calls", rc, (long)os::sysno));
	if (rc == -1 || nf || missing >= 0) nontrivial();
	// completed files come first, untouched ones after
	bool seen_old = false;
	for (size_t k = 0; k < fs.size(); k++) {
		Inode *i = os::inode(fs[k].path);
		bool is_new = i->data == fs[k].neu, is_old = i->data == fs[k].old;
		if (rc == 0 && !is_new) violation("success reported but a file was not converted", conv + " " + fs[k].path);
		if (!is_new) seen_old = true;
		else if (!is_old && seen_old) violation("a file after a failed one was converted", conv + " " + fs[k].path);
	}
	if (rc == 0 && missing >= 0) violation("success reported although a file could not be opened", conv);
	if (rc > 0 && nf == 0 && missing < 0) violation("failure reported although nothing failed", conv + fmt(" exit %d ", rc) + esc(os::sink("stderr"), 200));
	if (rc != -1 && !os::fired[C_UNLINK] && os::list().size() != fs.size() + 1) {
		std::string l;
		for (auto &x : os::list()) l += " " + x;
		violation("temporary file left behind", conv + fmt(" exit %d:", rc) + l);
	}
	if (rc > 0 && missing >= 0 && nf == 0)
		for (int k = 0; k < missing && k < (int)fs.size(); k++) if (os::inode(fs[k].path)->data != fs[k].neu) violation("a file before the missing one was not converted", conv + " " + fs[k].path);
	// restart: the same command again over what is still unconverted finishes the job, whatever the dead process left
	os::faults.clear(); os::crash_at = -1; os::disk_free = -1; os::sysno = 0;
	std::vector<std::string> again = {conv, "-i"};
	std::vector<Tracked *> todo;
	for (auto &t : fs) if (os::inode(t.path)->data == t.old && t.old != t.neu) { again.push_back(t.path); todo.push_back(&t); }
	if (todo.size()) {
		memset(os::fired, 0, sizeof os::fired);
		rc = run_cli(again, "");
		if (rc != 0) violation("restart after a failure does not succeed", conv + fmt(" exit %d ", rc) + esc(os::sink("stderr"), 200));
		for (auto t : todo) { Inode *i = os::inode(t->path); if (!i || i->data != t->neu || i->mode != t->mode || i->uid != t->uid) violation("restart did not convert a file", conv + " " + t->path); }
	}
}
static RegProp r04({"C04", gen_c04, exec_c04, 12000, 1000000, "distinct (conversion, old/new state of all files after each file system change)"});

// ---- C05: exit status 0 means that all input was read and everything converted was written
static Plan gen_c05(Rng &g, int tier) {
	Plan p;
	std::string conv = g.chance(70) ? g.pick(cli_convs()) : gen_conv(g);
	p.add("conv", {}, {conv});
	if (g.chance(50)) p.add("stdin", {}, {file_text(g, conv)});
	else for (int i = 0, n = 1 + g.below(3); i < n; i++) p.add("file", {}, {fmt("f%d", i), file_text(g, conv)});
	if (g.chance(10)) p.add("missing", {(int64_t)g.below(4)});
	if (g.chance(65)) gen_io_faults(g, p, {C_READ, C_READ, C_WRITE, C_WRITE, C_WRITE, C_OPEN}, 3);
	if (g.chance(40)) p.add("short", {1 + (int64_t)g.below(1000)});
	if (g.chance(3)) p.add("list");
	return p;
}
static void exec_c05(const Plan &p) {
	std::string conv = str_of(p, "conv"), want;
	{ struct bsdconv_instance *t = must(conv); if (!t) return; destroy(t); }
	std::vector<std::string> args = {conv};
	int n = 0, miss = p.find("missing") ? (int)p.find("missing")->N(0) : -1;
	bool bad = false, list = p.find("list") != nullptr;
	for (auto &o : p.ops) if (o.k == "file") {
		std::string path = "/work/" + (o.S(0).empty() ? std::string("x") : o.S(0));
		if (n == miss) { args.push_back("/work/nothere"); bad = true; }
		n++;
		if (!os::exists(path)) os::add_file(path, o.S(1));
		args.push_back(path);
		if (!bad) want += one_shot(conv, os::inode(path)->data).out;
	}
	std::string in = str_of(p, "stdin");
	if (n == 0) want = one_shot(conv, in).out;
	if (list) {
		args = {"-l"}; bad = false;
		int rc = run_cli(args, "");
		if (rc != 0) violation("listing fails", fmt("exit %d", rc));
		want = os::sink("stdout");
		os::sink("stdout").clear();
		memset(os::fired, 0, sizeof os::fired);
	}
	for (auto &o : p.ops) if (o.k == "fault") {
		static const char *where[C_NCALLS] = {};
		where[C_OPEN] = "/work/"; where[C_WRITE] = "sink:stdout"; where[C_READ] = n ? "/work/" : "src:stdin";
		if (o.N(0) < 0 || o.N(0) >= C_NCALLS || !where[o.N(0)]) continue;
		FaultRule r{(int)o.N(0), o.N(1), std::max<int64_t>(1, o.N(2)), (int)o.N(3), std::max<int64_t>(1, o.N(4, 1)), where[o.N(0)]};
		if (r.call == C_OPEN && !r.err) r.err = EIO;
		os::faults.push_back(r);
	}
	if (const Op *c = p.find("short")) os::partial_reads_seed = (int)c->N(0);
	int rc = run_cli(args, in);
	std::string got = os::sink("stdout");
	uint64_t nf = os::fired[C_READ] + os::fired[C_WRITE] + os::fired[C_OPEN];
	bool hard = false;
	for (auto &r : os::faults) if (r.err) hard = true;
	ev(fmt("exit %d, %zu of %zu bytes", rc, got.size(), want.size()));
	state(mix(hash_str(conv), mix(got.size(), mix(want.size(), rc + nf * 7))));
	if (nf || bad) nontrivial();
	std::string at = conv + fmt(" exit %d, %zu of %zu bytes ", rc, got.size(), want.size());
	if (rc == 0 && got != want) violation("success reported but output is incomplete or wrong", at + " got " + esc(got, 60) + " want " + esc(want, 60));
	if (rc == 0 && bad) violation("success reported although a file could not be opened", at);
	if (rc != 0 && nf == 0 && got != want) violation("conversion of the files before the missing one is not complete", at);
	if (rc != 0 && !bad && (nf == 0 || !hard)) violation("failure reported although nothing failed", at + esc(os::sink("stderr"), 200));
	if (rc < 0 || rc > 127) violation("abnormal end", at);
}
static RegProp r05({"C05", gen_c05, exec_c05, 12000, 1000000, "distinct (conversion, output length, exit status, number of faults)"});
