// Runner: seeds -> plans -> forked simulated runs -> verdicts, minimisation, replay.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull)); return r.next(); }
uint64_t hash_str(const std::string &s, uint64_t h) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
std::vector<PropDef> &props() { static std::vector<PropDef> p; return p; }
uint64_t run_no;
uint64_t cov_signature();
static uint64_t sim_syscalls() { uint64_t n = 0; for (auto c : os::calls) n += c; return n; }

std::string fmt(const char *f, ...) {
	char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
std::string esc(const std::string &s, size_t max) {
	std::string r;
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = s[i];
		if (c >= 32 && c < 127 && c != '\\') r += c; else r += fmt("\\x%02x", c);
	}
	if (s.size() > max) r += fmt("...(%zu bytes)", s.size());
	return r;
}

// ---------------------------------------------------------------- plan text
static std::string hexs(const std::string &s) { static const char *d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r.empty() ? "-" : r; }
static std::string unhex(const std::string &h) { std::string r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
std::string plan_to_text(const Plan &p) {
	std::string r = "plan " + p.prop + "\n";
	for (auto &o : p.ops) {
		r += o.k;
		for (auto x : o.n) r += " " + std::to_string(x);
		std::string comment;
		for (auto &s : o.s) {
			bool plain = !s.empty() && s.size() < 200;
			for (unsigned char c : s) if (c <= 32 || c >= 127 || c == '"') plain = false;
			if (plain) r += " \"" + s; else r += " x" + hexs(s);
		}
		r += "\n";
	}
	return r;
}
bool plan_from_text(const std::string &t, Plan &p) {
	size_t i = 0;
	bool first = true;
	p.ops.clear();
	while (i < t.size()) {
		size_t j = t.find('\n', i);
		if (j == std::string::npos) j = t.size();
		std::string line = t.substr(i, j - i);
		i = j + 1;
		if (line.empty() || line[0] == '#') continue;
		std::vector<std::string> w;
		size_t a = 0;
		while (a < line.size()) { size_t b = line.find(' ', a); if (b == std::string::npos) b = line.size(); if (b > a) w.push_back(line.substr(a, b - a)); a = b + 1; }
		if (first) { if (w.size() < 2 || w[0] != "plan") return false; p.prop = w[1]; first = false; continue; }
		Op o; o.k = w[0];
		for (size_t k = 1; k < w.size(); k++) {
			if (w[k][0] == '"') o.s.push_back(w[k].substr(1));
			else if (w[k][0] == 'x') o.s.push_back(unhex(w[k].substr(1)));
			else o.n.push_back(strtoll(w[k].c_str(), 0, 10));
		}
		p.ops.push_back(o);
	}
	return !first;
}

// ---------------------------------------------------------------- child side
static int rep_fd = -1;
static std::map<std::string, uint64_t> st;
static std::vector<uint64_t> sts;
static uint64_t evhash = 1469598103934665603ull, evcount = 0;
static bool nontriv = false, logging = false;
static void send(const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t n = ::write(rep_fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } }
static void finish(const std::string &verdict) {
	std::string o;
	for (auto &x : st) o += "S " + x.first + " " + std::to_string(x.second) + "\n";
	for (auto h : sts) o += fmt("H %016lx\n", (unsigned long)h);
	o += fmt("S sim.basic_blocks %lu\n", (unsigned long)g_steps) + fmt("S sim.syscalls %lu\n", (unsigned long)sim_syscalls());
	o += fmt("E %016lx %lu\n", (unsigned long)evhash, (unsigned long)evcount);
	o += fmt("C %016lx\n", (unsigned long)cov_signature());
	if (nontriv) o += "N\n";
	o += verdict + "\n";
	send(o);
}
void stat(const std::string &n, uint64_t k) { Harness h; st[n] += k; }
void state(uint64_t h0) { Harness h; sts.push_back(h0); }
static FILE *const log_to = stderr; // a run may put another in its place
void ev(const std::string &s) {
	Harness h;
	evhash = hash_str(s, evhash); evhash = (evhash ^ 10) * 1099511628211ull; evcount++;
	if (logging) fprintf(log_to, "  [%lu] %s\n", (unsigned long)evcount, s.c_str());
}
void nontrivial() { nontriv = true; }
static std::string clean(std::string s) { for (auto &c : s) if (c == '\n' || c == '\t') c = ' '; return s; }
void violation(const std::string &cls, const std::string &detail) {
	Harness h;
	ev("violation " + cls);
	finish("V " + clean(cls) + "\t" + clean(detail));
	_exit(0);
}
void harness_error(const std::string &w) { Harness h; finish("X " + clean(w)); _exit(0); }

// ---------------------------------------------------------------- parent side
struct Result {
	bool ok = false, viol = false, err = false, nontriv = false;
	std::string cls, detail;
	std::map<std::string, uint64_t> st;
	std::vector<uint64_t> states;
	uint64_t eh = 0, ec = 0, cov = 0;
};
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int errfile = -1;
static std::string slurp_err() {
	std::string r; char b[65536];
	lseek(errfile, 0, SEEK_SET);
	ssize_t n;
	while ((n = ::read(errfile, b, sizeof b)) > 0) r.append(b, n);
	return r;
}
static std::string crash_class(const std::string &log, int status, std::string &detail) {
	size_t k = log.find("SUMMARY: AddressSanitizer: ");
	if (k != std::string::npos) {
		std::string s = log.substr(k + 27, log.find('\n', k) - k - 27);
		std::string kind = s.substr(0, s.find(' ')), fn;
		size_t in = s.rfind(" in ");
		if (in != std::string::npos) fn = s.substr(in + 4);
		// innermost frames inside the code under test
		std::string where; size_t p = 0; int n = 0;
		while (n < 4 && (p = log.find("\n    #", p)) != std::string::npos) {
			size_t e = log.find('\n', p + 1);
			std::string fr = log.substr(p + 1, e - p - 1);
			size_t a = fr.find(" in ");
			if (a != std::string::npos) {
				size_t sl = fr.rfind('/');
				std::string f = fr.substr(a + 4, fr.find(' ', a + 4) - a - 4);
				where += (n ? " < " : "") + f + (sl != std::string::npos ? "(" + fr.substr(sl + 1) + ")" : "");
				n++;
			}
			p = e - 1;
			if (fr.find("freed by") != std::string::npos) break;
		}
		detail = kind + " in " + where;
		if (kind == "SEGV" || kind == "BUS") return "crash";
		return "memory:" + kind;
	}
	if (WIFSIGNALED(status)) { detail = fmt("killed by signal %d", WTERMSIG(status)); return fmt("crash:signal-%d", WTERMSIG(status)); }
	detail = fmt("exit status %d; ", WEXITSTATUS(status)) + esc(log, 300);
	return "crash:exit";
}
static PropDef *find_prop(const std::string &id) { for (auto &p : props()) if (id == p.id) return &p; return nullptr; }

static Result run_plan(const Plan &plan, bool log = false) {
	PropDef *pd = find_prop(plan.prop);
	Result r;
	int pf[2];
	if (pipe(pf)) abort();
	if (ftruncate(errfile, 0)) {}
	lseek(errfile, 0, SEEK_SET);
	pid_t pid = fork();
	if (pid == 0) {
		close(pf[0]);
		rep_fd = pf[1];
		logging = log;
		if (!log) { dup2(errfile, 2); int n = ::open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		alarm(60);
		g_step_limit = 400000000ull;
		os::reset();
		pd->exec(plan);
		finish("K");
		_exit(0);
	}
	close(pf[1]);
	std::string buf; char b[65536]; ssize_t n;
	while ((n = ::read(pf[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) buf.append(b, n);
	close(pf[0]);
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	bool verdict = false;
	size_t i = 0;
	while (i < buf.size()) {
		size_t j = buf.find('\n', i);
		if (j == std::string::npos) break;
		std::string l = buf.substr(i, j - i);
		i = j + 1;
		if (l[0] == 'S') { size_t k = l.rfind(' '); r.st[l.substr(2, k - 2)] += strtoull(l.c_str() + k, 0, 10); }
		else if (l[0] == 'H') r.states.push_back(strtoull(l.c_str() + 2, 0, 16));
		else if (l[0] == 'E') { char *e; r.eh = strtoull(l.c_str() + 2, &e, 16); r.ec = strtoull(e, 0, 10); }
		else if (l[0] == 'C') r.cov = strtoull(l.c_str() + 2, 0, 16);
		else if (l[0] == 'N') r.nontriv = true;
		else if (l[0] == 'K') { r.ok = true; verdict = true; }
		else if (l[0] == 'X') { r.err = true; r.detail = l.substr(2); verdict = true; }
		else if (l[0] == 'V') { r.viol = true; size_t t = l.find('\t'); r.cls = l.substr(2, t - 2); r.detail = l.substr(t + 1); verdict = true; }
	}
	if (!verdict) {
		if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) { r.viol = true; r.cls = "hang"; r.detail = "blocked (wall clock)"; return r; }
		if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) { r.err = true; r.detail = "killed"; return r; }
		r.viol = true;
		std::string d;
		r.cls = crash_class(slurp_err(), status, d);
		r.detail = d;
		r.eh = hash_str(r.cls);
	}
	return r;
}

// ---------------------------------------------------------------- minimiser
static int64_t plan_weight(const Plan &p) { int64_t w = 0; for (auto &o : p.ops) { w += 100; for (auto &s : o.s) w += s.size() * 2; for (auto x : o.n) w += llabs(x) > 1000 ? 20 : llabs(x) > 16 ? 4 : x != 0; } return w; }
static Plan minimise(Plan p, const std::string &cls, double budget, int &tries) {
	double end = now() + budget;
	auto fails = [&](const Plan &q) { if (now() > end) return false; tries++; Result r = run_plan(q); return r.viol && r.cls == cls; };
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		// drop runs of operations
		for (size_t len = std::max<size_t>(1, p.ops.size() / 2); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= p.ops.size() && now() < end;) {
				Plan q = p;
				q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + len);
				if (fails(q)) { p = q; progress = true; } else i += len;
			}
			if (len == 1) break;
		}
		// shrink byte strings
		for (size_t o = 0; o < p.ops.size() && now() < end; o++)
			for (size_t k = 0; k < p.ops[o].s.size(); k++) {
				for (size_t len = std::max<size_t>(1, p.ops[o].s[k].size() / 2); len >= 1 && now() < end; len /= 2) {
					for (size_t i = 0; i + len <= p.ops[o].s[k].size() && now() < end;) {
						Plan q = p;
						q.ops[o].s[k].erase(i, len);
						if (fails(q)) { p = q; progress = true; } else i += len;
					}
					if (len == 1) break;
				}
			}
		// shrink numbers
		for (size_t o = 0; o < p.ops.size() && now() < end; o++) {
			for (size_t k = 0; k < p.ops[o].n.size(); k++) {
				int64_t v = p.ops[o].n[k];
				for (int64_t c : {(int64_t)0, (int64_t)1, v / 2, v - 1}) {
					if (c == v || llabs(c) >= llabs(v)) continue;
					Plan q = p;
					q.ops[o].n[k] = c;
					if (plan_weight(q) <= plan_weight(p) && fails(q)) { p = q; progress = llabs(v) > 64 ? true : progress; break; }
				}
			}
			while (p.ops[o].n.size() > 2 && now() < end) { // trailing schedule entries
				Plan q = p;
				q.ops[o].n.pop_back();
				if (fails(q)) { p = q; progress = true; } else break;
			}
		}
	}
	return p;
}

static std::string arg(int argc, char **argv, const char *k, const char *d) { for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1]; return d; }
static std::vector<std::string> read_lines(const std::string &f) {
	std::vector<std::string> r; FILE *fp = fopen(f.c_str(), "r"); char *l = nullptr; size_t n = 0;
	if (fp) { ssize_t k; while ((k = getline(&l, &n, fp)) > 0) { std::string s(l, k); while (!s.empty() && (s.back() == '\n')) s.pop_back(); r.push_back(s); } fclose(fp); }
	free(l);
	return r;
}
static std::string read_all(const std::string &f) { std::string r; FILE *fp = fopen(f.c_str(), "rb"); char b[65536]; size_t n; while (fp && (n = fread(b, 1, sizeof b, fp)) > 0) r.append(b, n); if (fp) fclose(fp); return r; }
static void write_all(const std::string &f, const std::string &s) { FILE *fp = fopen(f.c_str(), "wb"); if (fp) { fwrite(s.data(), 1, s.size(), fp); fclose(fp); } }

void load_tables(const std::string &dir);
int main(int argc, char **argv) {
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
		if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
	}
	signal(SIGPIPE, SIG_IGN);
	std::string cmd = argc > 1 ? argv[1] : "";
	os::root = arg(argc, argv, "--root", "");
	std::string out = arg(argc, argv, "--out", ".");
	errfile = memfd_create("err", 0);
	load_tables(os::root + "/..");
	if (cmd == "replay") {
		Plan p;
		if (!plan_from_text(read_all(argv[2]), p)) { fprintf(stderr, "bad replay file\n"); return 2; }
		bool log = getenv("SIM_LOG") != nullptr;
		Result r = run_plan(p, log);
		printf("RESULT %s\t%s\t%016lx\t%s\n", r.viol ? "violation" : r.err ? "error" : "ok", r.cls.c_str(), (unsigned long)r.eh, r.detail.c_str());
		if (log && r.viol && r.cls.compare(0, 6, "memory") == 0) printf("%s\n", slurp_err().c_str());
		return 0;
	}
	std::string id = arg(argc, argv, "--prop", "");
	uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10);
	int tier = atoi(arg(argc, argv, "--tier", "0").c_str());
	PropDef *pd = find_prop(id);
	if (!pd) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
	auto plan_for = [&](uint64_t run) { run_no = run; Rng g(mix(mix(seed, hash_str(id)), run)); Plan p = pd->gen(g, tier); p.prop = id; return p; };
	if (cmd == "show") { printf("%s", plan_to_text(plan_for(strtoull(arg(argc, argv, "--run", "0").c_str(), 0, 10))).c_str()); return 0; }
	if (cmd != "run") { fprintf(stderr, "usage: sim run|replay|show\n"); return 2; }

	uint64_t w = strtoull(arg(argc, argv, "--worker", "0").c_str(), 0, 10), nw = strtoull(arg(argc, argv, "--of", "1").c_str(), 0, 10);
	uint64_t runs = strtoull(arg(argc, argv, "--runs", "0").c_str(), 0, 10);
	if (!runs) runs = tier ? pd->thorough_runs : pd->quick_runs;
	double deadline = now() + atof(arg(argc, argv, "--secs", "600").c_str());
	double minsecs = atof(arg(argc, argv, "--minsecs", "30").c_str());
	int keep = atoi(arg(argc, argv, "--keep", "1").c_str());
	std::vector<std::string> known = read_lines(arg(argc, argv, "--known", "/dev/null"));
	std::map<std::string, uint64_t> total;
	std::set<uint64_t> states, covs, plans;
	std::map<std::string, uint64_t> kf;
	std::set<std::string> seen;
	uint64_t done = 0, nt = 0, errs = 0, nviol = 0, events = 0, hashall = 0;
	std::string viols, samples;
	int nsamples = 0;
	uint64_t rechecked = 0;
	std::string stopf = out + "/STOP";
	double t0 = now();
	for (uint64_t run = w; run < runs && now() < deadline; run += nw) {
		if (keep == 1 && access(stopf.c_str(), F_OK) == 0) break;
		Plan p = plan_for(run);
		Result r = run_plan(p);
		done++;
		events += r.ec;
		hashall ^= mix(r.eh, run);
		for (auto &x : r.st) total[x.first] += x.second;
		for (auto h : r.states) states.insert(h);
		if (r.cov) covs.insert(r.cov);
		if (r.nontriv) {
			nt++;
			std::string t = plan_to_text(p);
			plans.insert(hash_str(t));
			if (nsamples < 2 && t.size() < 1200) { nsamples++; for (auto &c : t) if (c == '\n') c = '|'; samples += "sample\t" + t + "\n"; }
		}
		if (r.err) { errs++; fprintf(stderr, "run %lu: harness error: %s\n", (unsigned long)run, r.detail.c_str()); if (errs > 20) break; continue; }
		if (!r.viol && !r.err && done % 400 == 7) { // one seed is one execution: run it again
			Result q = run_plan(p);
			rechecked++;
			if (q.eh != r.eh || q.viol || q.cov != r.cov) { errs++; fprintf(stderr, "run %lu: not deterministic\n", (unsigned long)run); }
		}
		if (!r.viol) continue;
		std::string sig = r.cls + " " + r.detail;
		bool isknown = false;
		for (auto &k : known) if (!k.empty() && sig.find(k) != std::string::npos) { kf[k]++; isknown = true; break; }
		if (isknown) continue;
		std::string sk = r.cls + "|" + (r.cls.compare(0, 6, "memory") == 0 || r.cls.compare(0, 5, "crash") == 0 ? r.detail : "");
		if (keep > 1 && seen.count(sk)) { nviol++; continue; }
		// same plan again, in another process: it must fail the same way
		Result r2 = run_plan(p);
		if (!r2.viol || r2.cls != r.cls || r2.eh != r.eh) {
			fprintf(stderr, "run %lu: violation %s did not repeat (%s, %016lx vs %016lx)\n", (unsigned long)run, sig.c_str(), r2.cls.c_str(), (unsigned long)r.eh, (unsigned long)r2.eh);
			errs++;
			continue;
		}
		seen.insert(sk);
		nviol++;
		int tries = 0;
		Plan m = minimise(p, r.cls, minsecs, tries);
		Result rm = run_plan(m);
		if (!(rm.viol && rm.cls == r.cls)) { m = p; rm = r; }
		bool mk = false; // the minimised history may be a listed finding in disguise
		for (auto &k : known) if (!k.empty() && (rm.cls + " " + rm.detail).find(k) != std::string::npos) mk = true;
		if (mk) { m = p; rm = r; }
		std::string base = out + fmt("/viol-%lu-%lu", (unsigned long)w, (unsigned long)nviol);
		write_all(base + ".plan", "# property " + id + " seed " + std::to_string(seed) + " run " + std::to_string(run) + "\n# " + rm.cls + ": " + rm.detail + "\n# minimised in " + std::to_string(tries) + " runs; replay: bin/check " + id + " --replay FILE\n" + plan_to_text(m));
		write_all(base + ".orig", plan_to_text(p));
		viols += "V\t" + base + ".plan\t" + std::to_string(run) + "\t" + rm.cls + "\t" + fmt("%016lx", (unsigned long)rm.eh) + "\t" + rm.detail + "\n";
		write_all(stopf, "");
		if ((int)nviol >= keep) break;
	}
	std::string o;
	o += fmt("done\t%lu\nnontrivial\t%lu\nerrors\t%lu\nevents\t%lu\nhash\t%016lx\nwall\t%.2f\n", (unsigned long)done, (unsigned long)nt, (unsigned long)errs, (unsigned long)events, (unsigned long)hashall, now() - t0);
	for (auto &x : total) o += "stat\t" + x.first + "\t" + std::to_string(x.second) + "\n";
	for (auto h : states) o += fmt("state\t%016lx\n", (unsigned long)h);
	for (auto h : covs) o += fmt("cov\t%016lx\n", (unsigned long)h);
	for (auto h : plans) o += fmt("plan\t%016lx\n", (unsigned long)h);
	for (auto &x : kf) o += "known\t" + x.first + "\t" + std::to_string(x.second) + "\n";
	o += fmt("rechecked\t%lu\n", (unsigned long)rechecked) + samples;
	o += viols;
	write_all(out + fmt("/worker-%lu.txt", (unsigned long)w), o);
	return 0;
}
