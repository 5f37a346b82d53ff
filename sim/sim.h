// Deterministic simulator for bsdconv: core declarations.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

// ---------------------------------------------------------------- randomness
// The only source of randomness. One integer decides every choice.
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
	uint64_t next() { // splitmix64
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
	bool chance(int pct) { return (int)below(100) < pct; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- plans
// A plan is the complete, explicit description of one simulated run: workload, schedule and faults.
// Generation from a seed produces a plan; execution is a function of the plan alone; a replay file is a plan.
struct Op {
	std::string k;
	std::vector<int64_t> n;
	std::vector<std::string> s;
	int64_t N(size_t i, int64_t d = 0) const { return i < n.size() ? n[i] : d; }
	const std::string &S(size_t i) const { static const std::string e; return i < s.size() ? s[i] : e; }
};
struct Plan {
	std::string prop;
	std::vector<Op> ops;
	Op &add(const std::string &k, std::vector<int64_t> n = {}, std::vector<std::string> s = {}) {
		ops.push_back(Op{k, n, s});
		return ops.back();
	}
	const Op *find(const char *k) const { for (auto &o : ops) if (o.k == k) return &o; return nullptr; }
};
std::string plan_to_text(const Plan &);
bool plan_from_text(const std::string &, Plan &);
uint64_t hash_str(const std::string &, uint64_t h = 1469598103934665603ull);

// ---------------------------------------------------------------- reporting from inside a run
[[noreturn]] void violation(const std::string &cls, const std::string &detail);
[[noreturn]] void harness_error(const std::string &what);
void stat(const std::string &name, uint64_t n = 1);
void state(uint64_t h);                 // a distinct state / interleaving by the property's measure
void ev(const std::string &s);          // event log (rolling hash; text with SIM_LOG=1)
void nontrivial();                      // this run really exercised the property
std::string esc(const std::string &, size_t max = 96);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct PropDef {
	const char *id;
	Plan (*gen)(Rng &, int tier);
	void (*exec)(const Plan &);
	int quick_runs, thorough_runs;
	const char *measure;
};
extern uint64_t run_no; // of the run being generated
extern std::vector<PropDef> &props();
struct RegProp { RegProp(PropDef d) { props().push_back(d); } };

// ---------------------------------------------------------------- simulated operating system
// While `Sut` is alive, libc calls made by the code under test go to the simulated OS.
struct Sut { Sut(); ~Sut(); };
struct Harness { int saved; Harness(); ~Harness(); }; // temporarily leave the SUT from a callback

enum Call {
	C_OPEN, C_READ, C_WRITE, C_CLOSE, C_FSTAT, C_MMAP, C_DLOPEN, C_GETCWD, C_CHDIR, C_MKSTEMP, C_FDOPEN, C_FTRUNC,
	C_RENAME, C_UNLINK, C_FCHMOD, C_FCHOWN, C_FSYNC, C_LSEEK, C_OPENDIR, C_REALPATH, C_DLSYM, C_LINK, C_STAT, C_NCALLS
};
extern const char *call_name[C_NCALLS];

struct Inode { std::string data; int mode = 0644; int uid = 0, gid = 0; int links = 1; };
struct FaultRule {
	int call;          // Call
	int64_t nth;       // fires on the nth call of this kind (0 based) ...
	int64_t count;     // ... and the following count-1 calls (<=0: forever)
	int err;           // errno, or 0 for a partial transfer
	int64_t arg;       // partial transfer size / byte budget
	std::string path;  // restrict to paths/sinks containing this
};
namespace os {
	extern std::string root;                          // real build root (modules), always passed through
	void reset();                                     // fresh simulated world
	void add_file(const std::string &path, const std::string &data, int mode = 0644, int uid = 0, int gid = 0);
	bool exists(const std::string &path);
	void add_dir(const std::string &path);
	bool is_dir(const std::string &path);
	void del_file(const std::string &path);
	extern std::map<std::string, std::string> so_map; // simulated path of a shared object -> the real one
	Inode *inode(const std::string &path);
	std::vector<std::string> list();                  // all simulated paths
	extern std::vector<FaultRule> faults;
	extern uint64_t calls[C_NCALLS];                  // calls seen so far
	extern uint64_t fired[C_NCALLS];                  // faults fired
	extern int64_t crash_at;                          // process dies at this simulated syscall (<0: never)
	extern int64_t sysno;                             // simulated syscalls so far
	extern std::function<void(const char *)> on_mutate; // invariant hook after each simulated mutation
	extern std::string cwd;
	int vfd_open_sink(const std::string &name);       // an fd whose received bytes are collected
	std::string &sink(const std::string &name);
	FILE *sink_file(const std::string &name, int fd_hint = -1);
	void process_end(bool crashed);                   // close everything; flush streams first unless it crashed
	FILE *file_source(const std::string &name, const std::string &data);
	extern bool sim_stdio;
	extern std::set<uintptr_t> open_vfds();
	int open_count();                                 // simulated descriptors currently open
	extern std::map<std::string, std::string> env;    // simulated environment overrides ("\x01" = unset)
	extern uint64_t dir_order_seed;
	extern int64_t disk_free;                         // bytes left on simulated disk (<0: unlimited)
	extern int partial_reads_seed;
	extern uint64_t stack_seed;                       // what the stack contains below the caller (0: leave it)
	void real_stack();                                // locals on the real stack instead of the sanitizer's
	extern uint64_t heap_seed;                        // what freshly allocated memory contains
}
struct CrashNow {};   // thrown by longjmp emulation: see run_to_exit
// Runs f as a process: returns exit code (exit() is intercepted), or -1 when the simulated crash point was hit.
int run_process(std::function<int()> f);

// ---------------------------------------------------------------- data shared by all instances
namespace watch {
	void reset();                                     // library (and modules still loaded) as if freshly loaded
	void begin();
	std::vector<int64_t> end(int64_t &blocks);        // the basic blocks since begin() after which shared data had changed
}
// ---------------------------------------------------------------- scheduler (caller threads)
namespace sched {
	struct Switch { int64_t after; int to; };
	// Runs the bodies as real threads, exactly one at a time; a switch happens after `after` basic blocks of
	// instrumented code to thread index to%alive.
	void run(std::vector<std::function<void()>> bodies, const std::vector<Switch> &sw);
	void yield_point();                               // explicit yield opportunity (counts as one block)
	extern uint64_t switches, ihash;
}
extern uint64_t g_steps;      // basic blocks executed by instrumented code
extern uint64_t g_step_limit; // exceeding it is a "hang"
extern uint64_t g_cov;        // coverage signature of this run
int64_t live_allocs();        // live heap blocks
int64_t live_bytes();
std::string leak_sites();    // where the live blocks came from, most frequent first
std::string canon_maps();     // canonical list of mapped files below the build root
int open_fds();               // real descriptors open in this process
