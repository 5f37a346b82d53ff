// The simulated operating system: every libc entry point through which the code under test meets files,
// directories, the environment, memory mappings, the dynamic loader, process exit and other threads.
// The executable is linked -rdynamic, so these definitions win over libc's for the library, for every
// module it loads, and for the command line tools (which run in-process as shared objects).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <memory>
#include <algorithm>

static thread_local int g_sut = 0;
// What the stack below the caller contains is as arbitrary as fresh heap memory.
extern "C" int __asan_option_detect_stack_use_after_return;
__attribute__((noinline, no_sanitize("address"))) static void stack_fill(uint64_t x) {
	x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29;
	volatile unsigned char b[16384];
	memset((void *)b, (x & 3) == 0 ? 0 : (x & 3) == 1 ? 0xff : (x & 3) == 2 ? (int)(x >> 8 & 255) : 1, sizeof b);
	asm volatile("" : : "r"(b) : "memory");
}
Sut::Sut() {
	static thread_local uint64_t no = 0;
	if (os::stack_seed) stack_fill(os::stack_seed + ++no);
	g_sut++;
}
Sut::~Sut() { g_sut--; }
Harness::Harness() : saved(g_sut) { g_sut = 0; }
Harness::~Harness() { g_sut = saved; }

const char *call_name[C_NCALLS] = {"open", "read", "write", "close", "fstat", "mmap", "dlopen", "getcwd", "chdir",
	"mkstemp", "fdopen", "ftruncate", "rename", "unlink", "fchmod", "fchown", "fsync", "lseek", "opendir", "realpath",
	"dlsym", "link", "stat"};

#define REAL(name) ((decltype(&name))real_sym(#name))
static void *real_sym(const char *n) {
	void *p = dlsym(RTLD_NEXT, n);
	if (!p) { fprintf(stderr, "no real %s\n", n); abort(); }
	return p;
}

extern "C" const char *__asan_default_options() { return "detect_odr_violation=0:detect_leaks=0:abort_on_error=0:allow_user_segv_handler=0:symbolize=1:malloc_context_size=12:strict_string_checks=0"; }

uint64_t g_steps = 0, g_step_limit = ~0ull, g_cov = 0;
static uint8_t covmap[8192];
static uintptr_t prev_pc;
namespace sched { static bool on = false; static int64_t countdown; static void do_switch(); uint64_t switches = 0, ihash = 0; }

// Memory that all instances share: the writable data of the library and of the modules loaded.  Watched, it tells
// after which basic blocks it changed; reset, it is as right after loading.
#include <link.h>
namespace watch {
struct Range { uintptr_t a; size_t n; std::string name; std::vector<uint64_t> old; };
static std::vector<Range> ranges;
static std::map<std::string, std::vector<uint64_t>> fresh; // per object: its data when first seen
static bool on = false;
static int64_t blocks;
static std::vector<int64_t> hits;
__attribute__((no_sanitize("address"))) static void copy(uint64_t *d, const uint64_t *s, size_t n) { for (size_t i = 0; i < n; i++) { d[i] = s[i]; asm volatile("" : : : "memory"); } }
__attribute__((no_sanitize("address"))) static bool same(const uint64_t *d, const uint64_t *s, size_t n) { uint64_t x = 0; for (size_t i = 0; i < n; i++) x |= d[i] ^ s[i]; return x == 0; }
static int each(struct dl_phdr_info *i, size_t, void *) {
	std::string n = i->dlpi_name;
	if (n.find("/libbsdconv.so") == std::string::npos && n.find("/share/bsdconv/") == std::string::npos) return 0;
	uintptr_t a = 0, e = 0, r = 0;
	for (int k = 0; k < i->dlpi_phnum; k++) {
		auto &h = i->dlpi_phdr[k];
		if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) { a = i->dlpi_addr + h.p_vaddr; e = a + h.p_memsz; }
		if (h.p_type == PT_GNU_RELRO) r = i->dlpi_addr + h.p_vaddr + h.p_memsz;
	}
	if (r > a && r < e) a = r;
	a = (a + 7) & ~7ul;
	if (e < a + 8) return 0;
	Range g; g.a = a; g.n = (e - a) / 8; g.name = n; g.old.resize(g.n);
	copy(g.old.data(), (const uint64_t *)a, g.n);
	if (!fresh.count(n)) fresh[n] = g.old;
	ranges.push_back(g);
	return 0;
}
static uint64_t token[1]; // where libc's strtok() has got to
static void refresh() { ranges.clear(); dl_iterate_phdr(each, nullptr); ranges.push_back({(uintptr_t)token, 1, "strtok", {token[0]}}); }
static void look() {
	blocks++;
	for (auto &r : ranges) if (!same(r.old.data(), (const uint64_t *)r.a, r.n)) {
		copy(r.old.data(), (const uint64_t *)r.a, r.n);
		if (hits.empty() || hits.back() != blocks) hits.push_back(blocks);
	}
}
void reset() {
	refresh();
	token[0] = 0;
	for (auto &r : ranges) { auto &f = fresh[r.name]; if (f.size() == r.n) copy((uint64_t *)r.a, f.data(), r.n); }
}
void begin() { refresh(); hits.clear(); blocks = 0; on = true; }
std::vector<int64_t> end(int64_t &n) { on = false; n = blocks; ranges.clear(); return hits; }
}
extern "C" char *strtok(char *s, const char *delim) __THROW { return strtok_r(s, delim, (char **)watch::token); }
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
	++g_steps;
	uintptr_t pc = (uintptr_t)__builtin_return_address(0) & 0xfff;
	uintptr_t e = (prev_pc * 17 + pc) & 0xffff;
	prev_pc = pc;
	covmap[e >> 3] |= 1 << (e & 7);
	if (__builtin_expect(g_steps > g_step_limit, 0)) {
		g_step_limit = ~0ull;
		g_sut = 0;
		violation("hang", "no progress within the step budget");
	}
	if (__builtin_expect(watch::on, 0) && g_sut > 0) watch::look();
	if (__builtin_expect(sched::on, 0) && g_sut > 0 && --sched::countdown <= 0) sched::do_switch();
}
uint64_t cov_signature() {
	uint64_t h = 1469598103934665603ull;
	for (size_t i = 0; i < sizeof covmap; i++) h = (h ^ covmap[i]) * 1099511628211ull;
	return h;
}

// ------------------------------------------------------------------ heap accounting (blocks allocated by the SUT)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static const size_t HT = 1 << 20;
static uintptr_t *ht; static uint32_t *hsz;
static int64_t nlive = 0, nbytes = 0;
static bool track = false;
// What a fresh block contains is up to the allocator: a seeded choice per block (zeros, ones, the byte's own, noise).
uint64_t os::heap_seed = 0, os::stack_seed = 0;
static uint64_t heap_no = 0;
__attribute__((no_sanitize("address"))) static void mhook(const volatile void *p, size_t n) {
	if (g_sut <= 0 || !p) return;
	if (n <= 16384) {
		uint64_t x = (os::heap_seed + ++heap_no) * 0x9E3779B97F4A7C15ull;
		x ^= x >> 29;
		volatile unsigned char *q = (volatile unsigned char *)p;
		unsigned char c = (x & 3) == 0 ? 0 : (x & 3) == 1 ? 0xff : (x & 3) == 2 ? (unsigned char)(x >> 8) : 1;
		for (size_t i = 0; i < n; i++) q[i] = c;
	}
	if (!track) return;
	size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44;
	while (ht[i] && ht[i] != 1) i = (i + 1) & (HT - 1);
	ht[i] = (uintptr_t)p; hsz[i] = n; nlive++; nbytes += n;
}
__attribute__((no_sanitize("address"))) static void fhook(const volatile void *p) {
	if (!track || !p) return;
	size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44;
	while (ht[i]) {
		if (ht[i] == (uintptr_t)p) { ht[i] = 1; nlive--; nbytes -= hsz[i]; return; }
		i = (i + 1) & (HT - 1);
	}
}
int64_t live_allocs() {
	if (!track) {
		ht = (uintptr_t *)syscall(SYS_mmap, 0, HT * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		hsz = (uint32_t *)syscall(SYS_mmap, 0, HT * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		track = true;
	}
	dlerror(); dlerror(); // drops the message libc keeps of the last failed lookup
	return nlive;
}
int64_t live_bytes() { return nbytes; }
extern "C" size_t __asan_get_alloc_stack(void *addr, void **trace, size_t size, int *thread_id);
std::string leak_sites() {
	std::map<std::string, int> by;
	if (!track) return "";
	for (size_t i = 0; i < HT; i++) if (ht[i] > 1) {
		void *tr[8]; int tid;
		size_t k = __asan_get_alloc_stack((void *)ht[i], tr, 8, &tid);
		std::string s = fmt("%u bytes:", hsz[i]);
		for (size_t j = 1; j < k && j < 5; j++) {
			Dl_info di;
			if (dladdr(tr[j], &di) && di.dli_fname) { const char *b = strrchr(di.dli_fname, '/'); s += std::string(" ") + (b ? b + 1 : di.dli_fname) + ":" + (di.dli_sname ? di.dli_sname : "?"); }
		}
		by[s]++;
	}
	std::vector<std::pair<int, std::string>> v;
	for (auto &x : by) v.push_back({-x.second, x.first});
	std::sort(v.begin(), v.end());
	std::string r;
	for (size_t i = 0; i < v.size() && i < 4; i++) r += fmt(" [%d x ", -v[i].first) + v[i].second + "]";
	return r;
}

// ------------------------------------------------------------------ simulated world
namespace os {
extern std::map<std::string, std::string> so_map;
void real_stack() { __asan_option_detect_stack_use_after_return = 0; }
std::string root;
std::vector<FaultRule> faults;
static std::vector<int64_t> seen;
uint64_t calls[C_NCALLS], fired[C_NCALLS];
int64_t crash_at = -1, sysno = 0;
int64_t disk_free = -1;
std::function<void(const char *)> on_mutate;
std::string cwd = "/work";
std::map<std::string, std::string> env;
uint64_t dir_order_seed = 0;
bool sim_stdio = false;
int partial_reads_seed = 0;

typedef std::shared_ptr<Inode> Ino;
struct Sink { std::string data; };
struct VFile { std::string path; Ino ino; std::string *sink = nullptr; int64_t pos = 0; bool app = false, rd = true, wr = false; };
static std::map<std::string, Ino> fs;
static std::set<std::string> dirs;
static std::map<int, VFile> fds;
static std::map<FILE *, int> files;
static std::map<std::string, std::string> sinks;
static int nextfd = 10000, ntemp = 0;
static uint64_t readrng = 0;

void reset() {
	static bool hooked = false;
	if (!hooked) { __sanitizer_install_malloc_and_free_hooks(mhook, fhook); hooked = true; }
	heap_seed = 0; heap_no = 0; stack_seed = 0;
	__asan_option_detect_stack_use_after_return = 1;
	faults.clear(); seen.clear();
	memset(calls, 0, sizeof calls); memset(fired, 0, sizeof fired);
	crash_at = -1; sysno = 0; disk_free = -1; on_mutate = nullptr; cwd = "/work"; env.clear(); dir_order_seed = 0;
	fs.clear(); fds.clear(); files.clear(); sinks.clear(); nextfd = 10000; ntemp = 0; partial_reads_seed = 0; readrng = 0; so_map.clear();
	dirs = {"/", "/work", "/work/sub", "/tmp", "/home"};
	env["BSDCONV_PATH"] = root;
	env["HOME"] = "/home";
	env["LC_ALL"] = "C.UTF-8";
}
static bool is_real(const std::string &p) {
	static const char *pre[] = {"/proc/", "/lib/", "/lib64/", "/usr/", "/etc/", "/dev/", "/sys/"};
	static std::string top = root.substr(0, root.rfind('/'));
	if (p == top || p.compare(0, top.size() + 1, top + "/") == 0) return true;
	if (p == "/nonexistent" || p.compare(0, 13, "/nonexistent/") == 0) return true;
	for (auto x : pre) if (p.compare(0, strlen(x), x) == 0) return true;
	return false;
}
static std::string norm(const std::string &p0) {
	std::string p = p0.empty() || p0[0] != '/' ? cwd + "/" + p0 : p0;
	std::vector<std::string> out;
	size_t i = 0;
	while (i < p.size()) {
		size_t j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		std::string c = p.substr(i, j - i);
		if (c == "..") { if (!out.empty()) out.pop_back(); }
		else if (!c.empty() && c != ".") out.push_back(c);
		i = j + 1;
	}
	std::string r;
	for (auto &c : out) r += "/" + c;
	return r.empty() ? "/" : r;
}
void add_file(const std::string &path, const std::string &data, int mode, int uid, int gid) {
	auto i = std::make_shared<Inode>();
	i->data = data; i->mode = mode; i->uid = uid; i->gid = gid;
	fs[norm(path)] = i;
}
void add_dir(const std::string &p) { dirs.insert(norm(p)); }
bool is_dir(const std::string &p) { return dirs.count(norm(p)) > 0; }
void del_file(const std::string &p) { fs.erase(norm(p)); }
std::map<std::string, std::string> so_map;
bool exists(const std::string &p) { return fs.count(norm(p)) > 0; }
Inode *inode(const std::string &p) { auto it = fs.find(norm(p)); return it == fs.end() ? nullptr : it->second.get(); }
std::vector<std::string> list() { std::vector<std::string> r; for (auto &x : fs) r.push_back(x.first); return r; }
int open_count() { return (int)fds.size(); }
std::string &sink(const std::string &n) { return sinks[n]; }
int vfd_open_sink(const std::string &n) {
	VFile f; f.path = "sink:" + n; f.sink = &sinks[n]; f.wr = true; f.rd = false;
	int fd = nextfd++; fds[fd] = f; return fd;
}

static FaultRule *check(int c, const std::string &path) {
	calls[c]++;
	if (seen.size() < faults.size()) seen.resize(faults.size(), 0);
	FaultRule *hit = nullptr;
	for (size_t i = 0; i < faults.size(); i++) {
		FaultRule &r = faults[i];
		if (r.call != c) continue;
		if (!r.path.empty() && path.find(r.path) == std::string::npos) continue;
		int64_t k = seen[i]++;
		if (k >= r.nth && (r.count <= 0 || k < r.nth + r.count) && !hit) hit = &r;
	}
	if (hit) {
		fired[c]++;
		stat(fmt("fault.%s.%s", call_name[c], hit->err ? strerrorname_np(hit->err) : "partial"));
		ev(fmt("fault %s %s", call_name[c], hit->err ? strerrorname_np(hit->err) : "partial"));
	}
	return hit;
}
static sigjmp_buf *proc_jb = nullptr;
static int proc_code;
static bool proc_crashed;
static void maybe_crash() {
	if (sysno++ == crash_at && proc_jb) {
		ev("crash");
		stat("fault.crash");
		proc_crashed = true;
		siglongjmp(*proc_jb, 1);
	}
}
static void mutated(const char *what) {
	ev(std::string("mutate ") + what);
	if (on_mutate) on_mutate(what);
}
// -------- descriptor level
static int do_open(const std::string &path, int flags, int mode) {
	std::string p = norm(path);
	maybe_crash();
	if (FaultRule *f = check(C_OPEN, p)) { errno = f->err ? f->err : EIO; return -1; }
	if (dirs.count(p)) { errno = EISDIR; return -1; }
	size_t sl = p.rfind('/');
	std::string par = sl == 0 ? "/" : p.substr(0, sl);
	auto it = fs.find(p);
	if (it == fs.end()) {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		if (!dirs.count(par)) { errno = ENOENT; return -1; }
		auto i = std::make_shared<Inode>();
		i->mode = mode & ~022;
		fs[p] = i;
		it = fs.find(p);
		mutated("create");
	} else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
	VFile v; v.path = p; v.ino = it->second;
	int acc = flags & O_ACCMODE;
	v.rd = acc != O_WRONLY; v.wr = acc != O_RDONLY; v.app = flags & O_APPEND;
	if ((flags & O_TRUNC) && v.wr && !v.ino->data.empty()) { v.ino->data.clear(); mutated("truncate"); }
	int fd = nextfd++;
	fds[fd] = v;
	return fd;
}
static ssize_t do_write1(int fd, const char *b, size_t n, bool stdio) {
	auto it = fds.find(fd);
	if (it == fds.end() || !it->second.wr) { errno = EBADF; return -1; }
	VFile &v = it->second;
	bool torn_crash = (sysno == crash_at && proc_jb);
	FaultRule *f = check(C_WRITE, v.path);
	size_t can = n;
	int err = 0;
	if (f) {
		if (f->err) { err = f->err; can = 0; }
		else can = std::min<size_t>(n, (size_t)std::max<int64_t>(n ? 1 : 0, f->arg));
	}
	if (!err && !v.sink && disk_free >= 0) {
		if ((int64_t)can > disk_free) { can = disk_free; if (!can && n) { err = ENOSPC; fired[C_WRITE]++; stat("fault.write.disk-full"); } }
		disk_free -= can;
	}
	if (torn_crash) can = can / 2;
	if (!err && can) {
		std::string bytes(b, can); // reads the caller's buffer (checked by ASan)
		if (v.sink) v.sink->append(bytes);
		else {
			std::string &d = v.ino->data;
			if (v.app) v.pos = d.size();
			if (v.pos + (int64_t)can > (1 << 26)) { maybe_crash(); errno = EFBIG; return -1; } // largest file of this world
			if ((int64_t)d.size() < v.pos) d.resize(v.pos, '\0');
			if (d.size() < v.pos + can) d.resize(v.pos + can);
			memcpy(&d[v.pos], bytes.data(), can);
			v.pos += can;
		}
		mutated("write");
	}
	maybe_crash();
	if (err) { errno = err; return -1; }
	return can;
}
static ssize_t do_read(int fd, char *b, size_t n) {
	auto it = fds.find(fd);
	if (it == fds.end() || !it->second.rd) { errno = EBADF; return -1; }
	VFile &v = it->second;
	maybe_crash();
	FaultRule *f = check(C_READ, v.path);
	if (f && f->err) { errno = f->err; return -1; }
	size_t len = v.ino->data.size();
	size_t av = v.pos < (int64_t)len ? len - v.pos : 0;
	size_t can = std::min(n, av);
	if (f && can) can = std::min<size_t>(can, std::max<int64_t>(1, f->arg));
	else if (partial_reads_seed && can > 1) {
		readrng = mix(readrng + 1, partial_reads_seed);
		if (readrng % 3) can = 1 + readrng / 3 % can;
	}
	memcpy(b, v.ino->data.data() + v.pos, can);
	v.pos += can;
	return can;
}
static int do_close(int fd) {
	auto it = fds.find(fd);
	if (it == fds.end()) { errno = EBADF; return -1; }
	std::string p = it->second.path;
	fds.erase(it);
	maybe_crash();
	if (FaultRule *f = check(C_CLOSE, p)) { errno = f->err ? f->err : EIO; return -1; }
	return 0;
}
static int64_t do_lseek(int fd, int64_t off, int wh) {
	auto it = fds.find(fd);
	if (it == fds.end()) { errno = EBADF; return -1; }
	VFile &v = it->second;
	if (FaultRule *f = check(C_LSEEK, v.path)) { errno = f->err ? f->err : EIO; return -1; }
	if (v.sink) { errno = ESPIPE; return -1; }
	int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? v.pos : (int64_t)v.ino->data.size();
	if (b + off < 0) { errno = EINVAL; return -1; }
	return v.pos = b + off;
}
static bool is_v(int fd) { return fd >= 10000 && fds.count(fd); }
static void fill(struct ::stat *st, const VFile &v) {
	memset(st, 0, sizeof *st);
	if (v.sink) { st->st_mode = S_IFIFO | 0600; return; }
	st->st_mode = S_IFREG | (v.ino->mode & 07777);
	st->st_uid = v.ino->uid; st->st_gid = v.ino->gid;
	st->st_size = v.ino->data.size(); st->st_nlink = 1; st->st_blksize = 4096;
	st->st_ino = (uintptr_t)v.ino.get();
}
// -------- stdio on top of descriptors: real glibc buffering, simulated device
static ssize_t ck_read(void *c, char *b, size_t n) { Harness h; return do_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
	Harness h;
	size_t done = 0;
	while (done < n) { // as glibc's own file write does: a short write is continued, an error ends the stream write
		ssize_t r = do_write1((int)(intptr_t)c, b + done, n - done, true);
		if (r < 0) break;
		done += r;
	}
	return done ? (ssize_t)done : (n ? 0 : 0);
}
static int ck_seek(void *c, off64_t *o, int wh) {
	Harness h;
	int64_t r = do_lseek((int)(intptr_t)c, *o, wh);
	if (r < 0) return -1;
	*o = r; return 0;
}
static int ck_close(void *c) {
	Harness h;
	for (auto it = files.begin(); it != files.end(); ++it) if (it->second == (int)(intptr_t)c) { files.erase(it); break; }
	return do_close((int)(intptr_t)c);
}
static FILE *mk_file(int fd, const char *mode) {
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
	files[f] = fd;
	return f;
}
void process_end(bool crashed) {
	if (!crashed) { // what exit() does
		std::vector<FILE *> fs_;
		for (auto &x : files) fs_.push_back(x.first);
		for (auto f : fs_) fflush(f);
	}
	fds.clear(); files.clear();
}
FILE *sink_file(const std::string &n, int hint) { return mk_file(vfd_open_sink(n), "wb"); }
FILE *file_source(const std::string &n, const std::string &data) {
	VFile v; v.path = "src:" + n; v.ino = std::make_shared<Inode>(); v.ino->data = data; v.rd = true;
	int fd = nextfd++; fds[fd] = v;
	return mk_file(fd, "rb");
}
} // namespace os

int run_process(std::function<int()> f) {
	sigjmp_buf jb;
	os::proc_jb = &jb;
	os::proc_crashed = false;
	volatile int sut0 = g_sut;
	int r;
	if (sigsetjmp(jb, 1) == 0) {
		Sut s;
		r = f();
	} else {
		g_sut = sut0;
		r = os::proc_crashed ? -1 : os::proc_code;
	}
	os::proc_jb = nullptr;
	return r;
}

// ------------------------------------------------------------------ interposed libc
#define V (g_sut > 0)
using namespace os;
extern "C" {
void exit(int code) {
	if (V && proc_jb) { proc_code = code & 0xff; siglongjmp(*proc_jb, 2); }
	static void (*r)(int) = (void (*)(int))real_sym("exit");
	r(code);
	__builtin_unreachable();
}
static int raw_open(const char *p, int fl, int mode) { return syscall(SYS_openat, AT_FDCWD, p, fl, mode); }
static int xopen(const char *p, int fl, int mode) {
	if (!V) return raw_open(p, fl, mode);
	Harness h;
	std::string q = norm(p);
	if (!is_real(q)) return do_open(p, fl, mode);
	if (FaultRule *f = check(C_OPEN, q)) { errno = f->err ? f->err : EIO; return -1; }
	return raw_open(q.c_str(), fl, mode);
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return xopen(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return xopen(p, fl, m); }
int creat(const char *p, mode_t m) { return xopen(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n) {
	if (V && is_v(fd)) { Harness h; return do_read(fd, (char *)b, n); }
	return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
	if (V && is_v(fd)) { Harness h; return do_write1(fd, (const char *)b, n, false); }
	if (V && (fd == 1 || fd == 2)) return n; // the code under test never reaches the real terminal
	return syscall(SYS_write, fd, b, n);
}
#include <sys/uio.h>
ssize_t writev(int fd, const struct iovec *v, int c) {
	if (V && is_v(fd)) {
		Harness h;
		std::string all;
		for (int i = 0; i < c; i++) all.append((const char *)v[i].iov_base, v[i].iov_len);
		return do_write1(fd, all.data(), all.size(), false);
	}
	return syscall(SYS_writev, fd, v, c);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
	if (V && is_v(fd)) { Harness h; int64_t k = fds[fd].pos; fds[fd].pos = o; ssize_t r = do_write1(fd, (const char *)b, n, false); fds[fd].pos = k; return r; }
	return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
	if (V && is_v(fd)) { Harness h; int64_t k = fds[fd].pos; fds[fd].pos = o; ssize_t r = do_read(fd, (char *)b, n); fds[fd].pos = k; return r; }
	return syscall(SYS_pread64, fd, b, n, o);
}
int close(int fd) {
	if (V) {
		Harness h;
		if (is_v(fd)) return do_close(fd);
		check(C_CLOSE, "real");
	}
	return syscall(SYS_close, fd);
}
off_t lseek(int fd, off_t o, int w) {
	if (V && is_v(fd)) { Harness h; return do_lseek(fd, o, w); }
	return syscall(SYS_lseek, fd, o, w);
}
static int xfstat(int fd, struct ::stat *st) {
	if (V) {
		Harness h;
		if (FaultRule *f = check(C_FSTAT, is_v(fd) ? fds[fd].path : "real")) { errno = f->err ? f->err : EIO; return -1; }
		if (is_v(fd)) { fill(st, fds[fd]); return 0; }
	}
	return syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}
int fstat(int fd, struct ::stat *st) { return xfstat(fd, st); }
int fstat64(int fd, struct stat64 *st) { return xfstat(fd, (struct ::stat *)st); }
static int xstat(const char *p, struct ::stat *st, int fl) {
	if (V) {
		Harness h;
		std::string q = norm(p);
		if (FaultRule *f = check(C_STAT, q)) { errno = f->err ? f->err : EIO; return -1; }
		if (!is_real(q)) {
			if (dirs.count(q)) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
			auto it = fs.find(q);
			if (it == fs.end()) { errno = ENOENT; return -1; }
			VFile v; v.ino = it->second; fill(st, v); return 0;
		}
		return syscall(SYS_newfstatat, AT_FDCWD, q.c_str(), st, fl);
	}
	return syscall(SYS_newfstatat, AT_FDCWD, p, st, fl);
}
int stat(const char *p, struct ::stat *st) { return xstat(p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return xstat(p, (struct ::stat *)st, 0); }
int lstat(const char *p, struct ::stat *st) { return xstat(p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return xstat(p, (struct ::stat *)st, AT_SYMLINK_NOFOLLOW); }
int access(const char *p, int m) {
	if (V) {
		Harness h;
		std::string q = norm(p);
		if (FaultRule *f = check(C_STAT, q)) { errno = f->err ? f->err : EIO; return -1; }
		if (!is_real(q)) { if (fs.count(q) || dirs.count(q)) return 0; errno = ENOENT; return -1; }
		return syscall(SYS_faccessat, AT_FDCWD, q.c_str(), m);
	}
	return syscall(SYS_faccessat, AT_FDCWD, p, m);
}
int unlink(const char *p) {
	if (!V) return syscall(SYS_unlinkat, AT_FDCWD, p, 0);
	Harness h;
	std::string q = norm(p);
	maybe_crash();
	if (FaultRule *f = check(C_UNLINK, q)) { errno = f->err ? f->err : EIO; return -1; }
	if (!fs.erase(q)) { errno = ENOENT; return -1; }
	mutated("unlink");
	return 0;
}
int remove(const char *p) { if (!V) return syscall(SYS_unlinkat, AT_FDCWD, p, 0); return unlink(p); }
int rename(const char *a, const char *b) {
	if (!V) return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
	Harness h;
	std::string x = norm(a), y = norm(b);
	maybe_crash();
	if (FaultRule *f = check(C_RENAME, x)) { errno = f->err ? f->err : EIO; return -1; }
	auto it = fs.find(x);
	if (it == fs.end()) { errno = ENOENT; return -1; }
	if (dirs.count(y)) { errno = EISDIR; return -1; }
	auto ino = it->second;
	if (x != y) { fs.erase(it); fs[y] = ino; }
	mutated("rename");
	return 0;
}
int link(const char *a, const char *b) {
	if (!V) return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
	Harness h;
	std::string x = norm(a), y = norm(b);
	maybe_crash();
	if (FaultRule *f = check(C_LINK, x)) { errno = f->err ? f->err : EIO; return -1; }
	if (!fs.count(x)) { errno = ENOENT; return -1; }
	if (fs.count(y)) { errno = EEXIST; return -1; }
	fs[y] = fs[x];
	mutated("link");
	return 0;
}
static int xmkstemp(char *t, int suf) {
	Harness h;
	size_t n = strlen(t);
	std::string q = norm(t);
	maybe_crash();
	if (FaultRule *f = check(C_MKSTEMP, q)) { errno = f->err ? f->err : EIO; return -1; }
	if (n < 6 + (size_t)suf || strncmp(t + n - suf - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; }
	char nm[8];
	for (;;) {
		snprintf(nm, sizeof nm, "s%05d", ntemp++ % 100000);
		memcpy(t + n - suf - 6, nm, 6);
		if (!fs.count(norm(t))) break;
	}
	return do_open(t, O_CREAT | O_EXCL | O_RDWR, 0600);
}
int mkstemp(char *t) { if (V) return xmkstemp(t, 0); return REAL(mkstemp)(t); }
int mkstemp64(char *t) { if (V) return xmkstemp(t, 0); return REAL(mkstemp)(t); }
int mkostemp(char *t, int fl) { if (V) return xmkstemp(t, 0); return REAL(mkostemp)(t, fl); }
int mkstemps(char *t, int s) { if (V) return xmkstemp(t, s); return REAL(mkstemps)(t, s); }
int ftruncate(int fd, off_t n) {
	if (V && is_v(fd)) {
		Harness h;
		maybe_crash();
		if (FaultRule *f = check(C_FTRUNC, fds[fd].path)) { errno = f->err ? f->err : EIO; return -1; }
		if (!fds[fd].wr || fds[fd].sink) { errno = EINVAL; return -1; }
		if (n > (1 << 26)) { fds[fd].ino->mode |= 0; fds[fd].ino->links = 2; /* sparse: size kept out of band */ return 0; }
		fds[fd].ino->data.resize(n);
		mutated("ftruncate");
		return 0;
	}
	return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fchmod(int fd, mode_t m) {
	if (V && is_v(fd)) {
		Harness h;
		maybe_crash();
		if (FaultRule *f = check(C_FCHMOD, fds[fd].path)) { errno = f->err ? f->err : EIO; return -1; }
		if (fds[fd].ino) fds[fd].ino->mode = m & 07777;
		return 0;
	}
	return syscall(SYS_fchmod, fd, m);
}
int chmod(const char *p, mode_t m) {
	if (!V) return syscall(SYS_fchmodat, AT_FDCWD, p, m);
	Harness h;
	maybe_crash();
	std::string q = norm(p);
	if (FaultRule *f = check(C_FCHMOD, q)) { errno = f->err ? f->err : EIO; return -1; }
	if (!fs.count(q)) { errno = ENOENT; return -1; }
	fs[q]->mode = m & 07777;
	return 0;
}
static int own(Ino i, uid_t u, gid_t g) {
	if (!i) return 0;
	if (u != (uid_t)-1) i->uid = u;
	if (g != (gid_t)-1) i->gid = g;
	i->mode &= ~06000; // as the kernel does
	return 0;
}
int fchown(int fd, uid_t u, gid_t g) {
	if (V && is_v(fd)) {
		Harness h;
		maybe_crash();
		if (FaultRule *f = check(C_FCHOWN, fds[fd].path)) { errno = f->err ? f->err : EPERM; return -1; }
		return own(fds[fd].ino, u, g);
	}
	return syscall(SYS_fchown, fd, u, g);
}
int chown(const char *p, uid_t u, gid_t g) {
	if (!V) return syscall(SYS_fchownat, AT_FDCWD, p, u, g, 0);
	Harness h;
	std::string q = norm(p);
	maybe_crash();
	if (FaultRule *f = check(C_FCHOWN, q)) { errno = f->err ? f->err : EPERM; return -1; }
	if (!fs.count(q)) { errno = ENOENT; return -1; }
	return own(fs[q], u, g);
}
static int xsync(int fd) {
	Harness h;
	maybe_crash();
	if (FaultRule *f = check(C_FSYNC, fds[fd].path)) { errno = f->err ? f->err : EIO; return -1; }
	return 0;
}
int fsync(int fd) { if (V && is_v(fd)) return xsync(fd); return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (V && is_v(fd)) return xsync(fd); return syscall(SYS_fdatasync, fd); }
int isatty(int fd) { if (V && is_v(fd)) { errno = ENOTTY; return 0; } struct { int c[16]; } t; return syscall(SYS_ioctl, fd, 0x5401, &t) == 0; }

static FILE *xfopen(const char *p, const char *m, FILE *(*real)(const char *, const char *)) {
	Harness h;
	std::string q = norm(p);
	int fl = 0;
	bool plus = strchr(m, '+');
	if (m[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
	else if (m[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
	else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
	if (is_real(q)) {
		if (FaultRule *f = check(C_OPEN, q)) { errno = f->err ? f->err : EIO; return nullptr; }
		if (m[0] != 'r' || plus) { errno = EROFS; return nullptr; }
		return real(q.c_str(), m);
	}
	int fd = do_open(p, fl, 0666);
	if (fd < 0) return nullptr;
	return mk_file(fd, m);
}
FILE *fopen(const char *p, const char *m) {
	static FILE *(*r)(const char *, const char *) = (FILE * (*)(const char *, const char *)) real_sym("fopen");
	if (V) return xfopen(p, m, r);
	return r(p, m);
}
FILE *fopen64(const char *p, const char *m) {
	static FILE *(*r)(const char *, const char *) = (FILE * (*)(const char *, const char *)) real_sym("fopen64");
	if (V) return xfopen(p, m, r);
	return r(p, m);
}
FILE *fdopen(int fd, const char *m) {
	if (V && is_v(fd)) {
		Harness h;
		if (FaultRule *f = check(C_FDOPEN, fds[fd].path)) { errno = f->err ? f->err : ENOMEM; return nullptr; }
		return mk_file(fd, m);
	}
	return REAL(fdopen)(fd, m);
}
FILE *tmpfile(void) {
	if (V) { Harness h; char t[] = "/tmp/tfXXXXXX"; int fd = xmkstemp(t, 0); if (fd < 0) return nullptr; fs.erase(norm(t)); return mk_file(fd, "wb+"); }
	return REAL(tmpfile)();
}
int fileno(FILE *f) __THROW {
	auto it = files.find(f);
	if (it != files.end()) return it->second;
	static int (*r)(FILE *) = (int (*)(FILE *))real_sym("fileno");
	return r(f);
}
int fileno_unlocked(FILE *f) __THROW { return fileno(f); }

char *getcwd(char *b, size_t n) __THROW {
	if (!V) { static char *(*r)(char *, size_t) = (char *(*)(char *, size_t))real_sym("getcwd"); return r(b, n); }
	FaultRule *f; std::string c;
	{ Harness h; f = check(C_GETCWD, ""); c = cwd; }
	if (f) { errno = f->err ? f->err : ENOENT; return nullptr; }
	if (!b) return strdup(c.c_str());
	if (c.size() + 1 > n) { errno = ERANGE; return nullptr; }
	return strcpy(b, c.c_str());
}
char *get_current_dir_name(void) __THROW { if (V) return getcwd(nullptr, 0); return REAL(get_current_dir_name)(); }
int chdir(const char *p) __THROW {
	if (!V) return syscall(SYS_chdir, p);
	if (!p) { errno = EFAULT; return -1; }
	Harness h;
	std::string q = norm(p);
	if (FaultRule *f = check(C_CHDIR, q)) { errno = f->err ? f->err : EACCES; return -1; }
	if (is_real(q)) {
		struct ::stat st;
		if (syscall(SYS_newfstatat, AT_FDCWD, q.c_str(), &st, 0)) { errno = ENOENT; return -1; }
		if (!S_ISDIR(st.st_mode)) { errno = ENOTDIR; return -1; }
	} else if (!dirs.count(q)) { errno = ENOENT; return -1; }
	cwd = q;
	return 0;
}
char *realpath(const char *p, char *out) __THROW {
	if (!V) { static char *(*r)(const char *, char *) = (char *(*)(const char *, char *))dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3"); return r(p, out); }
	FaultRule *f; std::string q;
	{ Harness h; q = norm(p); f = check(C_REALPATH, q); }
	if (f) { errno = f->err ? f->err : ENOENT; return nullptr; }
	if (!is_real(q)) {
		if (!fs.count(q) && !dirs.count(q)) { if (out) strcpy(out, q.c_str()); errno = ENOENT; return nullptr; }
	} else {
		struct ::stat st;
		if (syscall(SYS_newfstatat, AT_FDCWD, q.c_str(), &st, 0)) { if (out) strcpy(out, q.c_str()); errno = ENOENT; return nullptr; }
	}
	if (!out) return strdup(q.c_str());
	return strcpy(out, q.c_str());
}
char *getenv(const char *n) __THROW {
	if (V) {
		auto it = env.find(n);
		if (it != env.end()) return it->second == "\x01" ? nullptr : (char *)it->second.c_str();
		if (!strncmp(n, "BSDCONV", 7)) return nullptr;
	}
	static char *(*r)(const char *) = (char *(*)(const char *))real_sym("getenv");
	return r(n);
}
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) __THROW {
	if (V) {
		Harness h;
		if (!(fl & MAP_ANONYMOUS)) {
			if (FaultRule *f = check(C_MMAP, is_v(fd) ? fds[fd].path : "real")) { errno = f->err ? f->err : ENOMEM; return MAP_FAILED; }
			if (is_v(fd)) {
				if (n == 0) { errno = EINVAL; return MAP_FAILED; }
				VFile &v = fds[fd];
				bool sparse = v.ino->links == 2;
				size_t sz = v.ino->data.size();
				char *m = (char *)syscall(SYS_mmap, 0, n, sparse ? PROT_READ | PROT_WRITE : PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (!sparse) {
					memcpy(m, v.ino->data.data(), std::min(n, sz));
					size_t pg = (sz + 4095) & ~4095ul; // beyond end of file: bus error
					if (pg < n) mprotect(m + pg, n - pg, PROT_NONE);
				}
				return m;
			}
		}
	}
	return (void *)syscall(SYS_mmap, a, n, prot, fl, fd, off);
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t off) __THROW { return mmap(a, n, prot, fl, fd, off); }
void *dlopen(const char *p, int fl) {
	static void *(*r)(const char *, int) = (void *(*)(const char *, int))real_sym("dlopen");
	if (!V) return r(p, fl);
	Harness h;
	std::string q = p ? norm(p) : "";
	if (FaultRule *f = check(C_DLOPEN, q)) { (void)f; return nullptr; }
	if (p && so_map.count(q) && fs.count(q)) q = so_map[q];
	if (p && !is_real(q)) return nullptr;
	bool w = watch::on;
	watch::on = false;
	void *got = r(p ? q.c_str() : p, fl);
	if (w) { watch::refresh(); watch::on = true; }
	return got;
}
int dlclose(void *p) __THROW {
	static int (*r)(void *) = (int (*)(void *))real_sym("dlclose");
	if (!V) return r(p);
	Harness h;
	bool w = watch::on;
	watch::on = false;
	int got = r(p);
	if (w) { watch::refresh(); watch::on = true; }
	return got;
}

// directories: the order in which entries are returned is a simulator decision
struct SimDir { uint32_t magic; std::vector<std::string> names; size_t pos; struct dirent de; };
DIR *opendir(const char *p) {
	static DIR *(*r)(const char *) = (DIR * (*)(const char *)) real_sym("opendir");
	if (!V) return r(p);
	Harness h;
	std::string q = norm(p);
	if (FaultRule *f = check(C_OPENDIR, q)) { errno = f->err ? f->err : EMFILE; return nullptr; }
	SimDir *d = new SimDir; d->magic = 0x51D15; d->pos = 0;
	if (is_real(q)) {
		DIR *rd = r(q.c_str());
		if (!rd) { delete d; return nullptr; }
		struct dirent *(*rr)(DIR *) = (struct dirent * (*)(DIR *)) real_sym("readdir");
		while (struct dirent *e = rr(rd)) d->names.push_back(e->d_name);
		((int (*)(DIR *))real_sym("closedir"))(rd);
	} else {
		if (!dirs.count(q)) { delete d; errno = ENOENT; return nullptr; }
		for (auto &x : fs) { size_t k = x.first.rfind('/'); if ((k ? x.first.substr(0, k) : "/") == q) d->names.push_back(x.first.substr(k + 1)); }
	}
	std::sort(d->names.begin(), d->names.end());
	Rng g(mix(dir_order_seed, 77));
	for (size_t i = d->names.size(); i > 1; i--) std::swap(d->names[i - 1], d->names[g.below(i)]);
	int fd = nextfd++;
	VFile v; v.path = "dir:" + q; fds[fd] = v;
	d->de.d_off = fd;
	return (DIR *)d;
}
struct dirent *readdir(DIR *dp) {
	static struct dirent *(*r)(DIR *) = (struct dirent * (*)(DIR *)) real_sym("readdir");
	if (!V) return r(dp);
	SimDir *d = (SimDir *)dp;
	if (d->pos >= d->names.size()) return nullptr;
	const std::string &s = d->names[d->pos++];
	memset(d->de.d_name, 0, sizeof d->de.d_name);
	strncpy(d->de.d_name, s.c_str(), sizeof d->de.d_name - 1);
	return &d->de;
}
struct dirent64 *readdir64(DIR *dp) { return (struct dirent64 *)readdir(dp); }
int closedir(DIR *dp) {
	static int (*r)(DIR *) = (int (*)(DIR *))real_sym("closedir");
	if (!V) return r(dp);
	Harness h;
	SimDir *d = (SimDir *)dp;
	fds.erase((int)d->de.d_off);
	delete d;
	return 0;
}

// a lock taken by the code under test must not block the (single) running thread
int pthread_mutex_lock(pthread_mutex_t *m) __THROWNL {
	static int (*r)(pthread_mutex_t *) = nullptr;
	static int (*t)(pthread_mutex_t *) = nullptr;
	if (!r) { r = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock"); t = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); }
	if (!V || !sched::on) return r(m);
	for (;;) {
		int e = t(m);
		if (e != EBUSY) return e;
		sched::do_switch();
		if (++g_steps > g_step_limit) { g_sut = 0; violation("hang", "lock never released"); }
	}
}
} // extern "C"

// ------------------------------------------------------------------ scheduler
namespace sched {
struct Th { pthread_t t; sem_t go; std::function<void()> body; bool done = false; };
static std::vector<Th *> th;
static int cur;
static sem_t all_done;
static std::vector<Switch> script;
static size_t pos;
static void load_next() { countdown = pos < script.size() ? std::max<int64_t>(1, script[pos].after) : (int64_t)1 << 60; }
static int pick(int want) {
	int n = th.size();
	for (int i = 0; i < n; i++) { int k = ((want + i) % n + n) % n; if (!th[k]->done) return k; }
	return -1;
}
static void hand(int to) { cur = to; sem_post(&th[to]->go); }
static void do_switch() {
	int e = errno;
	int saved = g_sut;
	g_sut = 0;
	int me = cur, want = pos < script.size() ? script[pos].to : me + 1;
	pos++;
	load_next();
	int to = pick(want);
	if (to == me || to < 0) to = pick(me + 1);
	if (to >= 0 && to != me) {
		switches++;
		ihash = mix(ihash, mix(g_steps, to));
		hand(to);
		while (sem_wait(&th[me]->go) != 0) {}
	}
	g_sut = saved;
	errno = e;
}
static void *tmain(void *a) {
	Th *t = (Th *)a;
	while (sem_wait(&t->go) != 0) {}
	t->body();
	t->done = true;
	int to = pick(cur + 1);
	if (to >= 0) hand(to); else sem_post(&all_done);
	return nullptr;
}
void yield_point() { if (on && --countdown <= 0) { do_switch(); } }
void run(std::vector<std::function<void()>> bodies, const std::vector<Switch> &sw) {
	script = sw; pos = 0; load_next();
	sem_init(&all_done, 0, 0);
	for (auto &b : bodies) { Th *t = new Th; t->body = b; sem_init(&t->go, 0, 0); th.push_back(t); }
	cur = 0;
	on = true;
	for (auto t : th) pthread_create(&t->t, nullptr, tmain, t);
	hand(0);
	while (sem_wait(&all_done) != 0) {}
	on = false;
	for (auto t : th) { pthread_join(t->t, nullptr); delete t; }
	th.clear();
}
}

// ------------------------------------------------------------------ process inspection
std::string canon_maps() {
	std::map<std::string, int> m;
	FILE *f = fopen("/proc/self/maps", "r");
	char b[4400];
	while (f && fgets(b, sizeof b, f)) {
		char *p = strstr(b, os::root.c_str());
		if (p) { p[strcspn(p, "\n")] = 0; m[p + os::root.size()]++; }
	}
	if (f) fclose(f);
	std::string r;
	for (auto &x : m) r += x.first + "=" + std::to_string(x.second) + ";";
	return r;
}
int open_fds() {
	int n = 0;
	for (int i = 0; i < 512; i++) if (syscall(SYS_fcntl, i, F_GETFD) >= 0) n++;
	return n;
}
