// Workload material: conversions, inputs, and sessions that drive the library through its public API.
#pragma once
#include "sim.h"
#include "bsdconv.h"

struct Entry { std::string lhs, rhs; };
struct Tables {
	std::map<std::string, std::vector<Entry>> from, inter, to;
	std::vector<std::string> froms, inters, tos, filters, scorers; // loadable modules
	std::map<std::string, std::string> afrom, ainter, ato, afilter;
};
extern Tables T;
void load_tables(const std::string &dir);

// kinds of conversion a property wants
enum { CV_ANY = 0, CV_BYTESTREAM = 1 /* output must not depend on packet boundaries of a raw sink */ };
std::string gen_from(Rng &, bool fallback);
std::string gen_inter(Rng &);
std::string gen_to(Rng &, bool fallback);
std::string gen_conv(Rng &);
std::string gen_focus(Rng &);
std::string gen_input(Rng &, const std::string &conv, int tokens, bool dense = false);
std::string terminator(Rng &, const std::string &conv);
bool orders_marks(const std::string &conv);
bool knows_letters(const std::string &conv);
std::string corrupt(Rng &, std::string s);
std::vector<int64_t> gen_chunks(Rng &, size_t len);
std::string unhex_bytes(const std::string &h);
std::vector<std::string> packets_of(const std::string &spec); // "0141,0142" -> packets
std::vector<std::string> split(const std::string &s, char c);

typedef std::map<std::string, uint64_t> Counters;
Counters counters_of(struct bsdconv_instance *);
std::string show(const Counters &);

struct bsdconv_instance *create(const std::string &conv);      // null on failure
void destroy(struct bsdconv_instance *);
// One call of bsdconv(). Input memory is an exact-size heap block: handed over (own) or kept by the caller in `keep`.
struct Keep { std::vector<void *> v; ~Keep() { for (auto p : v) free(p); } };
void set_input(struct bsdconv_instance *, const std::string &data, bool own, Keep &keep);
std::string drain_auto(struct bsdconv_instance *, size_t slack = 0); // runs bsdconv() with AUTOMALLOC
struct Outcome { std::string out; Counters cnt; };
Outcome one_shot(const std::string &conv, const std::string &in);  // fresh instance, whole input, flush
Outcome run_whole(struct bsdconv_instance *, const std::string &in); // bsdconv_init'ed instance supplied by the caller
bool cnt_equal(const Counters &a, const Counters &b);
