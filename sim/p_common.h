// Shared by the property files: arrival schedules and session helpers.
#pragma once
#include "conv.h"
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <deque>

// Feeds `in` to an initialised instance in the chunks of the plan.
struct Feed {
	std::vector<std::string> chunks;
	int own_seed = 0, flush_style = 0;
};
inline Feed feed_of(const Plan &p, const std::string &in) {
	Feed f;
	size_t o = 0;
	if (const Op *c = p.find("chunks"))
		for (auto n : c->n) { if (o > in.size()) break; size_t k = std::min<size_t>((size_t)std::max<int64_t>(0, n), in.size() - o); f.chunks.push_back(in.substr(o, k)); o += k; }
	if (o < in.size()) f.chunks.push_back(in.substr(o));
	if (const Op *c = p.find("style")) { f.own_seed = c->N(0); f.flush_style = c->N(1); }
	return f;
}
inline std::vector<std::string> cut(const std::string &in, const std::vector<int64_t> &ns) {
	std::vector<std::string> r;
	size_t o = 0;
	for (auto n : ns) { size_t k = std::min<size_t>((size_t)std::max<int64_t>(0, n), in.size() - o); r.push_back(in.substr(o, k)); o += k; }
	if (o < in.size()) r.push_back(in.substr(o));
	return r;
}
inline bool owns(int seed, size_t i) { return seed == 0 ? true : seed == 1 ? false : (mix(seed, i) & 1); }
inline std::string str_of(const Plan &p, const char *k) { const Op *o = p.find(k); return o ? o->S(0) : std::string(); }

inline void gen_common(Rng &g, Plan &p, int tier) {
	bool focus = g.chance(12);
	std::string conv = focus ? gen_focus(g) : gen_conv(g);
	std::string in = gen_input(g, conv, 1 + g.below(g.chance(10) ? 60 : 14), g.chance(focus ? 60 : 5));
	p.add("conv", {}, {conv});
	p.add("in", {}, {in});
	p.add("chunks", gen_chunks(g, in.size()));
	p.add("style", {(int64_t)g.below(5), (int64_t)g.below(3)});
}
inline struct bsdconv_instance *must(const std::string &conv) {
	struct bsdconv_instance *ins = create(conv);
	if (!ins) { stat("conv.rejected"); return nullptr; }
	{ Sut s; bsdconv_init(ins); }
	return ins;
}
inline uint64_t sched_hash(const std::string &conv, const Feed &f) {
	uint64_t h = hash_str(conv);
	for (auto &c : f.chunks) h = mix(h, c.size());
	return mix(h, f.flush_style);
}
// Whole stream through a fresh instance in the given pieces (all owned), AUTOMALLOC, flush at the end.
inline Outcome run_chunks(const std::string &conv, const std::vector<std::string> &pieces, bool &ok) {
	Outcome o; Keep keep;
	struct bsdconv_instance *ins = must(conv);
	ok = ins != nullptr;
	if (!ins) return o;
	for (auto &c : pieces) { set_input(ins, c, true, keep); ins->flush = 0; o.out += drain_auto(ins); }
	ins->flush = 1;
	o.out += drain_auto(ins);
	o.cnt = counters_of(ins);
	destroy(ins);
	return o;
}
std::string odd_codec(Rng &g, int where); // arguments and names a careless caller might give
std::string odd_conv(Rng &g);
void gen_env(Rng &g, Plan &p);
void apply_env(const Plan &p);
