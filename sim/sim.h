// Core of the deterministic simulator: PRNG, plans, execution context,
// poisoned arena, bounded library calls, statistics.
#pragma once
#include "model.h"
#include <csetjmp>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>

extern "C" {
#include "grapheme.h"
}

typedef uint64_t u64;
typedef int64_t i64;

static inline u64 mix64(u64 z)
{
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed) {}
	u64 next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
	u64 below(u64 n) { return n ? (u64)(((unsigned __int128)next() * n) >> 64) : 0; }
	i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
	bool pct(unsigned p) { return below(100) < p; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plans
// A plan is the whole simulated execution written down: workload, schedule and
// faults. Executors draw no randomness and accept any plan.
enum OpKind {
	OP_TEXT,   // t: codepoints appended to what the writer sends
	OP_RAW,    // t: raw bytes appended (UTF-8 streams)
	OP_MODE,   // a: world specific mode words
	OP_NET,    // a: length, delay, fault, fault argument
	OP_CRASH,  // a: at event, arg
	OP_CAP,    // a: capacity, fault, arg
	OP_CUT,    // a: line cuts
	OP_CALL,   // a: function and argument selection (concurrency world)
	OP_RUN,    // a: task, unit, count (schedule)
	OP_REENTER, OP_CANCEL,
	OP_FAULT,  // a: generator world fault
	OP_FILE,   // t: file content of the simulated disk (bytes); a: file id
	OP_HUGE,   // a: which stated lengths beyond 32 bits
	NOPK
};
extern const char *const op_names[NOPK];
struct Op {
	int k = 0;
	std::vector<i64> a;
	Cps t;
	Op() {}
	Op(int k_, std::vector<i64> a_, Cps t_ = Cps()) : k(k_), a(std::move(a_)), t(std::move(t_)) {}
	i64 arg(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan {
	std::string prop;
	u64 seed = 0;
	std::vector<Op> ops;
	std::string str() const;
	static bool parse(const std::string &s, Plan &p, std::string *expect_cls = nullptr);
};

// ---------------------------------------------------------------- stats
enum Ctr {
	S_RUNS, S_CALLS, S_CHECKS, S_SIMTIME_US, S_WAKES,
	F_DROP, F_DUP, F_FLIP, F_REORDER, F_TRUNC, F_STALL, F_SHORT, F_CRASH, F_CORRUPT,
	F_FULLSINK, F_ALLOCFAIL, F_SHORTALLOC, F_LOSTFLUSH,
	F_PREEMPT, F_REENTER, F_CANCEL, F_REUSE,
	F_OPENFAIL, F_READERR, F_SHORTREAD, F_CLOSEFAIL, F_WRITEERR, F_NOSPC, F_SHORTWRITE, F_MALLOCFAIL,
	P_RESTART, P_NULMODE, P_ILLFORMED, P_TAIL, P_LONGRUN, P_SWEEP, P_SIGMA, P_SPECIAL, P_OVERFLOW,
	P_BRACKET63, P_DEEP, P_REWRAP, P_TRUNCOUT, P_SPLITSEQ, P_GLOBALWRITE, P_KNOWN, P_BREAKS, P_WIDE, P_HUGE,
	NCTR
};
extern const char *const ctr_names[NCTR];
struct Stats {
	u64 c[NCTR];
	u64 cur_index;      // run in progress (crash attribution)
	u64 done_index;     // next index to run
	u64 beat;           // heartbeat
	u64 edges_hit;
	u8 edge[1 << 16];
};
// shared across workers: lower-bound distinct counting, one bit per hash
struct Distinct { enum { BITS = 1 << 26 }; u8 bit[BITS / 8]; };
extern Distinct *g_distinct, *g_distinct_case;
static inline void note_bit(Distinct *d, u64 h)
{
	if (!d) return;
	h = mix64(h) & (Distinct::BITS - 1);
	u8 m = (u8)(1u << (h & 7));
	if (!(d->bit[h >> 3] & m)) __atomic_fetch_or(&d->bit[h >> 3], m, __ATOMIC_RELAXED);
}
extern u8 *g_cpseen; // 0x110000 bits: codepoints that took part in a checked call

struct Violation { std::string cls, msg; };

struct Ctx {
	u64 hash = 0xCBF29CE484222325ull; // event log hash
	Stats *st = nullptr;
	bool trace = false;
	u64 now = 0;       // simulated microseconds
	std::vector<std::string> known; // known findings that occurred
	void ev(u64 x) { hash = mix64(hash ^ x) + 0x9E3779B97F4A7C15ull; }
	void count(Ctr c, u64 n = 1) { if (st) st->c[c] += n; }
	void state(u64 h) { if (st) note_bit(g_distinct, h); }
	void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
};

// ---------------------------------------------------------------- bounded calls
extern "C" { extern u64 g_steps, g_step_limit; }
extern jmp_buf g_step_jmp;
template <class F> static inline auto libcall(Ctx &c, const char *what, size_t n, F f) -> decltype(f())
{
	c.count(S_CALLS);
	g_steps = 0;
	g_step_limit = 2000000 + 20000 * (u64)n + 200 * (u64)n * n;
	if (_setjmp(g_step_jmp)) {
		g_step_limit = ~0ull;
		c.fail("runaway", "%s did not finish within its step budget (input length %zu)", what, n);
	}
	auto r = f();
	g_step_limit = ~0ull;
	return r;
}

// ---------------------------------------------------------------- arena
void arena_reset();
void arena_salt(u64 seed);
u8 *arena_alloc(size_t n, size_t align = 16);
template <class T> static inline T *arena_copy(const T *p, size_t n)
{
	T *r = (T *)arena_alloc(n * sizeof(T), sizeof(T));
	if (n) memcpy(r, p, n * sizeof(T));
	return r;
}
template <class T> static inline T *arena_new(size_t n, int fill)
{
	T *r = (T *)arena_alloc(n * sizeof(T), sizeof(T));
	if (n) memset(r, fill, n * sizeof(T));
	return r;
}

// a reserved address range for buffers whose stated length exceeds 32 bits;
// nullptr where the system does not grant it
enum { HUGE_CLEAR = 1 << 16 };
u8 *huge_space(int fill);

std::string hex(const u32 *s, size_t n);
std::string hex8(const u8 *s, size_t n);
static inline std::string hex(const Cps &c) { return hex(c.data(), c.size()); }

// ---------------------------------------------------------------- text generation
struct TextGen {
	Rng &r;
	explicit TextGen(Rng &r_) : r(r_) {}
	enum Table { GCB, WB, SB, LB, BC, CS, NT };
	Cps text(Table native, size_t maxlen, bool allow_weird);
	Cps base_text(Table native, size_t maxlen, bool allow_weird);
	u32 cp_of(Table t, int cls);
	u32 any_cp(bool allow_weird);
	size_t length(size_t maxlen);
	Bytes corrupt_bytes(size_t maxlen);
	Cps templ(Table t);
	// j-th sweep text: codepoints at class edges in many contexts first, then
	// every other codepoint in a few; empty when the sweep is complete
	Cps sweep(Table t, u64 j);
	void contexts(Table t, u32 c, bool full, Cps &o);
	// a text of more than 32767 or 65535 units, most of it one repeated unit
	void giant(Table native, Plan &p, bool medium);
	static Cps sweep_members(Table t, u64 j, bool *full);
};
void textgen_init();
Cps bidi_text(TextGen &g, Rng &r, size_t mx);

// ---------------------------------------------------------------- worlds
struct World {
	const char *prop;
	Plan (*make)(u64 seed, u64 index, Rng &r);
	void (*exec)(const Plan &p, Ctx &c);
};
const World *find_world(const std::string &prop);
u64 run_seed(u64 base, const std::string &prop, u64 index);
Plan make_plan(const World &w, u64 base, u64 index);
