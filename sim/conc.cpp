// Worlds for C16 and C17: the library on simulated threads. Every load and
// store of library code is a callback, hence a scheduling point and a place
// where the access is classified; every basic block is one too.
#include "sim.h"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <link.h>
#include <ucontext.h>

// ---------------------------------------------------------------- library image
extern "C" {
extern u8 __start_gsimlibdata[] __attribute__((weak)), __stop_gsimlibdata[] __attribute__((weak));
extern u8 __start_gsimlibro[] __attribute__((weak)), __stop_gsimlibro[] __attribute__((weak));
extern u64 __start_gsimpads[] __attribute__((weak)), __stop_gsimpads[] __attribute__((weak));
}
struct Image { u8 *p = nullptr; size_t n = 0; std::vector<u8> init; };
static Image img_data, img_tls;
// guards the build put behind every constant object of the library
static const size_t PAD = 1024;
static std::vector<u8> ro_pad; // one byte per byte of gsimlibro
static bool in_const(uintptr_t a, size_t n)
{
	uintptr_t lo = (uintptr_t)__start_gsimlibro, hi = (uintptr_t)__stop_gsimlibro;
	return lo && a >= lo && a + n <= hi && !ro_pad[a - lo] && !ro_pad[a + n - 1 - lo];
}
static int phdr_cb(struct dl_phdr_info *i, size_t, void *)
{
	if (i->dlpi_name && *i->dlpi_name) return 0;
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { img_tls.p = (u8 *)i->dlpi_tls_data; img_tls.n = i->dlpi_phdr[k].p_memsz; }
	return 1;
}
static void image_init()
{
	static bool once;
	if (once) return;
	once = true;
	if (__start_gsimlibdata) { img_data.p = __start_gsimlibdata; img_data.n = (size_t)(__stop_gsimlibdata - __start_gsimlibdata); }
	if (__start_gsimlibro) {
		size_t n = (size_t)(__stop_gsimlibro - __start_gsimlibro);
		ro_pad.assign(n, 0);
		if (__start_gsimpads) for (u64 *q = __start_gsimpads; q < __stop_gsimpads; q++) {
			size_t o = (size_t)(*q - (u64)(uintptr_t)__start_gsimlibro);
			if (o > n || o + PAD > n) { fprintf(stderr, "gsim: guard outside the constants\n"); exit(3); }
			memset(&ro_pad[o], 1, PAD);
		}
	}
	dl_iterate_phdr(phdr_cb, nullptr);
	for (Image *m : {&img_data, &img_tls}) m->init.assign(m->p, m->p + m->n);
}
static void image_restore()
{
	for (Image *m : {&img_data, &img_tls}) if (m->n) memcpy(m->p, m->init.data(), m->n);
}

// ---------------------------------------------------------------- tasks
static const size_t STACK = 256 * 1024;
struct Region { uintptr_t lo, hi; bool w, input; };
struct Frame {           // one library call in progress
	Region reg[6];
	int n = 0;
	uintptr_t top = 0;   // caller's frame
	u64 acc = 0;         // accesses so far, over the whole CALL
};
struct Bufs { u32 *in32, *out32, *state; u8 *in8, *out8; int_least8_t *lev; u64 *small; size_t cap; };
struct Call {
	int task, kind, text, flags;
	i64 start, cap, dir;
	// from the solo run
	std::vector<u64> want;
	u64 accesses = 0, blocks = 0;
	std::vector<u64> hot; // access numbers that store outside own stack and output
	bool solo_bad = false;
};
struct Trigger { int kind; size_t call; u64 at; int arg; bool frac; bool done; };
struct Task {
	ucontext_t uc;
	u8 *stack = nullptr;
	std::vector<size_t> calls;
	size_t cur = 0;          // index into calls
	bool finished = false, started = false;
	std::vector<Trigger> trig;
	Frame *fr = nullptr;     // innermost library call in progress
	int depth = 0;           // nesting of CALLs (re-entry)
	u64 acc = 0, blk = 0;    // of the outermost CALL
	u64 stop_acc = ~0ull, stop_blk = ~0ull; // preempt when reached
	int stop_hot = 0;
	bool stop_done = false;  // preempt at the end of the CALL
	jmp_buf cancel;
	Bufs b, hb;              // own buffers, and those of its signal handler
	std::vector<u8> tls;
	const char *mutex_wait = nullptr;
	int id = 0;
};
static const int MAXT = 4;
static Task tasks[MAXT + 1]; // [MAXT] is the solo task
static Task *cur;
static ucontext_t main_uc;
static std::vector<Call> calls, dummy;
static std::vector<Cps> texts;
static std::vector<Bytes> bytes8;
struct Shared { u32 *p32, *z32; u8 *p8, *z8; size_t n32, n8, t32, t8; };
static std::vector<Shared> shared;
static Ctx *ctx;
static bool strict;         // C17: accesses are judged
static bool recording;      // solo run
static bool bad;
static std::string bad_cls, bad_msg;
static u8 g_fill, g_stackfill;
static u64 total_acc, sig;
static const char *where_name = "";

static void to_main() { swapcontext(&cur->uc, &main_uc); }
static void raise_violation(const char *cls, const std::string &msg)
{
	if (!bad) { bad = true; bad_cls = cls; bad_msg = msg; }
	to_main(); // never resumed
	abort();
}
static std::string fmt(const char *f, ...)
{
	char b[600];
	va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
	return b;
}
static bool in_image(const Image &m, uintptr_t a, size_t n) { return m.n && a >= (uintptr_t)m.p && a + n <= (uintptr_t)m.p + m.n; }

// accesses of the simulated threads to static data of the library: two of
// them, one a store, with no lock in common, are a data race whatever the
// order this schedule gave them. Code that synchronises by other means than
// mutexes (gsim_no_race) is judged by its results only.
extern "C" { extern int gsim_no_race __attribute__((weak)); }
struct Shadow { u8 by, wr; uint16_t lock; };
static std::vector<Shadow> shadow;
static uint16_t held_locks(int id);

static void run_handler(Call &k);
static void preempt(u64 where)
{
	sig = mix64(sig ^ where ^ ((u64)cur->id << 40) ^ cur->acc << 8 ^ (u64)cur->cur << 48);
	ctx->count(F_PREEMPT);
	cur->stop_acc = cur->stop_blk = ~0ull;
	cur->stop_hot = 0;
	to_main();
}
static void access(uintptr_t a, size_t n, bool st, u64 pc)
{
	Task *t = cur;
	if (!t || !t->fr) return;
	Frame *f = t->fr;
	bool hot = false;
	if (a >= (uintptr_t)t->stack && a + n <= f->top) {
		// the library's own stack
	} else {
		bool ok = false, inp = false;
		for (int i = 0; i < f->n; i++)
			if (a >= f->reg[i].lo && a + n <= f->reg[i].hi) { ok = st ? f->reg[i].w : true; inp = f->reg[i].input; if (ok) break; }
		if (!ok && !st) ok = in_const(a, n) || in_image(img_data, a, n);
		if (!ok) {
			hot = st;
			const char *cls = "stray-read", *what = "memory it was not given";
			if (st) {
				cls = "stray-write";
				if (inp) { cls = "input-write"; what = "its input"; }
				else if (in_image(img_data, a, n)) { cls = "global-write"; what = "static data of the library"; }
				else if (in_image(img_tls, a, n)) { cls = "global-write"; what = "thread-local data of the library"; }
			}
			if (a >= f->top && a < (uintptr_t)t->stack + STACK) what = "its caller's stack frame";
			if (st) ctx->count(P_GLOBALWRITE);
			if (st && inp && !strict && !recording) raise_violation("race", fmt("%s writes to its input, which other threads read: a data race", where_name));
			if (strict) raise_violation(cls, fmt("%s %s %s (access %llu of the call, %zu bytes)", where_name, st ? "writes to" : "reads", what, (unsigned long long)t->acc + 1, n));
		}
	}
	if (!strict && !recording && !shadow.empty() && in_image(img_data, a, n)) {
		uint16_t h = held_locks(t->id);
		for (size_t i = 0; i < n; i++) {
			Shadow &w = shadow[a - (uintptr_t)img_data.p + i];
			w.by |= (u8)(1 << t->id); w.lock &= h;
			if (st) w.wr = 1;
			if (w.wr && (w.by & (w.by - 1)) && !w.lock) raise_violation("race", fmt("%s %s static data of the library that another thread %s, without a lock in common: a data race", where_name, st ? "writes to" : "reads", st ? "uses" : "writes to"));
		}
	}
	total_acc++;
	if (t->depth > 1) return;
	t->acc++;
	if (t->acc > 40000000) raise_violation("runaway", fmt("%s does not finish", where_name));
	if (recording) { if (hot) calls[t->calls[t->cur]].hot.push_back(t->acc); return; }
	for (auto &g : t->trig) {
		if (g.done || g.call != t->cur) continue;
		const Call &k = calls[t->calls[t->cur]];
		u64 at = g.frac ? 1 + k.accesses * g.at / 256 : g.at < 1000000 ? g.at + 1 : (g.at - 1000000 < k.hot.size() ? k.hot[g.at - 1000000] : ~0ull);
		if (t->acc < at) continue;
		g.done = true;
		if (g.kind == OP_CANCEL) { ctx->count(F_CANCEL); sig = mix64(sig ^ pc ^ 0xCA); t->fr = nullptr; _longjmp(t->cancel, 1); }
		ctx->count(F_REENTER);
		sig = mix64(sig ^ pc ^ 0x4E);
		run_handler(dummy[(size_t)g.arg]);
	}
	bool stop = t->acc >= t->stop_acc;
	if (hot && t->stop_hot && --t->stop_hot == 0) stop = true;
	if (stop) preempt(pc);
}
#define PC ((u64)(uintptr_t)__builtin_return_address(0))
extern "C" {
void __sanitizer_cov_load1(u8 *p) { access((uintptr_t)p, 1, false, PC); }
void __sanitizer_cov_load2(uint16_t *p) { access((uintptr_t)p, 2, false, PC); }
void __sanitizer_cov_load4(u32 *p) { access((uintptr_t)p, 4, false, PC); }
void __sanitizer_cov_load8(u64 *p) { access((uintptr_t)p, 8, false, PC); }
void __sanitizer_cov_load16(u8 *p) { access((uintptr_t)p, 16, false, PC); }
void __sanitizer_cov_store1(u8 *p) { access((uintptr_t)p, 1, true, PC); }
void __sanitizer_cov_store2(uint16_t *p) { access((uintptr_t)p, 2, true, PC); }
void __sanitizer_cov_store4(u32 *p) { access((uintptr_t)p, 4, true, PC); }
void __sanitizer_cov_store8(u64 *p) { access((uintptr_t)p, 8, true, PC); }
void __sanitizer_cov_store16(u8 *p) { access((uintptr_t)p, 16, true, PC); }
void gsim_block_hook(uint32_t id)
{
	Task *t = cur;
	if (!t || !t->fr || t->depth > 1) return;
	if (++t->blk > 40000000) raise_violation("runaway", fmt("%s does not finish", where_name));
	if (!recording && t->blk >= t->stop_blk) preempt(id);
}
// stand-ins for what the library may call
#define EACH(body) for (size_t i = 0; i < n;) { size_t m = std::min<size_t>(8, n - i); body; i += m; }
void *gsim_memcpy(void *d, const void *s, size_t n) { EACH(access((uintptr_t)s + i, m, false, PC); access((uintptr_t)d + i, m, true, PC); memcpy((u8 *)d + i, (const u8 *)s + i, m)) return d; }
void *gsim_memmove(void *d, const void *s, size_t n)
{
	EACH(access((uintptr_t)s + i, m, false, PC); access((uintptr_t)d + i, m, true, PC))
	return memmove(d, s, n);
}
void *gsim_memset(void *d, int v, size_t n) { EACH(access((uintptr_t)d + i, m, true, PC); memset((u8 *)d + i, v, m)) return d; }
int gsim_memcmp(const void *a, const void *b, size_t n) { EACH(access((uintptr_t)a + i, m, false, PC); access((uintptr_t)b + i, m, false, PC)) return memcmp(a, b, n); }
int gsim_bcmp(const void *a, const void *b, size_t n) { return gsim_memcmp(a, b, n); }
size_t gsim_strlen(const char *s) { size_t n = 0; for (;; n++) { access((uintptr_t)s + n, 1, false, PC); if (!s[n]) return n; } }
size_t gsim_strnlen(const char *s, size_t k) { size_t n = 0; for (; n < k; n++) { access((uintptr_t)s + n, 1, false, PC); if (!s[n]) return n; } return n; }
void *gsim_memchr(const void *s, int v, size_t n) { for (size_t i = 0; i < n; i++) { access((uintptr_t)s + i, 1, false, PC); if (((const u8 *)s)[i] == (u8)v) return (void *)((const u8 *)s + i); } return nullptr; }
static void alloc_seen(const char *f) { if (strict && cur && cur->fr) raise_violation("allocation", fmt("%s calls %s", where_name, f)); }
void *gsim_malloc(size_t n) { alloc_seen("malloc"); return malloc(n); }
void *gsim_calloc(size_t a, size_t b) { alloc_seen("calloc"); return calloc(a, b); }
void *gsim_realloc(void *p, size_t n) { alloc_seen("realloc"); return realloc(p, n); }
void gsim_free(void *p) { alloc_seen("free"); free(p); }
// locks of the simulated threads: the only lock state is here
struct Lock { int owner = -1, bit = 0; };
static std::map<void *, Lock> *locks;
static Lock &lock_at(void *m)
{
	if (!locks) locks = new std::map<void *, Lock>();
	auto it = locks->find(m);
	if (it == locks->end()) { it = locks->emplace(m, Lock()).first; it->second.bit = (int)std::min<size_t>(15, locks->size() - 1); }
	return it->second;
}
int gsim_pthread_mutex_lock(void *m)
{
	Lock &l = lock_at(m);
	int spins = 0;
	while (l.owner >= 0) {
		if (!cur || ++spins > 2000 || cur->depth > 1 || recording) raise_violation("deadlock", fmt("%s waits for a lock that is never released", where_name));
		preempt(0x10C);
	}
	l.owner = cur ? cur->id : 0;
	return 0;
}
int gsim_pthread_mutex_unlock(void *m) { lock_at(m).owner = -1; return 0; }
int gsim_pthread_mutex_trylock(void *m) { Lock &l = lock_at(m); if (l.owner >= 0) return 16; l.owner = cur ? cur->id : 0; return 0; }
}
static uint16_t held_locks(int id)
{
	uint16_t h = 0;
	if (locks) for (auto &l : *locks) if (l.second.owner == id) h |= (uint16_t)(1u << l.second.bit);
	return h;
}

// ---------------------------------------------------------------- library calls
// stale bytes where the library's frames will be
__attribute__((noinline)) static void scrub(int v)
{
	u8 a[20480];
	memset(a, v, sizeof a);
	asm volatile("" : : "r"(a) : "memory");
}
struct Io { const void *p; size_t n; bool w, input; };
template <class F> static auto lib(const char *nm, std::initializer_list<Io> io, F f) -> decltype(f())
{
	Frame fr, *prev = cur->fr;
	for (auto &x : io) if (x.p) fr.reg[fr.n++] = {(uintptr_t)x.p, (uintptr_t)x.p + x.n, x.w, x.input};
	u8 *here = (u8 *)__builtin_frame_address(0);
	if (g_stackfill != 1) scrub(g_stackfill);
	fr.top = (uintptr_t)here;
	// volatile: registers and frames must survive a switch of context
	const char *save = where_name;
	where_name = nm;
	ctx->count(S_CALLS);
	cur->fr = &fr;
	auto r = f();
	cur->fr = prev;
	where_name = save;
	return r;
}
enum { K_STATE, K_NEXT = 1, K_NEXT8 = 5, K_TO = 9, K_TO8 = 12, K_IS = 15, K_IS8 = 18, K_DEC = 21, K_ENC = 22, K_BIDI = 23, NKINDS = 24 };
typedef size_t (*NX)(const uint_least32_t *, size_t);
typedef size_t (*NX8)(const char *, size_t);
static const NX nx[] = {grapheme_next_character_break, grapheme_next_word_break, grapheme_next_sentence_break, grapheme_next_line_break};
static const NX8 nx8[] = {grapheme_next_character_break_utf8, grapheme_next_word_break_utf8, grapheme_next_sentence_break_utf8, grapheme_next_line_break_utf8};
static const char *const nxn[] = {"grapheme_next_character_break", "grapheme_next_word_break", "grapheme_next_sentence_break", "grapheme_next_line_break"};
static const char *const nxn8[] = {"grapheme_next_character_break_utf8", "grapheme_next_word_break_utf8", "grapheme_next_sentence_break_utf8", "grapheme_next_line_break_utf8"};
static size_t (*const tc[])(const uint_least32_t *, size_t, uint_least32_t *, size_t) = {grapheme_to_uppercase, grapheme_to_lowercase, grapheme_to_titlecase};
static size_t (*const tc8[])(const char *, size_t, char *, size_t) = {grapheme_to_uppercase_utf8, grapheme_to_lowercase_utf8, grapheme_to_titlecase_utf8};
static bool (*const is[])(const uint_least32_t *, size_t, size_t *) = {grapheme_is_uppercase, grapheme_is_lowercase, grapheme_is_titlecase};
static bool (*const is8[])(const char *, size_t, size_t *) = {grapheme_is_uppercase_utf8, grapheme_is_lowercase_utf8, grapheme_is_titlecase_utf8};
static const char *const tn[] = {"grapheme_to_uppercase", "grapheme_to_lowercase", "grapheme_to_titlecase", "grapheme_to_uppercase_utf8", "grapheme_to_lowercase_utf8", "grapheme_to_titlecase_utf8"};
static const char *const in_[] = {"grapheme_is_uppercase", "grapheme_is_lowercase", "grapheme_is_titlecase", "grapheme_is_uppercase_utf8", "grapheme_is_lowercase_utf8", "grapheme_is_titlecase_utf8"};
enum { FL_NUL = 1, FL_PRIVATE = 2, FL_NULLOUT = 4 };

template <class T> static size_t upto_zero(const T *p, size_t n) { for (size_t i = 0; i < n; i++) if (!p[i]) return i; return n; }

// one client call, on the current fiber; everything a client may look at goes
// into the log
static void do_call(const Call &k, const Bufs &b, std::vector<u64> &log)
{
	const Shared &s = shared[(size_t)k.text];
	bool u8s = (k.kind >= K_NEXT8 && k.kind < K_TO) || (k.kind >= K_TO8 && k.kind < K_IS) || (k.kind >= K_IS8 && k.kind <= K_DEC);
	bool nul = (k.flags & FL_NUL) && k.kind != K_STATE && k.kind != K_ENC && k.kind != K_DEC;
	const u32 *p = nul ? s.z32 : s.p32;
	const u8 *q = nul ? s.z8 : s.p8;
	size_t n = u8s ? (nul ? s.t8 : s.n8) : (nul ? s.t32 : s.n32);
	if (k.flags & FL_PRIVATE) { // the client's own buffer, refilled for each call
		if (u8s) { memcpy(b.in8, q, n); if (nul) b.in8[n] = 0; q = b.in8; }
		else { memcpy(b.in32, p, n * 4); if (nul) b.in32[n] = 0; p = b.in32; }
		ctx->count(F_REUSE);
	}
	size_t st = n ? (size_t)k.start % (n + 1) : 0;
	size_t unit = u8s ? 1 : 4, rest, len;
	auto IN = [&](size_t off) -> Io { return {u8s ? (const void *)(q + off) : (const void *)(p + off), (n - off + nul) * unit, false, true}; };
	switch (k.kind) {
	case K_STATE: {
		uint_least16_t *state = (uint_least16_t *)b.small;
		*state = 0;
		for (size_t i = st; i + 1 < n && i < st + 40; i++)
			log.push_back(lib("grapheme_is_character_break", {{state, 2, true, false}}, [&] { return grapheme_is_character_break(p[i], p[i + 1], state); }));
		break;
	}
	case K_DEC:
		for (size_t off = st, c = 0; off < n && c < 24; c++) {
			u32 *cp = (u32 *)b.small;
			*cp = 0x5555;
			size_t r = lib("grapheme_decode_utf8", {{q + off, n - off, false, true}, {cp, 4, true, false}}, [&] { return grapheme_decode_utf8((const char *)q + off, n - off, k.flags & FL_NULLOUT ? nullptr : cp); });
			log.push_back(r); log.push_back(*cp);
			if (r == 0) break;
			off += r;
		}
		break;
	case K_ENC:
		for (size_t i = st; i < n && i < st + 24; i++) {
			size_t cap = (size_t)(k.cap + (i64)i) % 6;
			memset(b.out8, 0x77, 8);
			size_t r = lib("grapheme_encode_utf8", {{b.out8, cap, true, false}}, [&] { return grapheme_encode_utf8(p[i], (char *)b.out8, cap); });
			log.push_back(r);
			if (r > cap) ctx->count(F_FULLSINK);
			if (r <= cap) for (size_t j = 0; j < r; j++) log.push_back(b.out8[j]);
		}
		break;
	case K_BIDI: {
		auto *dir = (enum grapheme_bidirectional_direction *)b.small;
		auto D = (enum grapheme_bidirectional_direction)(k.dir % 3);
		size_t cap = std::min<size_t>(k.cap >= 0 ? (size_t)k.cap : n, b.cap);
		memset(b.state, g_fill, b.cap * 4);
		*dir = (enum grapheme_bidirectional_direction)7;
		size_t r = lib("grapheme_bidirectional_preprocess_paragraph", {IN(0), {b.state, cap * 4, true, false}, {dir, 4, true, false}}, [&] { return grapheme_bidirectional_preprocess_paragraph(p, nul ? SIZE_MAX : n, D, b.state, cap, dir); });
		log.push_back(r); log.push_back((u64)*dir);
		if (r > cap) ctx->count(F_SHORTALLOC);
		size_t m = std::min(std::min(r, cap), n);
		size_t cut = m ? st % (m + 1) : 0;
		size_t ls[3] = {0, cut, m};
		for (int i = 0; i < 2; i++) {
			size_t a = ls[i], len2 = ls[i + 1] - a;
			if (!len2) continue;
			size_t lc = k.flags & FL_NULLOUT ? len2 / 2 : len2;
			memset(b.lev, g_fill, b.cap);
			r = lib("grapheme_bidirectional_get_line_embedding_levels", {{b.state + a, len2 * 4, false, true}, {b.lev, lc, true, false}}, [&] { return grapheme_bidirectional_get_line_embedding_levels(b.state + a, len2, b.lev, lc); });
			log.push_back(r);
			for (size_t j = 0; j < std::min(r, lc); j++) log.push_back((u64)b.lev[j]);
			memset(b.out32, g_fill, b.cap * 4);
			r = lib("grapheme_bidirectional_reorder_line", {{p + a, len2 * 4, false, true}, {b.state + a, len2 * 4, false, true}, {b.out32, lc * 4, true, false}}, [&] { return grapheme_bidirectional_reorder_line(p + a, b.state + a, len2, b.out32, lc); });
			log.push_back(r);
			if (r <= lc) for (size_t j = 0; j < r; j++) log.push_back(b.out32[j]);
		}
		break;
	}
	default:
		if (k.kind < K_TO) {
			for (size_t off = st, c = 0; c < 6; c++) {
				rest = n - off;
				len = nul ? SIZE_MAX : rest;
				size_t r = u8s ? lib(nxn8[k.kind - K_NEXT8], {IN(off)}, [&] { return nx8[k.kind - K_NEXT8]((const char *)q + off, len); })
				               : lib(nxn[k.kind - K_NEXT], {IN(off)}, [&] { return nx[k.kind - K_NEXT](p + off, len); });
				log.push_back(r);
				if (r == 0 || r >= rest) break;
				off += r;
			}
		} else if (k.kind < K_IS) {
			int j = k.kind - K_TO;
			size_t cap = k.flags & FL_NULLOUT ? 0 : std::min<size_t>(k.cap >= 0 ? (size_t)k.cap : b.cap, b.cap);
			bool nullo = k.flags & FL_NULLOUT;
			if (u8s) {
				memset(b.out8, g_fill, b.cap);
				size_t r = lib(tn[j], {IN(0), {nullo ? nullptr : b.out8, cap, true, false}}, [&] { return tc8[j - 3]((const char *)q, nul ? SIZE_MAX : n, nullo ? nullptr : (char *)b.out8, cap); });
				log.push_back(r);
				if (r >= cap) ctx->count(F_FULLSINK);
				size_t e = nullo ? 0 : r < cap ? r + 1 : upto_zero(b.out8, cap);
				for (size_t i = 0; i < e; i++) log.push_back(b.out8[i]);
			} else {
				memset(b.out32, g_fill, b.cap * 4);
				size_t r = lib(tn[j], {IN(0), {nullo ? nullptr : b.out32, cap * 4, true, false}}, [&] { return tc[j](p, nul ? SIZE_MAX : n, nullo ? nullptr : b.out32, cap); });
				log.push_back(r);
				if (r >= cap) ctx->count(F_FULLSINK);
				size_t e = nullo ? 0 : r < cap ? r + 1 : upto_zero(b.out32, cap);
				for (size_t i = 0; i < e; i++) log.push_back(b.out32[i]);
			}
		} else {
			int j = k.kind - K_IS;
			size_t *l = (size_t *)b.small;
			*l = 0x5555;
			size_t *lp = k.flags & FL_NULLOUT ? nullptr : l;
			bool v = u8s ? lib(in_[j], {IN(0), {lp, sizeof *l, true, false}}, [&] { return is8[j - 3]((const char *)q, nul ? SIZE_MAX : n, lp); })
			             : lib(in_[j], {IN(0), {lp, sizeof *l, true, false}}, [&] { return is[j](p, nul ? SIZE_MAX : n, lp); });
			log.push_back(v); log.push_back(*l);
		}
	}
}
static std::string call_name(const Call &k)
{
	static const char *const f[] = {"is_character_break", "next_character_break", "next_word_break", "next_sentence_break", "next_line_break", "next_character_break_utf8", "next_word_break_utf8", "next_sentence_break_utf8", "next_line_break_utf8",
	                                "to_uppercase", "to_lowercase", "to_titlecase", "to_uppercase_utf8", "to_lowercase_utf8", "to_titlecase_utf8", "is_uppercase", "is_lowercase", "is_titlecase", "is_uppercase_utf8", "is_lowercase_utf8", "is_titlecase_utf8", "decode_utf8", "encode_utf8", "bidirectional"};
	return f[k.kind];
}
static void judge(const Call &k, const std::vector<u64> &got, const char *how)
{
	ctx->count(S_CHECKS);
	for (u64 x : got) ctx->ev(x);
	if (k.solo_bad || got == k.want) return;
	size_t i = 0;
	while (i < got.size() && i < k.want.size() && got[i] == k.want[i]) i++;
	raise_violation("interference", fmt("%s %s returned a different result than alone in a fresh process: value %zu of %zu is 0x%llx, alone 0x%llx (%zu); text: %s", call_name(k).c_str(), how, i, got.size(),
	                                    (unsigned long long)(i < got.size() ? got[i] : 0), (unsigned long long)(i < k.want.size() ? k.want[i] : 0), k.want.size(), hex(texts[(size_t)k.text].data(), std::min<size_t>(texts[(size_t)k.text].size(), 30)).c_str()));
}
static void run_handler(Call &k)
{
	// a signal-style handler on the interrupted thread
	Task *t = cur;
	Frame *save = t->fr;
	const char *sn = where_name;
	t->fr = nullptr;
	t->depth++;
	std::vector<u64> log;
	do_call(k, t->hb, log);
	judge(k, log, "re-entered from a handler");
	t->depth--;
	t->fr = save;
	where_name = sn;
}
static void task_main()
{
	Task *t = cur;
	for (volatile size_t i = 0; i < t->calls.size(); i = i + 1) {
		Call &k = calls[t->calls[i]];
		t->cur = i;
		t->acc = t->blk = 0;
		t->depth = 1;
		if (_setjmp(t->cancel)) {
			t->fr = nullptr;
			t->depth = 0;
			ctx->ev(0xCA);
			continue;
		}
		{
			std::vector<u64> log;
			do_call(k, t->b, log);
			if (recording) { k.want = log; k.accesses = t->acc; k.blocks = t->blk; }
			else judge(k, log, "running concurrently");
		}
		t->depth = 0;
		if (t->stop_done) { t->stop_done = false; to_main(); }
	}
	t->finished = true;
	to_main();
	abort();
}
static void start_task(Task &t)
{
	if (!t.stack) t.stack = (u8 *)aligned_alloc(4096, STACK);
	getcontext(&t.uc);
	t.uc.uc_stack.ss_sp = t.stack;
	t.uc.uc_stack.ss_size = STACK;
	t.uc.uc_link = nullptr;
	makecontext(&t.uc, task_main, 0);
	t.started = true;
	t.finished = false;
	t.fr = nullptr;
	t.depth = 0;
	t.cur = 0;
	t.acc = t.blk = 0;
	t.stop_acc = t.stop_blk = ~0ull;
	t.stop_hot = 0;
	t.stop_done = false;
	t.tls = img_tls.init;
}
static void switch_to(Task &t)
{
	if (img_tls.n) memcpy(img_tls.p, t.tls.data(), img_tls.n);
	cur = &t;
	swapcontext(&main_uc, &t.uc);
	cur = nullptr;
	if (img_tls.n) t.tls.assign(img_tls.p, img_tls.p + img_tls.n);
}
static void check_bad() { if (bad) { std::string m = bad_msg; ctx->fail(bad_cls.c_str(), "%s", m.c_str()); } }
static void make_bufs(Bufs &b, size_t n32, size_t n8)
{
	b.cap = 4 * std::max(n32, n8) + 16;
	b.in32 = arena_new<u32>(n32 + 1, 0);
	b.in8 = arena_new<u8>(n8 + 1, 0);
	b.out32 = arena_new<u32>(b.cap, 0);
	b.out8 = arena_new<u8>(b.cap, 0);
	b.state = arena_new<u32>(b.cap, 0);
	b.lev = arena_new<int_least8_t>(b.cap, 0);
	b.small = arena_new<u64>(1, 0);
}

static void setup(const Plan &p, Ctx &c)
{
	image_init();
	image_restore();
	arena_reset();
	if (locks) locks->clear();
	ctx = &c; bad = false; cur = nullptr; total_acc = 0; sig = 1; recording = false;
	calls.clear(); dummy.clear(); texts.clear(); bytes8.clear(); shared.clear();
	for (auto &t : tasks) { t.calls.clear(); t.trig.clear(); t.started = false; t.finished = true; }
	for (int i = 0; i <= MAXT; i++) tasks[i].id = i;
	g_fill = 0; g_stackfill = 0;
	for (auto &o : p.ops) {
		if (o.k == OP_TEXT || o.k == OP_RAW) {
			if (texts.size() >= 8) continue;
			Cps t; Bytes b; std::vector<size_t> offs;
			if (o.k == OP_TEXT) { t = o.t; b = model::encode_all(t); }
			else { for (u32 x : o.t) b.push_back((u8)x); model::decode_all(b.data(), b.size(), t, offs); }
			if (t.size() > 600) t.resize(600);
			if (b.size() > 2400) b.resize(2400);
			texts.push_back(t); bytes8.push_back(b);
		}
	}
	if (texts.empty()) { texts.push_back(Cps(1, 'a')); bytes8.push_back(Bytes(1, 'a')); }
	size_t m32 = 0, m8 = 0;
	for (size_t i = 0; i < texts.size(); i++) {
		Shared s;
		s.n32 = texts[i].size(); s.n8 = bytes8[i].size();
		s.t32 = upto_zero(texts[i].data(), s.n32); s.t8 = upto_zero(bytes8[i].data(), s.n8);
		s.p32 = arena_copy(texts[i].data(), s.n32);
		s.z32 = arena_new<u32>(s.t32 + 1, 0);
		if (s.t32) memcpy(s.z32, texts[i].data(), s.t32 * 4);
		s.p8 = arena_copy(bytes8[i].data(), s.n8);
		s.z8 = arena_new<u8>(s.t8 + 1, 0);
		if (s.t8) memcpy(s.z8, bytes8[i].data(), s.t8);
		shared.push_back(s);
		m32 = std::max(m32, s.n32); m8 = std::max(m8, s.n8);
	}
	for (auto &t : tasks) { make_bufs(t.b, m32, m8); make_bufs(t.hb, m32, m8); }
	for (auto &o : p.ops) {
		if (o.k != OP_CALL) continue;
		Call k;
		k.task = (int)(o.arg(0) < 0 ? -1 : o.arg(0) % MAXT);
		k.kind = (int)(std::abs(o.arg(1)) % NKINDS);
		k.text = (int)((u64)std::abs(o.arg(2)) % texts.size());
		k.flags = (int)(o.arg(3) & 7);
		k.start = std::abs(o.arg(4)); k.cap = o.arg(5, -1); k.dir = std::abs(o.arg(6));
		if (calls.size() > 40) break;
		calls.push_back(k);
	}
}
// each call alone, library image as in a fresh process
static void solo()
{
	Task &t = tasks[MAXT];
	recording = true;
	for (size_t i = 0; i < calls.size(); i++) {
		image_restore();
		if (locks) locks->clear();
		t.calls.assign(1, i);
		start_task(t);
		switch_to(t);
		check_bad();
	}
	recording = false;
	image_restore();
	if (locks) locks->clear();
}

void exec_c16(const Plan &p, Ctx &c)
{
	setup(p, c);
	strict = false;
	solo();
	for (auto &o : p.ops) if (o.k == OP_MODE) { g_fill = (u8)o.arg(0); g_stackfill = (u8)o.arg(1); }
	for (size_t i = 0; i < calls.size(); i++) if (calls[i].task >= 0) tasks[calls[i].task].calls.push_back(i); else dummy.push_back(calls[i]);
	for (auto &o : p.ops) {
		if (o.k != OP_REENTER && o.k != OP_CANCEL) continue;
		Task &t = tasks[(u64)std::abs(o.arg(0)) % MAXT];
		Trigger g;
		g.kind = o.k; g.call = (size_t)std::abs(o.arg(1)); g.done = false;
		g.frac = o.arg(2) == 0; // unit: 0 fraction, 1 access number, 2 k-th access that stores to shared memory
		g.at = (u64)std::abs(o.arg(3)) + (o.arg(2) == 2 ? 1000000 : 0);
		if (g.at < 1000000 && o.arg(2) == 1) g.at %= 1000000;
		g.arg = 0;
		if (o.k == OP_REENTER) { if (dummy.empty()) continue; g.arg = (int)((u64)std::abs(o.arg(4)) % dummy.size()); }
		if (t.calls.empty()) continue;
		g.call %= t.calls.size();
		t.trig.push_back(g);
	}
	if (!(&gsim_no_race && gsim_no_race)) shadow.assign(img_data.n, Shadow{0, 0, 0xFFFF}); else shadow.clear();
	for (int i = 0; i < MAXT; i++) if (!tasks[i].calls.empty()) start_task(tasks[i]); else tasks[i].finished = true;
	auto live = [&] { for (int i = 0; i < MAXT; i++) if (!tasks[i].finished) return true; return false; };
	auto step = [&](Task &t) { switch_to(t); c.now += 1; check_bad(); };
	for (auto &o : p.ops) {
		if (o.k != OP_RUN || !live()) continue;
		int i = (int)((u64)std::abs(o.arg(0)) % MAXT);
		for (int k = 0; k < MAXT && tasks[i].finished; k++) i = (i + 1) % MAXT;
		Task &t = tasks[i];
		u64 n = (u64)std::abs(o.arg(2));
		const Call &k = calls[t.calls[t.cur]];
		switch (std::abs(o.arg(1)) % 5) {
		case 0: t.stop_acc = t.acc + 1 + n; break;
		case 1: t.stop_blk = t.blk + 1 + n; break;
		case 2: t.stop_done = true; break;
		case 3: t.stop_hot = (int)(n % 64) + 1; t.stop_done = true; break;
		case 4: t.stop_acc = std::max(t.acc + 1, 1 + k.accesses * (n & 255) / 256); break;
		}
		c.log("thread %d runs (unit %lld, %llu)", i, (long long)o.arg(1), (unsigned long long)n);
		step(t);
		c.log("thread %d stopped in call %zu at access %llu%s", i, t.cur, (unsigned long long)t.acc, t.finished ? " (finished)" : "");
		c.ev(t.acc); c.ev((u64)t.cur);
		t.stop_done = false;
	}
	// the rest in turn; slices of three calls' worth of blocks
	for (int rounds = 0; live(); rounds++) {
		if (rounds > 100000) c.fail("deadlock", "the simulated threads do not finish");
		for (int i = 0; i < MAXT; i++) if (!tasks[i].finished) { tasks[i].stop_done = true; step(tasks[i]); tasks[i].stop_done = false; }
	}
	c.state(sig);
	c.ev(sig);
	c.count(S_SIMTIME_US, total_acc / 1000);
}
void exec_c17(const Plan &p, Ctx &c)
{
	setup(p, c);
	strict = true;
	for (auto &o : p.ops) if (o.k == OP_MODE) { g_fill = (u8)o.arg(0); g_stackfill = (u8)o.arg(1); }
	Task &t = tasks[0];
	recording = false;
	for (size_t i = 0; i < calls.size(); i++) {
		t.calls.assign(1, i);
		// the judged run is the only run; record nothing
		recording = true;
		start_task(t);
		t.calls.assign(1, i);
		switch_to(t);
		recording = false;
		check_bad();
		const Call &k = calls[i];
		c.count(S_CHECKS, k.accesses + 2);
		c.ev(k.accesses);
		for (u64 x : k.want) c.ev(x);
		for (const Image *m : {&img_data, &img_tls})
			if (m->n && memcmp(m == &img_tls ? t.tls.data() : m->p, m->init.data(), m->n)) c.fail("global-write", "%s leaves static data of the library changed", call_name(k).c_str());
		const Shared &s = shared[(size_t)k.text];
		if (memcmp(s.p32, texts[(size_t)k.text].data(), s.n32 * 4) || memcmp(s.p8, bytes8[(size_t)k.text].data(), s.n8)) c.fail("input-write", "%s leaves its input changed", call_name(k).c_str());
		size_t n = s.n32;
		c.state((u64)k.kind | (u64)k.flags << 6 | std::min<u64>(k.accesses / 8, 4000) << 10 | (u64)std::min<size_t>(n, 63) << 24 | (u64)(k.cap < 0 ? 63 : std::min<i64>(k.cap, 62)) << 32);
		c.now += k.accesses / 100;
	}
	c.count(S_SIMTIME_US, c.now);
	c.count(S_WAKES, total_acc);
}

// ---------------------------------------------------------------- plans
static Plan conc_texts(Rng &r, TextGen &g, size_t *nt)
{
	Plan p;
	*nt = 1 + r.below(4);
	for (size_t i = 0; i < *nt; i++) {
		if (r.pct(15)) { Op o(OP_RAW, {}); Bytes b = g.corrupt_bytes(12); if (r.pct(50)) { Bytes c = model::encode_all(g.text(TextGen::WB, 10, false)); b.insert(b.begin(), c.begin(), c.end()); } for (u8 x : b) o.t.push_back(x); p.ops.push_back(o); continue; }
		size_t mx = r.pct(90) ? 30 : r.pct(90) ? 160 : 700;
		Cps t = r.pct(15) ? bidi_text(g, r, mx) : g.text((TextGen::Table)r.below(TextGen::NT), mx, r.pct(20));
		if (r.pct(10) && !t.empty()) t[r.below(t.size())] = 0;
		p.ops.push_back(Op(OP_TEXT, {}, t));
	}
	return p;
}
static Op conc_call(Rng &r, i64 task, i64 kind, size_t nt)
{
	i64 cap = r.pct(50) ? -1 : (i64)(r.pct(60) ? r.below(8) : r.below(40));
	i64 fl = (r.pct(25) ? FL_NUL : 0) | (r.pct(30) ? FL_PRIVATE : 0) | (r.pct(12) ? FL_NULLOUT : 0);
	return Op(OP_CALL, {task, kind, (i64)r.below(nt), fl, r.pct(50) ? 0 : (i64)r.below(40), cap, (i64)r.below(3)});
}
static const u8 fills[] = {0x00, 0xFF, 0xA5, 0x01, 0x40, 0x80};
Plan make_c16(u64, u64, Rng &r)
{
	TextGen g(r);
	size_t nt;
	Plan p = conc_texts(r, g, &nt);
	p.ops.push_back(Op(OP_MODE, {(i64)fills[r.below(sizeof fills)], (i64)fills[r.below(sizeof fills)]}));
	int T = r.pct(10) ? 1 : 2 + (int)r.below(3);
	i64 fam = (i64)r.below(NKINDS);
	bool same = r.pct(60);
	for (int t = 0; t < T; t++) {
		int n = 1 + (int)r.below(4);
		while (n--) p.ops.push_back(conc_call(r, t, same && r.pct(85) ? fam : (i64)r.below(NKINDS), nt));
	}
	int h = (int)r.below(3);
	for (int i = 0; i < h; i++) p.ops.push_back(conc_call(r, -1, same && r.pct(85) ? fam : (i64)r.below(NKINDS), nt));
	auto where = [&](std::vector<i64> &a) {
		switch (r.below(3)) {
		case 0: a.push_back(0); a.push_back((i64)r.below(256)); break;
		case 1: a.push_back(1); a.push_back((i64)(r.pct(50) ? r.below(60) : r.below(2000))); break;
		default: a.push_back(2); a.push_back((i64)r.below(r.pct(50) ? 3 : 40));
		}
	};
	if (h) for (int i = (int)r.below(4); i > 0; i--) { std::vector<i64> a = {(i64)r.below((u64)T), (i64)r.below(4)}; where(a); a.push_back((i64)r.below((u64)h)); p.ops.push_back(Op(OP_REENTER, a)); }
	for (int i = (int)r.below(3); i > 0; i--) { std::vector<i64> a = {(i64)r.below((u64)T), (i64)r.below(4)}; where(a); p.ops.push_back(Op(OP_CANCEL, a)); }
	int steps = (int)r.below(r.pct(70) ? 16 : 80);
	int style = (int)r.below(4);
	for (int i = 0; i < steps; i++) {
		i64 t = (i64)r.below((u64)T), u = style == 0 ? 3 : style == 1 ? 4 : (i64)r.below(5);
		i64 n = u == 0 ? (i64)(r.pct(60) ? r.below(30) : r.below(3000)) : u == 1 ? (i64)r.below(200) : u == 3 ? (i64)(r.pct(60) ? 0 : r.below(12)) : (i64)r.below(256);
		p.ops.push_back(Op(OP_RUN, {t, u, n}));
	}
	return p;
}
Plan make_c17(u64, u64 index, Rng &r)
{
	TextGen g(r);
	size_t nt;
	Plan p = conc_texts(r, g, &nt);
	p.ops.push_back(Op(OP_MODE, {(i64)fills[r.below(sizeof fills)], (i64)fills[r.below(sizeof fills)]}));
	int n = 2 + (int)r.below(10);
	for (int i = 0; i < n; i++) p.ops.push_back(conc_call(r, 0, i == 0 ? (i64)(index % NKINDS) : (i64)r.below(NKINDS), nt));
	return p;
}
