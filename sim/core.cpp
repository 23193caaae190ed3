#include "sim.h"
#include "ucd_tables.h"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <sys/mman.h>
#ifdef GSIM_ASAN_LINK
#include <sanitizer/asan_interface.h>
#endif

const char *const op_names[NOPK] = {"TEXT", "RAW", "MODE", "NET", "CRASH", "CAP", "CUT", "CALL", "RUN", "REENTER", "CANCEL", "FAULT", "FILE", "HUGE"};
const char *const ctr_names[NCTR] = {
	"runs", "api_calls", "oracle_checks", "simulated_us", "reader_wakes",
	"net_drop", "net_duplicate", "net_bitflip", "net_reorder", "net_truncate", "net_stall", "net_short_read", "consumer_crash_restart", "stored_byte_corruption",
	"sink_full", "alloc_failure", "short_allocation", "lost_flush",
	"preemption", "reentry", "cancellation", "buffer_reuse",
	"open_failure", "read_error", "short_read", "close_failure", "write_error", "no_space", "short_write", "malloc_failure",
	"restart_from_boundary", "nul_terminated_mode", "ill_formed_sequence", "incomplete_tail", "long_run_text", "codepoint_sweep", "sigma_context", "special_casing", "depth_overflow",
	"bracket_stack_full", "deep_nesting", "line_rewrap", "truncated_output", "split_sequence", "shared_write_seen", "known_finding_hit", "boundaries_checked", "wide_capacity", "stated_length_beyond_32_bits"};

Distinct *g_distinct, *g_distinct_case;
u8 *g_cpseen;
jmp_buf g_step_jmp;

static void put(std::string &o, const char *f, ...)
{
	char b[64];
	va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
	o += b;
}
std::string Plan::str() const
{
	std::string o = "gsim-plan 1\nprop " + prop + "\n";
	put(o, "seed %llu\n", (unsigned long long)seed);
	for (auto &op : ops) {
		o += "op "; o += op_names[op.k];
		for (size_t i = 0; i < op.a.size(); i++) put(o, i ? ",%lld" : " a=%lld", (long long)op.a[i]);
		for (size_t i = 0; i < op.t.size(); i++) put(o, i ? " %X" : " t= %X", op.t[i]);
		o += "\n";
	}
	return o + "end\n";
}
bool Plan::parse(const std::string &s, Plan &p, std::string *cls)
{
	p = Plan();
	size_t i = 0;
	bool ok = false, end = false;
	while (i < s.size()) {
		size_t e = s.find('\n', i);
		if (e == std::string::npos) e = s.size();
		std::string l = s.substr(i, e - i);
		i = e + 1;
		if (l == "gsim-plan 1") ok = true;
		else if (l.compare(0, 5, "prop ") == 0) p.prop = l.substr(5);
		else if (l.compare(0, 5, "seed ") == 0) p.seed = strtoull(l.c_str() + 5, 0, 10);
		else if (l.compare(0, 6, "class ") == 0) { if (cls) *cls = l.substr(6); }
		else if (l == "end") end = true;
		else if (l.compare(0, 3, "op ") == 0) {
			size_t q = l.find(' ', 3);
			std::string nm = l.substr(3, q == std::string::npos ? q : q - 3);
			Op op; op.k = -1;
			for (int k = 0; k < NOPK; k++) if (nm == op_names[k]) op.k = k;
			if (op.k < 0) return false;
			size_t a = l.find(" a=");
			if (a != std::string::npos) {
				const char *c = l.c_str() + a + 3; char *x;
				for (;;) { op.a.push_back(strtoll(c, &x, 10)); if (*x != ',') break; c = x + 1; }
			}
			size_t t = l.find(" t=");
			if (t != std::string::npos) {
				const char *c = l.c_str() + t + 3; char *x;
				for (;;) { u32 v = (u32)strtoul(c, &x, 16); if (x == c) break; op.t.push_back(v); c = x; }
			}
			p.ops.push_back(op);
		}
	}
	return ok && end;
}

void Ctx::log(const char *fmt, ...)
{
	if (!trace) return;
	va_list ap; va_start(ap, fmt);
	printf("  [t=%llu] ", (unsigned long long)now);
	vprintf(fmt, ap); printf("\n");
	va_end(ap);
}
void Ctx::fail(const char *cls, const char *fmt, ...)
{
	std::string m(4096, 0);
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(&m[0], m.size(), fmt, ap);
	va_end(ap);
	m.resize(std::min<size_t>(n < 0 ? 0 : n, m.size() - 1));
	throw Violation{cls, m};
}

std::string hex(const u32 *s, size_t n)
{
	std::string o;
	for (size_t i = 0; i < n && i < 120; i++) put(o, i ? " %04X" : "%04X", s[i]);
	if (n > 120) put(o, " ...(%zu)", n);
	return o;
}
std::string hex8(const u8 *s, size_t n)
{
	std::string o;
	for (size_t i = 0; i < n && i < 160; i++) put(o, i ? " %02X" : "%02X", s[i]);
	if (n > 160) put(o, " ...(%zu)", n);
	return o;
}

// ---------------------------------------------------------------- arena
static const size_t ARENA = 64u << 20;
alignas(64) static u8 arena[ARENA];
static size_t arena_used;
static u64 arena_seed;
static unsigned arena_turn;
void arena_salt(u64 seed) { arena_seed = seed; }
void arena_reset()
{
#ifdef GSIM_ASAN_LINK
	static bool once;
	if (!once) { once = true; __asan_poison_memory_region(arena, ARENA); }
	if (arena_used) __asan_poison_memory_region(arena, arena_used);
#endif
	arena_used = 0;
	arena_turn = 0;
}
// Half of the buffers begin at a multiple of 16, the others anywhere their type
// allows: callers pass pointers into the middle of larger buffers.
u8 *arena_alloc(size_t n, size_t align)
{
	size_t st = (arena_used + 63) & ~(size_t)15; // at least 48 poisoned bytes between
	u64 h = mix64(arena_seed ^ ++arena_turn * 0x9E3779B97F4A7C15ull);
	if (h & 1) st += (h >> 8) % (16 / align) * align;
	if (st + n + 64 > ARENA) { fprintf(stderr, "gsim: arena exhausted\n"); abort(); }
	arena_used = (st + n + 7) & ~(size_t)7;
#ifdef GSIM_ASAN_LINK
	__asan_unpoison_memory_region(arena + st, n);
	if (!__asan_address_is_poisoned(arena + st + n) || (st % 8 == 0 && !__asan_address_is_poisoned(arena + st - 1))) { fprintf(stderr, "gsim: the arena is not guarded\n"); abort(); }
#endif
	return arena + st;
}

u8 *huge_space(int fill)
{
	static u8 *p;
	static bool once;
	if (!once) {
		once = true;
		void *q = mmap(nullptr, (17ull << 30) + HUGE_CLEAR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		p = q == MAP_FAILED ? nullptr : (u8 *)q;
	}
	if (p) memset(p, fill, HUGE_CLEAR);
	return p;
}

// ---------------------------------------------------------------- text generation
struct Rangeset { std::vector<std::pair<u32, u32>> r; };
static std::vector<Rangeset> TAB[TextGen::NT];   // per class value (compacted)
static std::vector<int> TABV[TextGen::NT];       // class value of entry
static const u8 *TABP[TextGen::NT];

static const char *nm(TextGen::Table t, int v)
{
	switch (t) {
	case TextGen::GCB: return GCB_names[v];
	case TextGen::WB: return WB_names[v & 0x3F];
	case TextGen::SB: return SB_names[v];
	case TextGen::LB: return LB_names[v & 0x3F];
	case TextGen::BC: return BC_names[v];
	default: return "";
	}
}
void textgen_init()
{
	model::init();
	const u8 *P[TextGen::NT] = {model::T_gcb, model::T_wb, model::T_sb, model::T_lb, model::T_bc, model::T_case};
	for (int t = 0; t < TextGen::NT; t++) {
		TABP[t] = P[t];
		int idx[256];
		memset(idx, -1, sizeof idx);
		u32 a = 0;
		while (a < 0x110000) {
			u32 b = a;
			while (b + 1 < 0x110000 && P[t][b + 1] == P[t][a]) b++;
			int v = P[t][a];
			if (idx[v] < 0) { idx[v] = (int)TAB[t].size(); TAB[t].push_back(Rangeset()); TABV[t].push_back(v); }
			TAB[t][idx[v]].r.push_back({a, b});
			a = b + 1;
		}
	}
}
static int find_cls(TextGen::Table t, const char *name, size_t n)
{
	for (size_t i = 0; i < TABV[t].size(); i++) {
		const char *x = nm(t, TABV[t][i]);
		if (strlen(x) == n && !strncmp(x, name, n)) return (int)i;
	}
	return -1;
}
u32 TextGen::cp_of(Table t, int i)
{
	const auto &R = TAB[t][i].r;
	const auto &q = r.pct(25) ? R[0] : R[r.below(R.size())];
	switch (r.below(4)) {
	case 0: return q.first;
	case 1: return q.second;
	default: return q.first + (u32)r.below(q.second - q.first + 1);
	}
}
u32 TextGen::any_cp(bool weird)
{
	switch (r.below(weird ? 10 : 7)) {
	case 0: return (u32)r.below(0x80);
	case 1: return (u32)r.below(0x3000);
	case 2: return (u32)r.below(0x110000);
	case 3: case 4: { Table t = (Table)r.below(NT); return cp_of(t, (int)r.below(TAB[t].size())); }
	case 5: { // neighbours of class range edges
		Table t = (Table)r.below(NT);
		const auto &R = TAB[t][r.below(TAB[t].size())].r;
		const auto &q = R[r.below(R.size())];
		i64 v = r.pct(50) ? (i64)q.first - 1 : (i64)q.second + 1;
		return v < 0 ? 0 : v > 0x10FFFF ? 0x10FFFF : (u32)v;
	}
	case 6: { static const u32 sp[] = {0x3A3, 0x3C2, 0x3C3, 0xDF, 0x130, 0x131, 0x149, 0x1F0, 0x390, 0xFB00, 0xFB03, 0x1E9E, 0x345, 0x200D, 0xFE0F, 0x1F3FB, 0x1F1E6, 0x20, 0xA, 0xD, 0xAD, 0x2019, 0x27, 0x22, 0x2E, 0x2029, 0x2028, 0x85, 0xFFFD, 0xFEFF, 0x10FFFF, 0xFFFF, 0x10000, 0x7FF, 0x800, 0x7F, 0x80}; return sp[r.below(sizeof sp / sizeof *sp)]; }
	case 7: return 0xD800 + (u32)r.below(0x800);
	case 8: return 0x110000 + (u32)r.below(0x1000);
	default: { static const u32 sp[] = {0x110000, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x1100FF, 0x11FFFF}; return sp[r.below(9)]; }
	}
}
size_t TextGen::length(size_t mx)
{
	size_t n;
	unsigned d = (unsigned)r.below(100);
	if (d < 25) n = r.below(7);
	else if (d < 65) n = 4 + r.below(17);
	else if (d < 90) n = 16 + r.below(60);
	else if (d < 98) n = 60 + r.below(240);
	else n = 300 + r.below(900);
	return std::min(n, mx);
}

struct Templ { TextGen::Table t; const char *s; };
// Class sequences aimed at long-range rules; expanded with repetition,
// omission, substitution and ignorable insertion.
static const Templ templs[] = {
	{TextGen::GCB, "Regional_Indicator Regional_Indicator Regional_Indicator Regional_Indicator Regional_Indicator"},
	{TextGen::GCB, "ExtPict Extend Extend ZWJ ExtPict Extend ZWJ ExtPict"},
	{TextGen::GCB, "ExtPict ZWJ ZWJ ExtPict"}, {TextGen::GCB, "ExtPict ZWJ Extend ExtPict"},
	{TextGen::GCB, "L L V V T T L LV V T LVT T"}, {TextGen::GCB, "Prepend Prepend Other SpacingMark Extend"},
	{TextGen::GCB, "Prepend ExtPict ZWJ ExtPict Prepend Regional_Indicator Regional_Indicator Regional_Indicator"},
	{TextGen::GCB, "CR LF CR Extend LF Prepend Control ZWJ ExtPict"},
	{TextGen::GCB, "Regional_Indicator ZWJ Regional_Indicator Regional_Indicator Extend Regional_Indicator"},
	{TextGen::WB, "ALetter MidLetter ALetter Single_Quote ALetter MidNumLet ALetter"},
	{TextGen::WB, "Hebrew_Letter Single_Quote Hebrew_Letter Double_Quote Hebrew_Letter Double_Quote Double_Quote"},
	{TextGen::WB, "Numeric MidNum Numeric MidNumLet Numeric Single_Quote Numeric ALetter Numeric"},
	{TextGen::WB, "Regional_Indicator Extend Regional_Indicator ZWJ Regional_Indicator Format Regional_Indicator Regional_Indicator"},
	{TextGen::WB, "WSegSpace WSegSpace Extend WSegSpace WSegSpace"}, {TextGen::WB, "ALetter Extend ZWJ Format MidLetter Extend Extend ALetter"},
	{TextGen::WB, "Katakana ExtendNumLet Katakana ExtendNumLet Numeric ExtendNumLet ALetter"},
	{TextGen::WB, "CR LF Extend Newline ZWJ ALetter LF Format"}, {TextGen::WB, "ALetter MidLetter MidLetter ALetter MidLetter Numeric"},
	{TextGen::WB, "Hebrew_Letter Double_Quote Extend Extend Hebrew_Letter Double_Quote Format"},
	{TextGen::SB, "Upper Lower ATerm Close Close Sp Sp Lower"}, {TextGen::SB, "Upper ATerm Upper ATerm Numeric ATerm Sp Upper"},
	{TextGen::SB, "Lower STerm Close Sp SContinue Lower STerm Sp Sep"}, {TextGen::SB, "ATerm Close Sp STerm Close Sp ATerm Upper"},
	{TextGen::SB, "ATerm Sp Other Numeric SContinue Close Other Extend Format Lower"}, {TextGen::SB, "ATerm Close Sp Close Sp OLetter Lower"},
	{TextGen::SB, "STerm Extend Close Format Sp Extend Sep Extend Upper"}, {TextGen::SB, "ATerm CR LF ATerm Sp CR LF Lower"},
	{TextGen::SB, "STerm Sp ATerm Sp Numeric Lower"}, {TextGen::SB, "ATerm Sp Sp Other Other Other Other Lower ATerm Sp Other Upper"},
	{TextGen::LB, "PR OP NU SY NU IS NU CL PO"}, {TextGen::LB, "NU NU SY IS CP PR NU CL NU SY NU PO"}, {TextGen::LB, "PR HY NU PO OP NU CL PR"},
	{TextGen::LB, "PO OP CM NU PR HY ZWJ NU"}, {TextGen::LB, "OP SP SP CM AL QU SP SP OP CL SP NS CP SP NS B2 SP B2"},
	{TextGen::LB, "HL HY HL BA AL HL CM HY CM ID SY HL"}, {TextGen::LB, "ZW SP SP AL ZW CM AL SP ZW"}, {TextGen::LB, "RI RI RI CM RI RI ZWJ RI"},
	{TextGen::LB, "ID ZWJ ID EB EM EB CM EM ID EM"}, {TextGen::LB, "JL JV JT H2 JV H3 JT PO PR JL JV"}, {TextGen::LB, "AL OP AL CP AL NU OP NU CP NU"},
	{TextGen::LB, "AL GL AL SP GL BA GL HY GL WJ SP WJ"}, {TextGen::LB, "IS AL IS NU SY AL NU IS IS SY CL PO"}, {TextGen::LB, "BB AL CB AL IN ID IN EX CB QU CB"},
	{TextGen::LB, "CR LF CM BK CM NL CM LF CR SP CM AL"}, {TextGen::LB, "SP CM NU SP ZWJ NU SP CM CL OP SP ZWJ OP"}, {TextGen::LB, "NU CL NU CL PO NU CP PR NU IS CL PR"},
	{TextGen::BC, "R ON ON L EN CS EN ET ET AN CS AN"}, {TextGen::BC, "AL EN ES EN AL AN EN NSM ET"}, {TextGen::BC, "RLE L LRE R RLO L LRO R PDF PDF PDF PDF"},
	{TextGen::BC, "RLI L LRI R FSI AL PDI PDI PDI ON"}, {TextGen::BC, "LRO RLI L PDI NSM PDF ON R"}, {TextGen::BC, "WS WS S WS LRI WS PDI WS B"},
	{TextGen::BC, "RLE ON LRI ON R PDI ON L PDF ON EN"}, {TextGen::BC, "BN NSM RLI NSM BN PDI NSM R BN ET EN"}, {TextGen::BC, "FSI ON ON RLI L PDI R PDI LRE AL FSI LRI AL PDI"},
	{TextGen::BC, "L WS R WS EN WS L S R WS BN WS"}, {TextGen::BC, "PDI PDF RLI PDI LRI RLE R PDI L PDF"},
};
Cps TextGen::templ(Table t)
{
	static std::vector<const Templ *> by[NT];
	static bool once;
	if (!once) { once = true; for (auto &x : templs) by[x.t].push_back(&x); }
	Cps o;
	if (by[t].empty()) return o;
	static const char *ign[NT][3] = {{"Extend", "ZWJ", "SpacingMark"}, {"Extend", "Format", "ZWJ"}, {"Extend", "Format", "Extend"}, {"CM", "ZWJ", "CM"}, {"BN", "NSM", "PDF"}, {"", "", ""}};
	unsigned mut = (unsigned)r.below(4) * 8, ins = r.pct(50) ? 0 : (unsigned)r.below(40), rep = r.pct(60) ? 0 : (unsigned)r.below(30);
	int nt = 1 + (int)r.below(3);
	for (int k = 0; k < nt; k++) {
		const char *s = by[t][r.below(by[t].size())]->s;
		while (*s) {
			const char *e = strchr(s, ' ');
			size_t n = e ? (size_t)(e - s) : strlen(s);
			int c = find_cls(t, s, n);
			s += n; if (*s) s++;
			if (c < 0) continue;
			if (r.pct(mut)) {
				if (r.pct(40)) continue;
				c = (int)r.below(TAB[t].size());
			}
			size_t times = r.pct(rep) ? 1 + r.below(4) : 1;
			while (times--) {
				o.push_back(cp_of(t, c));
				while (r.pct(ins)) {
					const char *g = ign[t][r.below(3)];
					int q = find_cls(t, g, strlen(g));
					if (q >= 0) o.push_back(cp_of(t, q)); else break;
				}
			}
		}
	}
	return o;
}

// long runs of one script or encoding length, as ordinary text has them: where
// an implementation would work on blocks of bytes
static Cps block_text(TextGen &g, TextGen::Table native, size_t mx, bool weird)
{
	static const struct { u32 lo, hi; unsigned w; } S[] = {
		{0x61, 0x7A, 14}, {0x41, 0x5A, 5}, {0x41, 0x7A, 6}, {0x20, 0x7E, 26}, {0, 0x7F, 12}, {0x30, 0x39, 3}, {0x20, 0x2F, 3},
		{0xA0, 0xFF, 4}, {0x80, 0x7FF, 2}, {0x391, 0x3C9, 5}, {0x410, 0x44F, 3}, {0x5D0, 0x5EA, 3}, {0x620, 0x64A, 3},
		{0x3041, 0x30FE, 2}, {0x4E00, 0x9FFF, 3}, {0xAC00, 0xD7A3, 2}, {0x10400, 0x1044F, 2}, {0x1F300, 0x1F64F, 2}};
	enum { NS = sizeof S / sizeof *S };
	Rng &r = g.r;
	auto pickS = [&]() { unsigned d = (unsigned)r.below(100), i = 0; while (i + 1 < NS && d >= S[i].w) d -= S[i++].w; return (int)i; };
	static const size_t L[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65};
	Cps o;
	size_t n = 8 + r.below(r.pct(60) ? 60 : 250);
	n = std::min(n, mx);
	int s = pickS();
	unsigned word = r.pct(50) ? 0 : 5 + (unsigned)r.below(20), noise = r.pct(30) ? 0 : 1 + (unsigned)r.below(8), digits = r.pct(50) ? 0 : 5 + (unsigned)r.below(40);
	static const u32 mid[] = {'\'', '\'', '.', '.', ',', ':', ';', '/', '-', '_', '"', '!', '?', '(', ')', '%', '$', '\n', '\t'};
	u32 only = r.pct(40) ? mid[r.below(sizeof mid / sizeof *mid)] : 0; // the only guest of the runs
	while (o.size() < n) {
		size_t m = r.pct(40) ? L[r.below(sizeof L / sizeof *L)] : 4 + r.below(60);
		u32 rep = S[s].lo + (u32)r.below(S[s].hi - S[s].lo + 1);
		bool same = r.pct(15);
		for (size_t i = 0; i < m && o.size() < n; i++) {
			if (word && r.pct(word)) { o.push_back(r.pct(85) ? ' ' : r.pct(50) ? '.' : ','); continue; }
			if (r.pct(noise)) { o.push_back(only ? only : r.pct(30) ? g.cp_of(native, (int)r.below(TAB[native].size())) : r.pct(70) ? mid[r.below(sizeof mid / sizeof *mid)] : (u32)r.below(0x80)); continue; }
			if (r.pct(digits)) { o.push_back('0' + (u32)r.below(10)); continue; }
			o.push_back(same ? rep : S[s].lo + (u32)r.below(S[s].hi - S[s].lo + 1));
		}
		// what ends the run
		for (size_t i = r.below(4); i && o.size() < n; i--)
			o.push_back(r.pct(60) ? g.cp_of(native, (int)r.below(TAB[native].size())) : g.any_cp(weird));
		if (r.pct(40)) s = pickS();
	}
	return o;
}

Cps TextGen::base_text(Table native, size_t mx, bool weird)
{
	if (mx >= 16 && r.pct(12)) return block_text(*this, native, mx, weird);
	Cps o;
	size_t n = length(mx);
	unsigned d = (unsigned)r.below(100);
	if (native != CS && d < 30) { // templates
		while (o.size() < std::min<size_t>(n, 80)) {
			Cps q = templ(native);
			o.insert(o.end(), q.begin(), q.end());
			if (q.empty() || r.pct(50)) break;
		}
		if (o.size() > mx) o.resize(mx);
		return o;
	}
	if (native == CS && d < 20) {
		// neighbourhoods of a sigma, by case class (both-class included)
		static const u32 sep[] = {' ', ' ', '\n', '1', '-', 0x5D0, 0x4E00};
		while (o.size() < n) {
			for (size_t i = r.below(4); i; i--) o.push_back(cp_of(CS, (int)r.below(TAB[CS].size())));
			o.push_back(0x3A3);
			for (size_t i = r.below(4); i; i--) o.push_back(r.pct(15) ? 0x3A3 : cp_of(CS, (int)r.below(TAB[CS].size())));
			o.push_back(sep[r.below(7)]);
		}
		if (o.size() > n) o.resize(n);
		return o;
	}
	if (native == CS || d < 35) {
		// words: letters with case, sigma, apostrophes, marks, digits
		static const u32 pool[] = {'a', 'B', 'z', 'Z', 0x3A3, 0x3A3, 0x3C3, 0x3C2, 0x391, 0x3B1, '\'', 0x2019, '.', ':', ' ', ' ', '1', '_', 0x301, 0x345, 0x300, 0xAD, 0x200D, 0xDF, 0x130, 0x131, 'i', 'I', 0x307, 0x149, 0x1F0, 0x390, 0xFB01, 0xFB13, 0x1C4, 0x1C5, 0x1C6, 0x1F88, 0x1FB3, 0x1FBC, 0x2B0, 0x2170, 0x24B6, 0x10A0, 0x10D0, 0x1C90, 0x13A0, 0xAB70, 0x1E921, 0x10400, 0x5D0, 0x30AB, 0x4E00, '\n', 0x1E9E, 0x1F52, 0x587, 0x1E96, 0x2C2D, 0x2D00, 0xA640, 0xFF21};
		std::vector<u32> sub;
		size_t k = 3 + r.below(9);
		for (size_t i = 0; i < k; i++) sub.push_back(r.pct(75) ? pool[r.below(sizeof pool / sizeof *pool)] : any_cp(weird && r.pct(20)));
		if (r.pct(40)) sub.push_back(0x3A3);
		if (r.pct(40)) sub.push_back(cp_of(CS, (int)r.below(TAB[CS].size())));
		if (r.pct(50)) sub.push_back(' ');
		while (o.size() < n) o.push_back(r.pct(92) ? r.pick(sub) : any_cp(weird));
		return o;
	}
	Table t = d < 80 ? native : (Table)r.below(NT);
	// swarm: few classes, several representatives each, geometric runs
	struct C { int cls; std::vector<u32> reps; unsigned run; };
	std::vector<C> cl;
	size_t k = 1 + r.below(6);
	for (size_t i = 0; i < k; i++) {
		C c;
		c.cls = (int)r.below(TAB[t].size());
		size_t m = 1 + r.below(3);
		for (size_t j = 0; j < m; j++) c.reps.push_back(cp_of(t, c.cls));
		c.run = r.pct(70) ? 0 : (unsigned)r.below(90);
		cl.push_back(c);
	}
	unsigned noise = r.pct(50) ? 0 : (unsigned)r.below(15);
	if (r.pct(4)) { // one long run around counter widths
		static const size_t L[] = {61, 62, 63, 64, 65, 66, 123, 124, 125, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1025};
		size_t m = std::min(L[r.below(sizeof L / sizeof *L)], mx);
		const C &c = r.pick(cl);
		size_t pre = r.below(4);
		for (size_t i = 0; i < pre; i++) o.push_back(r.pick(r.pick(cl).reps));
		for (size_t i = 0; i < m; i++) o.push_back(r.pick(c.reps));
		n = std::min(mx, o.size() + r.below(12));
	}
	while (o.size() < n) {
		if (r.pct(noise)) { o.push_back(any_cp(weird)); continue; }
		const C &c = r.pick(cl);
		do o.push_back(r.pick(c.reps)); while (o.size() < n && r.pct(c.run));
	}
	return o;
}

Cps TextGen::text(Table native, size_t mx, bool weird)
{
	Cps o = base_text(native, mx, weird);
	if (o.size() >= mx || !r.pct(10)) return o;
	// stretch: one place of a discriminating text holds a run of something,
	// often something rules look through
	static const u32 ign[] = {0x300, 0x308, 0xAD, 0x200D, 0x345, 0xFE0F, 0x1F3FB, 0x200B, 0x2060, 0x202C, ' ', 0x903, '\'', '.', ')'};
	static const size_t L[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
	int n = 1 + (int)r.below(2);
	while (n--) {
		size_t at = r.below(o.size() + 1), m = r.pct(75) ? 1 + r.below(12) : L[r.below(sizeof L / sizeof *L)];
		u32 x = at < o.size() && r.pct(40) ? o[at] : ign[r.below(sizeof ign / sizeof *ign)];
		m = std::min(m, mx - std::min(mx, o.size()));
		o.insert(o.begin() + (long)at, m, x);
	}
	return o;
}

void TextGen::giant(Table t, Plan &p, bool medium)
{
	// units that extend one segment, word, line or embedding, so that offsets
	// and counters inside of one call grow large
	static const Cps U[NT] = {
		{0x300, 0x200D, 0x1F3FB, 0xE0020, 0x903},
		{'a', '1', 0x300, 0x30AB, '_', 0x5D0, ' '},
		{'a', 'A', '1', 0x300, ',', 0x4E00},
		{'a', '1', ' ', '/', ')', 0x5D0, '$'},
		{'a', 0x5D0, 0xAD, 0x627},
		{'a', 'A', 0x300, 0xDF, 0x390, 0x13A0, 0x3B1, '1', 0x345}};
	static const size_t L[] = {32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65540};
	static const size_t ML[] = {300, 400, 510, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000};
	static const u32 pre[] = {'a', 'A', '1', 0x391, 0x3A3, 0x5D0, 0x300, ' '};
	Cps a, z = base_text(t, 16, false);
	u32 u = r.pick(U[t]);
	if (r.pct(medium ? 70 : 40)) { // inside of a discriminating text
		size_t at = r.below(z.size() + 1);
		a.assign(z.begin(), z.begin() + (long)at);
		z.erase(z.begin(), z.begin() + (long)at);
		if (medium && z.size() && r.pct(50)) u = z[0];
		if (t == CS && r.pct(40)) { a.push_back(0x3A3); if (r.pct(70)) { static const u32 ci[] = {0x300, 0x345, '.', '\'', 0xAD, 0x2B0, 0x3A3}; u = ci[r.below(medium ? 7 : 3)]; } }
	} else {
		for (size_t i = r.below(3); i; i--) a.push_back(pre[r.below(8)]);
		if (r.pct(30)) z.insert(z.begin(), r.pct(50) ? 0x3A3 : 'B');
	}
	p.ops.push_back(Op(OP_TEXT, {0}, a));
	p.ops.push_back(Op(OP_TEXT, {0, (i64)(medium ? ML[r.below(sizeof ML / sizeof *ML)] : L[r.below(sizeof L / sizeof *L)])}, Cps(1, u)));
	p.ops.push_back(Op(OP_TEXT, {0}, z));
}

Bytes TextGen::corrupt_bytes(size_t mx)
{
	// byte soup biased to lead/continuation edges
	Bytes o;
	size_t n = 1 + r.below(std::min<size_t>(mx, 12));
	static const u8 lead[] = {0x00, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF, 0x9F, 0xA0, 0x90, 0x8F, 0xC3, 0xE2};
	for (size_t i = 0; i < n; i++) o.push_back(r.pct(80) ? lead[r.below(sizeof lead)] : (u8)r.below(256));
	return o;
}

// sweep order: tier 1 (class edges and codepoints with mappings of their own)
// 48 per run, then all others, 768 per run in a golden-ratio stride
Cps TextGen::sweep_members(Table t, u64 j, bool *full)
{
	static std::vector<u32> first[NT], rest[NT];
	if (first[t].empty()) {
		for (u32 c = 0; c < 0x110000; c++) {
			bool edge = c == 0 || c == 0x10FFFF || TABP[t][c] != TABP[t][c - 1] || TABP[t][c] != TABP[t][c + 1];
			if (t == CS) edge |= model::has_mapping(c);
			if (t == BC) edge |= model::T_brk[c] || model::mirror(c) != c;
			(edge ? first : rest)[t].push_back(c);
		}
	}
	enum { N1 = 48, N2 = 768 };
	u64 r1 = (first[t].size() + N1 - 1) / N1, r2 = (rest[t].size() + N2 - 1) / N2;
	Cps o;
	*full = j < r1;
	if (j < r1) {
		for (u64 i = j * N1; i < (j + 1) * N1 && i < first[t].size(); i++) o.push_back(first[t][i]);
	} else if (j < r1 + r2) {
		u64 b = (j - r1) * 1021 % r2; // r2 < 1449, never a multiple of 1021
		if (r2 % 1021 == 0) b = j - r1;
		for (u64 i = b * N2; i < (b + 1) * N2 && i < rest[t].size(); i++) o.push_back(rest[t][i]);
	}
	return o;
}
// a codepoint in class-discriminating contexts
void TextGen::contexts(Table t, u32 c, bool full, Cps &o)
{
	static Cps reps[NT];
	if (reps[t].empty())
		for (size_t i = 0; i < TAB[t].size(); i++) {
			// a mid-range representative that is stable: first range start
			const auto &R = TAB[t][i].r;
			reps[t].push_back(R[R.size() / 2].first);
		}
	auto add = [&](std::initializer_list<u32> l) { o.insert(o.end(), l); };
	typedef std::vector<std::vector<u32>> T;
	u32 x = r.pick(reps[t]), y = r.pick(reps[t]);
	static const u32 sep[NT] = {0xA, 0xA, 0x2029, 0xA, 0x2029, ' '};
	T f;
	switch (t) {
	case GCB:
		f = T{{0x200D, c}, {c, 0x300}, {0x2764, 0x200D, c}, {c, 0x200D, 0x2764}, {0x2764, c, 0x200D, 0x2764}, {c, c, c}, {0x1F1E6, c, 0x1F1E7}, {0x1100, c}, {c, 0x11A8}, {0x600, c}, {'a', c}};
		break;
	case WB:
		f = T{{'a', ':', c}, {c, ':', c}, {'1', ',', c}, {0x5D0, '"', c}, {'a', c, ':', 'a'}, {c, 0x200D, c}, {c, c, c}, {0x1F1E6, c, 0x1F1E7, c, 0x1F1E8}, {'a', c, 'a'}, {'1', c, '1'}, {'_', c}, {0x30A2, c}, {0x200D, c}, {' ', c}};
		break;
	case SB:
		f = T{{'A', '.'}, {'A', '.', ' ', c, 'a'}, {'A', '.', ' ', c, 'A'}, {'!', c, 'A'}, {'!', ' ', c, 'A'}, {'!', ')', c, ')'}, {c, '.', 'A'}, {'A', '.', c, 'A'}, {'A', '.', c, '1'}, {'A', '.', ')', c, 'a'}, {c, ' ', 'A'}, {c, ')', 'a'}, {'A', '.', ' ', c, c, 'a'}, {c, 0xA, 'A'}, {0xD, c, 'A'}};
		break;
	case LB:
		f = T{{'a', ' ', c, 'a'}, {c, ' ', 0x3005}, {c, ' ', '('}, {'1', c, '%'}, {'$', c, '1'}, {c, 0x301, 'a'}, {'(', ' ', c, ' ', '('}, {0x5D0, c, 'a'}, {c, 0x1F3FB}, {c, 0x4E00}, {0x4E00, c}, {'$', c, '%'}, {'a', c, 'a'}, {c, '1'}, {'1', c}, {0x1100, c}, {c, 0x11A8}};
		break;
	case BC:
		f = T{{c, 0x5D0, '1'}, {0x5D0, c, '1', c, 'a'}, {'a', c, 0x5D0}, {0x5D0, '1', c, '1', 'a'}, {0x5D0, 0x661, c, 0x661}, {0x627, '1', c}, {0x202E, c, 0x202C, c, 'a'}, {0x5D0, c, 'a', 0x29, 0x28, 'a', c}, {0x2067, c, 0x2069, c, 'a'}, {0x5D0, '(', c, ')', 'a'}, {0x5D0, '$', c, '1'}, {'a', '(', c, ')', 0x5D0}};
		break;
	default:
		f = T{{c}, {'a', 0x3A3, c}, {c, 0x3A3}, {0x3A3, c}, {c, '.', 0x3A3, '.', c}, {'a', 0x3A3, c, 'a'}, {'a', c, 0x3A3}, {'a', c}, {c, 'a'}, {c, c}, {'A', c, 'B'}};
	}
	if (full) {
		for (auto &v : f) { o.insert(o.end(), v.begin(), v.end()); o.push_back(sep[t]); }
		if (t != BC && t != CS) for (u32 z : reps[t]) add({z, c, z, sep[t]});
		return;
	}
	if (t == CS) { add({c, ' '}); if (r.pct(25)) { const auto &v = r.pick(f); o.insert(o.end(), v.begin(), v.end()); o.push_back(' '); } return; }
	for (int i = 0; i < 2; i++) { const auto &v = r.pick(f); o.insert(o.end(), v.begin(), v.end()); o.push_back(sep[t]); }
	if (t != BC) add({x, c, y, sep[t]});
}
Cps TextGen::sweep(Table t, u64 j)
{
	bool full;
	Cps o;
	for (u32 c : sweep_members(t, j, &full)) contexts(t, c, full, o);
	return o;
}

u64 run_seed(u64 base, const std::string &prop, u64 index)
{
	u64 h = mix64(base + 0x1234567);
	for (char ch : prop) h = mix64(h ^ (u8)ch);
	return mix64(h ^ (index * 0x9E3779B97F4A7C15ull));
}
Plan make_plan(const World &w, u64 base, u64 index)
{
	u64 s = run_seed(base, w.prop, index);
	Rng r(s);
	Plan p = w.make(s, index, r);
	p.prop = w.prop;
	p.seed = s;
	return p;
}
