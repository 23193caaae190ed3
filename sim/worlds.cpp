// Simulated worlds for C01..C15 and C18: writer, network or storage with
// faults, consumer running the documented loops of the library.
#include "sim.h"
#include "ucd_tables.h"
#include <algorithm>
#include <functional>

using namespace model;

typedef size_t (*next_cp_fn)(const uint_least32_t *, size_t);
typedef size_t (*next_u8_fn)(const char *, size_t);
static const next_cp_fn NEXT_CP[NKIND] = {grapheme_next_character_break, grapheme_next_word_break, grapheme_next_sentence_break, grapheme_next_line_break};
static const next_u8_fn NEXT_U8[NKIND] = {grapheme_next_character_break_utf8, grapheme_next_word_break_utf8, grapheme_next_sentence_break_utf8, grapheme_next_line_break_utf8};
typedef size_t (*to_cp_fn)(const uint_least32_t *, size_t, uint_least32_t *, size_t);
typedef size_t (*to_u8_fn)(const char *, size_t, char *, size_t);
static const to_cp_fn TO_CP[NCASE] = {grapheme_to_uppercase, grapheme_to_lowercase, grapheme_to_titlecase};
static const to_u8_fn TO_U8[NCASE] = {grapheme_to_uppercase_utf8, grapheme_to_lowercase_utf8, grapheme_to_titlecase_utf8};
typedef bool (*is_cp_fn)(const uint_least32_t *, size_t, size_t *);
typedef bool (*is_u8_fn)(const char *, size_t, size_t *);
static const is_cp_fn IS_CP[NCASE] = {grapheme_is_uppercase, grapheme_is_lowercase, grapheme_is_titlecase};
static const is_u8_fn IS_U8[NCASE] = {grapheme_is_uppercase_utf8, grapheme_is_lowercase_utf8, grapheme_is_titlecase_utf8};
static const TextGen::Table KTAB[NKIND] = {TextGen::GCB, TextGen::WB, TextGen::SB, TextGen::LB};


static void note_cps(const Cps &c)
{
	if (!g_cpseen) return;
	for (u32 x : c) if (x <= 0x10FFFF) {
		u8 m = (u8)(1u << (x & 7));
		if (!(g_cpseen[x >> 3] & m)) __atomic_fetch_or(&g_cpseen[x >> 3], m, __ATOMIC_RELAXED);
	}
}

// ------------------------------------------------------------ shared pieces
// what the writer sends; a text may be sent many times in a row
static size_t text_repeat(const Op &o) { return (size_t)std::min<i64>(std::max<i64>(0, o.arg(1, 1)), o.t.size() == 1 ? 70000 : 1); }
static bool giant_turn(u64 index, u64 period = 1024) { return index % period == 301; }
static bool medium_turn(u64 index, u64 period = 64) { return index % period == 45; }
static Cps source_cps(const Plan &p)
{
	Cps s;
	for (auto &o : p.ops) if (o.k == OP_TEXT)
		for (size_t n = text_repeat(o); n; n--) s.insert(s.end(), o.t.begin(), o.t.end());
	return s;
}
static Bytes source_bytes(const Plan &p)
{
	Bytes s;
	for (auto &o : p.ops) {
		if (o.k == OP_TEXT) {
			Bytes b = encode_all(o.t);
			for (size_t n = text_repeat(o); n; n--) s.insert(s.end(), b.begin(), b.end());
		}
		else if (o.k == OP_RAW) for (u32 x : o.t) s.push_back((u8)x);
	}
	return s;
}
static i64 mode(const Plan &p, size_t i)
{
	for (auto &o : p.ops) if (o.k == OP_MODE) return o.arg(i);
	return 0;
}

// capacities around the widths of narrower integers
static i64 wide(Rng &r)
{
	static const i64 B[] = {128, 256, 512, 1024, 4096, 32768, 65536, 131072};
	return B[r.below(8)] - 1 + (i64)r.below(5);
}
// ... as an operation argument that is not reduced to the size of the text
enum { WIDE = 1 << 20 };
static size_t cap_of(i64 a, size_t modulo, Ctx &c)
{
	if (a < 0) a = 0;
	if (a < WIDE) return (size_t)a % modulo;
	c.count(P_WIDE);
	return (size_t)(a - WIDE) % 140000;
}
// stated lengths that do not fit into 32 bits
static size_t huge_len(i64 sel, size_t i)
{
	static const u64 L[] = {1ull << 32, (1ull << 32) + 1, (1ull << 31), (1ull << 32) + 2, (1ull << 32) + 3, (1ull << 31) + 1, (1ull << 32) + 5, (1ull << 32) + 17};
	return (size_t)L[((u64)std::max<i64>(0, sel) + i) % 8];
}
static void gen_huge(Plan &p, Rng &r) { if (r.pct(2)) p.ops.push_back(Op(OP_HUGE, {(i64)r.below(8)})); }
static i64 huge_sel(const Plan &p)
{
	for (auto &o : p.ops) if (o.k == OP_HUGE) return std::max<i64>(0, o.arg(0));
	return -1;
}
static void huge_behind(Ctx &c, const u8 *p, size_t used, int fill, const char *what)
{
	for (size_t i = used; i < HUGE_CLEAR; i++)
		if (p[i] != (u8)fill) c.fail("behind", "%s into a sink of more than 2^31 units changes it at byte %zu, behind the %zu bytes it needs", what, i, used);
}

enum { N_OK, N_DROP, N_DUP, N_FLIP, N_REORDER, N_TRUNC, N_STALL, N_SHORT, N_NF };
template <class U> struct Packet { u64 at; u64 seq; std::vector<U> d; };
// Discrete-event network: packets leave in order, each with its own delay and
// fault; arrival order is (time, sequence).
template <class U> static std::vector<Packet<U>> network(const Plan &p, const std::vector<U> &src, Ctx &c)
{
	std::vector<Packet<U>> q;
	size_t off = 0;
	u64 t = 0, seq = 0;
	bool cut = false;
	for (auto &o : p.ops) {
		if (o.k != OP_NET || off >= src.size()) continue;
		size_t n = (size_t)std::max<i64>(1, o.arg(0));
		n = std::min(n, src.size() - off);
		std::vector<U> d(src.begin() + off, src.begin() + off + n);
		off += n;
		t += 10 + (u64)std::max<i64>(0, o.arg(1));
		u64 at = t;
		i64 x = std::max<i64>(0, o.arg(3));
		switch (o.arg(2)) {
		case N_DROP: c.count(F_DROP); continue;
		case N_DUP: c.count(F_DUP); q.push_back({at + 5 + (u64)x, seq++, d}); break;
		case N_FLIP: c.count(F_FLIP); d[(size_t)(x / 8) % d.size()] ^= (U)(1u << (x % 8)); break;
		case N_REORDER: c.count(F_REORDER); at += 50 + (u64)x; break;
		case N_TRUNC: c.count(F_TRUNC); d.resize((size_t)x % (d.size() + 1)); cut = true; break;
		case N_STALL: c.count(F_STALL); t += 1000000 + (u64)x * 1000; at = t; break;
		case N_SHORT: {
			c.count(F_SHORT);
			size_t m = (size_t)x % d.size();
			if (m) { q.push_back({at, seq++, std::vector<U>(d.begin(), d.begin() + m)}); d.erase(d.begin(), d.begin() + m); at += 3; }
			break;
		}
		default: break;
		}
		q.push_back({at, seq++, d});
		if (cut) break;
	}
	if (!cut && off < src.size()) q.push_back({t + 10, seq++, std::vector<U>(src.begin() + off, src.end())});
	std::stable_sort(q.begin(), q.end(), [](const Packet<U> &a, const Packet<U> &b) { return a.at < b.at; });
	return q;
}
static void gen_net(Plan &p, Rng &r, size_t srclen, bool corrupting)
{
	if (srclen == 0 || r.pct(25)) return;
	unsigned rate = r.pct(40) ? 0 : 3 + (unsigned)r.below(25);
	u32 enabled = (u32)r.next(); // swarm: subset of fault kinds
	size_t mx = r.pct(50) ? 1 + r.below(6) : 1 + r.below(40);
	size_t off = 0, k = 0;
	while (off < srclen && k < 12) {
		size_t n = 1 + r.below(mx);
		if (k >= 7) n = srclen;
		i64 f = 0, x = 0;
		if (r.pct(rate)) {
			f = 1 + (i64)r.below(N_NF - 1);
			if (!(enabled >> f & 1)) f = 0;
			if (!corrupting && (f == N_FLIP)) f = N_STALL;
			x = (i64)r.below(64);
		}
		p.ops.push_back(Op(OP_NET, {(i64)n, (i64)r.below(200), f, x}));
		off += n; k++;
	}
}
static void damage(Plan &p, Rng &r, TextGen &g)
{
	// stored corruption: raw byte runs between the texts
	int n = 1 + (int)r.below(3);
	for (int i = 0; i < n; i++) {
		Op o(OP_RAW, {});
		for (u8 b : g.corrupt_bytes(12)) o.t.push_back(b);
		size_t at = r.below(p.ops.size() + 1);
		p.ops.insert(p.ops.begin() + (long)at, o);
	}
}

static u64 state_of(Kind k, int rep, const Cps &c, size_t i, size_t adv)
{
	// distinct-state measure: kind, representation, class window around the
	// reported break
	const u8 *T = k == CHAR ? T_gcb : k == WORD ? T_wb : k == SENT ? T_sb : T_lb;
	u64 h = (u64)k * 2 + (u64)rep + 17;
	size_t b = i + adv;
	for (size_t j = b > i + 3 ? b - 3 : i; j < std::min(b + 2, c.size()); j++) h = h * 131 + (c[j] <= 0x10FFFF ? T[c[j]] : 0) + 1;
	return h * 131 + (b - i < 4 ? b - i : 4);
}

// ------------------------------------------------------------ C04..C07 segmentation
static Plan make_seg(Kind k, u64 seed, u64 index, Rng &r)
{
	(void)seed;
	Plan p;
	TextGen g(r);
	int rep = (int)r.below(2);
	Cps sw;
	if (index % 2 == 0) sw = g.sweep(KTAB[k], index / 2);
	if (!sw.empty()) {
		p.ops.push_back(Op(OP_MODE, {r.pct(15) ? 1 : 0, 1}));
		p.ops.push_back(Op(OP_TEXT, {}, sw));
		return p;
	}
	p.ops.push_back(Op(OP_MODE, {rep, 0}));
	if (giant_turn(index) || medium_turn(index, 256)) { g.giant(KTAB[k], p, !giant_turn(index)); if (r.pct(30)) gen_net(p, r, 20, false); return p; }
	Cps t = g.text(KTAB[k], 1100, rep == 0);
	if (t.size() > 4 && r.pct(50)) {
		size_t m = r.below(t.size());
		p.ops.push_back(Op(OP_TEXT, {}, Cps(t.begin(), t.begin() + (long)m)));
		p.ops.push_back(Op(OP_TEXT, {}, Cps(t.begin() + (long)m, t.end())));
	} else p.ops.push_back(Op(OP_TEXT, {}, t));
	if (rep == 1 && r.pct(20)) damage(p, r, g);
	gen_net(p, r, t.size() * (rep ? 2 : 1), rep == 1);
	gen_huge(p, r);
	int nc = (int)r.below(3);
	for (int i = 0; i < nc; i++) p.ops.push_back(Op(OP_CRASH, {(i64)r.below(8), (i64)r.below(64)}));
	return p;
}

// one consumer walk over a buffer, every call compared with the model
// returns boundaries in codepoints
static std::vector<size_t> seg_walk(Kind k, int rep, const u32 *cpbuf, const u8 *u8buf, size_t len, const Cps &cps, const std::vector<size_t> &offs, size_t first, Ctx &c)
{
	std::vector<size_t> bounds;
	size_t i = first, off = rep ? offs[first] : first;
	while (off < len) {
		size_t rest = len - off;
		size_t ret = rep ? libcall(c, "next_break_utf8", rest, [&] { return NEXT_U8[k]((const char *)u8buf + off, rest); })
		                 : libcall(c, "next_break", rest, [&] { return NEXT_CP[k](cpbuf + off, rest); });
		c.ev(ret);
		if (i >= cps.size()) {
			// nothing but an incomplete sequence is left
			c.count(P_TAIL);
			if (ret == 0 || ret > rest) c.fail("tail", "%s break on an incomplete final sequence of %zu bytes returned %zu", kind_name[k], rest, ret);
			break;
		}
		size_t e = next_break(k, cps.data() + i, cps.size() - i);
		size_t want = rep ? offs[i + e] - offs[i] : e;
		c.count(S_CHECKS);
		if (ret != want)
			c.fail("break", "next %s break%s at offset %zu of %zu: got %zu, Unicode 15.0 says %zu; text from there: %s", kind_name[k], rep ? " (UTF-8)" : "", off, len, ret, want, hex(cps.data() + i, std::min<size_t>(cps.size() - i, 40)).c_str());
		c.state(state_of(k, rep, cps, i, e));
		i += e;
		off += ret;
		bounds.push_back(i);
		c.count(P_BREAKS);
	}
	return bounds;
}

static void exec_seg(Kind k, const Plan &p, Ctx &c)
{
	int rep = (int)(mode(p, 0) & 1);
	if (mode(p, 1)) c.count(P_SWEEP);
	Cps cps;
	std::vector<size_t> offs;
	Bytes rb;
	Cps rc;
	std::vector<Packet<u8>> qb;
	std::vector<Packet<u32>> qc;
	if (rep) qb = network(p, source_bytes(p), c); else qc = network(p, source_cps(p), c);
	size_t np = rep ? qb.size() : qc.size();
	size_t base = 0; // persisted position, in codepoints
	const u32 *cb = nullptr; const u8 *ub = nullptr;
	std::vector<size_t> bounds;
	auto load = [&](size_t from) { // fresh process: buffer holds only [from, end)
		arena_reset();
		if (rep) { ub = arena_copy(rb.data() + offs[from], rb.size() - offs[from]); }
		else cb = arena_copy(rc.data() + from, rc.size() - from);
	};
	auto sub = [&](size_t from, Cps &s, std::vector<size_t> &o) {
		s.assign(cps.begin() + (long)from, cps.end());
		o.clear();
		for (size_t i = from; i < offs.size(); i++) o.push_back(offs[i] - offs[from]);
	};
	for (size_t w = 0; w < np; w++) {
		c.now = rep ? qb[w].at : qc[w].at;
		if (rep) rb.insert(rb.end(), qb[w].d.begin(), qb[w].d.end());
		else rc.insert(rc.end(), qc[w].d.begin(), qc[w].d.end());
		c.count(S_WAKES);
		if (rep) decode_all(rb.data(), rb.size(), cps, offs);
		else { cps = rc; offs.resize(rc.size() + 1); for (size_t i = 0; i <= rc.size(); i++) offs[i] = i; }
		c.log("%zu units received, consumer wakes at codepoint %zu", rep ? rb.size() : rc.size(), base);
		if (w + 1 == np) break;
		// provisional walk over what is there
		base = std::min(base, cps.size());
		Cps s; std::vector<size_t> o;
		load(base);
		sub(base, s, o);
		std::vector<size_t> b = seg_walk(k, rep, cb, ub, rep ? rb.size() - offs[base] : rc.size() - base, s, o, 0, c);
		for (auto &op : p.ops)
			if (op.k == OP_CRASH && op.arg(0) == (i64)w && !b.empty()) {
				c.count(F_CRASH);
				base += b[(size_t)std::max<i64>(0, op.arg(1)) % b.size()];
			}
	}
	if (!np) return;
	c.count(S_SIMTIME_US, c.now);
	note_cps(cps);
	load(0);
	bounds = seg_walk(k, rep, cb, ub, rep ? rb.size() : rc.size(), cps, offs, 0, c);
	// history check: the walk equals the whole-text segmentation
	std::vector<size_t> all = all_breaks(k, cps.data(), cps.size());
	c.count(S_CHECKS);
	if (bounds != all) {
		size_t i = 0; while (i < bounds.size() && i < all.size() && bounds[i] == all[i]) i++;
		c.fail("history", "walking %s breaks gives boundary #%zu at %zu, the whole text has %zu; text: %s", kind_name[k], i, i < bounds.size() ? bounds[i] : (size_t)-1, i < all.size() ? all[i] : (size_t)-1, hex(cps).c_str());
	}
	i64 hs = huge_sel(p);
	u8 *hp = hs < 0 || cps.size() > 2000 ? nullptr : huge_space(0);
	if (hp) { // the same text at the front of a buffer of more than 2^31 units
		Cps t(cps);
		t.push_back(0x2029);
		size_t nt = t.size();
		Bytes eb = encode_all(t);
		if (rep) memcpy(hp, eb.data(), eb.size()); else memcpy(hp, t.data(), nt * 4);
		t.insert(t.end(), 40, 0);
		c.count(P_HUGE);
		for (size_t i = 0, off = 0, q = 0; i < nt; q++) {
			size_t L = huge_len(hs, q);
			size_t e = next_break(k, t.data() + i, t.size() - i), want = 0;
			for (size_t j = i; j < i + e; j++) { u8 o[4]; want += rep ? encode(t[j], o) : 1; }
			size_t ret = rep ? libcall(c, "next_break_utf8", nt, [&] { return NEXT_U8[k]((const char *)hp + off, L); })
			                 : libcall(c, "next_break", nt, [&] { return NEXT_CP[k]((const u32 *)hp + off, L); });
			c.ev(ret); c.count(S_CHECKS);
			if (ret != want) c.fail("break", "next %s break%s in a buffer of %zu units: got %zu, Unicode 15.0 says %zu; text from there: %s", kind_name[k], rep ? " (UTF-8)" : "", L, ret, want, hex(t.data() + i, std::min<size_t>(t.size() - i, 40)).c_str());
			i += e; off += want;
		}
	}
	// a consumer restarted from a persisted boundary sees only the rest
	for (auto &op : p.ops) {
		if (op.k != OP_CRASH || bounds.empty()) continue;
		size_t x = (size_t)std::max<i64>(0, op.arg(1)) % bounds.size();
		size_t b0 = bounds[x];
		if (b0 >= cps.size()) continue;
		c.count(P_RESTART);
		Cps s; std::vector<size_t> o;
		load(b0);
		sub(b0, s, o);
		std::vector<size_t> b = seg_walk(k, rep, cb, ub, rep ? rb.size() - offs[b0] : rc.size() - b0, s, o, 0, c);
		for (auto &v : b) v += b0;
		if (b != std::vector<size_t>(bounds.begin() + (long)x + 1, bounds.end()))
			c.fail("restart", "restarting at %s boundary %zu gives different boundaries; text: %s", kind_name[k], b0, hex(cps).c_str());
	}
}
static Plan make_c04(u64 s, u64 i, Rng &r) { return make_seg(CHAR, s, i, r); }
static Plan make_c05(u64 s, u64 i, Rng &r) { return make_seg(WORD, s, i, r); }
static Plan make_c06(u64 s, u64 i, Rng &r) { return make_seg(SENT, s, i, r); }
static Plan make_c07(u64 s, u64 i, Rng &r) { return make_seg(LINE, s, i, r); }
static void exec_c04(const Plan &p, Ctx &c) { exec_seg(CHAR, p, c); }
static void exec_c05(const Plan &p, Ctx &c) { exec_seg(WORD, p, c); }
static void exec_c06(const Plan &p, Ctx &c) { exec_seg(SENT, p, c); }
static void exec_c07(const Plan &p, Ctx &c) { exec_seg(LINE, p, c); }

// ------------------------------------------------------------ C01 decoding
static Plan make_c01(u64, u64 index, Rng &r)
{
	Plan p;
	TextGen g(r);
	if (index % 2 == 0 && index / 2 < 4096) {
		// sweeps: all encodings, or all continuation choices of a window
		u64 blk = (index / 2 * 1597) % 4096;
		p.ops.push_back(Op(OP_MODE, {1}));
		Cps t;
		if (blk < 2176) {
			for (u32 i = 0; i < 512; i++) t.push_back((u32)blk * 512 + i);
			p.ops.push_back(Op(OP_TEXT, {}, t));
		} else {
			Op o(OP_RAW, {});
			static const u8 tail[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xED, 0xF4, 0xFF};
			for (int i = 0; i < 220; i++) {
				u32 b0 = (u32)((blk - 2176) * 220 + (u64)i) % 256;
				o.t.push_back(r.pct(70) ? 0x80 + (b0 & 0x7F) : b0);
				for (int j = 0; j < 3; j++) o.t.push_back(r.pct(75) ? tail[r.below(sizeof tail)] : (u32)r.below(256));
				if (r.pct(50)) o.t.push_back('.');
			}
			p.ops.push_back(o);
		}
		gen_net(p, r, r.pct(70) ? 0 : 2000, true);
		return p;
	}
	p.ops.push_back(Op(OP_MODE, {0}));
	int n = 1 + (int)r.below(4);
	size_t len = 0;
	for (int i = 0; i < n; i++) {
		if (r.pct(55)) {
			Cps t;
			if (r.pct(12)) t = g.text((TextGen::Table)r.below(TextGen::NT), 80, false); // longer runs of one kind
			else for (size_t m = r.below(12); m; m--) t.push_back(g.any_cp(false));
			len += t.size() * 2;
			p.ops.push_back(Op(OP_TEXT, {}, t));
		} else {
			Op o(OP_RAW, {});
			for (u8 b : g.corrupt_bytes(12)) o.t.push_back(b);
			len += o.t.size();
			p.ops.push_back(o);
		}
	}
	gen_huge(p, r);
	gen_net(p, r, len, true);
	return p;
}
static void exec_c01(const Plan &p, Ctx &c)
{
	Bytes src = source_bytes(p);
	auto q = network(p, src, c);
	if (mode(p, 0)) c.count(P_SWEEP);
	Bytes all, carry;
	Cps got;
	auto call = [&](const u8 *b, size_t n, u32 *cp) {
		return libcall(c, "decode_utf8", n, [&] { return grapheme_decode_utf8((const char *)b, n, cp); });
	};
	for (size_t w = 0; w < q.size(); w++) {
		c.now = q[w].at;
		bool eof = w + 1 == q.size();
		all.insert(all.end(), q[w].d.begin(), q[w].d.end());
		carry.insert(carry.end(), q[w].d.begin(), q[w].d.end());
		c.count(S_WAKES);
		arena_reset();
		u8 *b = arena_copy(carry.data(), carry.size());
		size_t off = 0, n = carry.size();
		while (off < n) {
			u32 cp = 0xAAAAAAAA, m;
			size_t ret = call(b + off, n - off, &cp);
			size_t ret0 = call(b + off, n - off, nullptr);
			size_t want = decode(b + off, n - off, &m);
			c.ev(ret); c.ev(cp);
			c.count(S_CHECKS);
			if (ret != ret0) c.fail("null-cp", "decoding with and without destination reports %zu and %zu for %s", ret, ret0, hex8(b + off, std::min<size_t>(n - off, 6)).c_str());
			if (ret < 1 || ret > 4) c.fail("count-range", "decode of a non-empty buffer reported %zu bytes for %s", ret, hex8(b + off, std::min<size_t>(n - off, 6)).c_str());
			if (ret != want) {
				if (want > n - off && ret > n - off) {}
				else c.fail("count", "decode consumed %zu, expected %zu (buffer of %zu) for %s", ret, want, n - off, hex8(b + off, std::min<size_t>(n - off, 6)).c_str());
			}
			if (cp != m) c.fail("codepoint", "decode gave U+%04X, expected U+%04X for %s", cp, m, hex8(b + off, std::min<size_t>(n - off, 6)).c_str());
			c.state(((u64)ret << 40) ^ ((u64)(b[off]) << 24) ^ ((u64)(off + 1 < n ? b[off + 1] >> 4 : 99) << 8) ^ (off + 2 < n ? b[off + 2] >> 5 : 99) ^ (n - off < 4 ? n - off : 4) * 1000003);
			if (ret > n - off) { c.count(P_SPLITSEQ); break; } // wait for more
			if (cp == 0xFFFD) c.count(P_ILLFORMED);
			got.push_back(cp);
			off += ret;
		}
		carry.erase(carry.begin(), carry.begin() + (long)off);
		if (eof && !carry.empty()) c.count(P_TAIL);
		c.log("wake: %zu bytes in hand, %zu consumed, %zu codepoints so far", n, off, got.size());
	}
	// history: same as decoding the complete stream at once
	Cps whole; std::vector<size_t> offs;
	decode_all(all.data(), all.size(), whole, offs);
	note_cps(whole);
	c.count(S_CHECKS);
	c.count(S_SIMTIME_US, c.now);
	if (whole != got) c.fail("history", "incremental decoding gave %s, the complete stream decodes to %s", hex(got).c_str(), hex(whole).c_str());
	if (all.size() > offs.back() && carry != Bytes(all.begin() + (long)offs.back(), all.end())) c.fail("history", "left-over tail differs");
	i64 hs = huge_sel(p);
	u8 *hp = hs < 0 || all.size() > 20000 ? nullptr : huge_space(0);
	if (hp) { // ... and at the front of a buffer of more than 2^31 bytes
		Bytes t(all);
		t.insert(t.end(), 8, 0);
		memcpy(hp, t.data(), t.size());
		c.count(P_HUGE);
		for (size_t off = 0, k = 0; off < all.size(); k++) {
			u32 cp = 0xAAAAAAAA, m;
			size_t L = huge_len(hs, k), want = decode(t.data() + off, t.size() - off, &m);
			size_t ret = libcall(c, "decode_utf8", 8, [&] { return grapheme_decode_utf8((const char *)hp + off, L, &cp); });
			c.ev(ret); c.ev(cp); c.count(S_CHECKS);
			if (ret != want || cp != m) c.fail("count", "decode in a buffer of %zu bytes gave U+%04X from %zu, expected U+%04X from %zu for %s", L, cp, ret, m, want, hex8(t.data() + off, std::min<size_t>(t.size() - off, 6)).c_str());
			off += want;
		}
	}
	u32 x = 1;
	if (call(nullptr, 5, &x) != 0 || x != 0xFFFD) c.fail("null", "decode of a null buffer");
	x = 1;
	arena_reset();
	if (call(arena_alloc(0), 0, &x) != 0 || x != 0xFFFD) c.fail("empty", "decode of an empty buffer");
}

// ------------------------------------------------------------ C02 encoding
static Plan make_c02(u64, u64 index, Rng &r)
{
	Plan p;
	TextGen g(r);
	Cps t;
	if (index % 2 == 0 && index / 2 < 2177) {
		u64 blk = (index / 2 * 997) % 2177;
		for (u32 i = 0; i < 512; i++) t.push_back((u32)blk * 512 + i);
	} else {
		size_t n = 1 + r.below(40);
		while (n--) t.push_back(g.any_cp(true));
	}
	p.ops.push_back(Op(OP_TEXT, {}, t));
	size_t n = 1 + r.below(8);
	while (n--) p.ops.push_back(Op(OP_CAP, {(i64)(r.pct(50) ? r.below(8) : r.below(64)), (i64)r.below(3)}));
	if (t.size() < 100 && r.pct(6)) p.ops.push_back(Op(OP_CAP, {WIDE + wide(r), (i64)r.below(3)}));
	gen_huge(p, r);
	return p;
}
static void exec_c02(const Plan &p, Ctx &c)
{
	Cps src = source_cps(p), want;
	Bytes wire, expect;
	for (u32 x : src) want.push_back((x > 0x10FFFF || (x >= 0xD800 && x <= 0xDFFF)) ? 0xFFFD : x);
	expect = encode_all(src);
	std::vector<std::pair<size_t, int>> caps; // capacity, fault
	for (auto &o : p.ops) if (o.k == OP_CAP) caps.push_back({cap_of(o.arg(0), WIDE, c), (int)o.arg(1)});
	size_t ci = 0, i = 0, stuck = 0;
	while (i < src.size()) {
		size_t cap = caps.empty() ? 4 : caps[ci % caps.size()].first;
		int fault = caps.empty() ? 0 : caps[ci % caps.size()].second;
		ci++;
		if (stuck > caps.size()) cap = std::max<size_t>(cap, 4), fault = 0; // faults stop
		arena_reset();
		u8 *sink = arena_new<u8>(cap, 0x5A);
		size_t used = 0, i0 = i;
		while (i < src.size()) {
			u8 ref[4];
			size_t need = encode(src[i], ref);
			size_t sz = libcall(c, "encode_utf8", 1, [&] { return grapheme_encode_utf8(src[i], nullptr, 0); });
			size_t room = cap - used;
			Bytes before(sink + used, sink + cap);
			size_t ret = libcall(c, "encode_utf8", 1, [&] { return grapheme_encode_utf8(src[i], (char *)sink + used, room); });
			c.ev(ret); c.count(S_CHECKS);
			c.state(need * 8 + std::min<size_t>(room, 5) + (u64)(src[i] >> 6) * 64);
			if (fault || i % 16 == 3) { // a caller whose allocation failed keeps the size it asked for
				size_t ab = libcall(c, "encode_utf8", 1, [&] { return grapheme_encode_utf8(src[i], nullptr, cap); });
				if (ab != need) c.fail("absent", "encoding U+%04X into an absent sink of %zu bytes reports %zu, needs %zu", src[i], cap, ab, need);
			}
			if (sz != need || ret != need) c.fail("count", "encoding U+%04X reports %zu (sizing %zu), needs %zu", src[i], ret, sz, need);
			if (need > room) {
				c.count(F_FULLSINK);
				if (room && memcmp(before.data(), sink + used, room)) c.fail("partial", "encoding U+%04X into %zu bytes of room modified the sink", src[i], room);
				break;
			}
			if (memcmp(sink + used, ref, need)) c.fail("bytes", "encoding U+%04X wrote %s, expected %s", src[i], hex8(sink + used, need).c_str(), hex8(ref, need).c_str());
			if (room > need && memcmp(before.data() + need, sink + used + need, room - need)) c.fail("beyond", "encoding U+%04X wrote past its bytes", src[i]);
			used += need; i++;
		}
		c.now += 100;
		if (fault == 1 && used) { c.count(F_LOSTFLUSH); i = i0; stuck++; continue; } // flush failed: nothing durable, redo
		wire.insert(wire.end(), sink, sink + used);
		if (i == i0) stuck++; else if (!fault) stuck = 0;
	}
	note_cps(src);
	c.count(S_SIMTIME_US, c.now);
	i64 hs = huge_sel(p);
	for (size_t k = 0; hs >= 0 && k < src.size() && k < 12; k++) {
		u8 *hp = huge_space(0x5A), ref[4];
		if (!hp) break;
		c.count(P_HUGE);
		size_t need = encode(src[k], ref), L = huge_len(hs, k);
		size_t ret = libcall(c, "encode_utf8", 1, [&] { return grapheme_encode_utf8(src[k], (char *)hp, L); });
		c.ev(ret); c.count(S_CHECKS);
		if (ret != need || memcmp(hp, ref, need)) c.fail("bytes", "encoding U+%04X into a sink of %zu bytes reports %zu and wrote %s, expected %s", src[k], L, ret, hex8(hp, need).c_str(), hex8(ref, need).c_str());
		huge_behind(c, hp, need, 0x5A, "encoding");
	}
	if (wire != expect) c.fail("history", "transported bytes differ from the encoding of the sequence");
	// the receiver decodes with the library
	arena_reset();
	u8 *b = arena_copy(wire.data(), wire.size());
	Cps got;
	for (size_t off = 0; off < wire.size();) {
		u32 cp;
		size_t r = libcall(c, "decode_utf8", 4, [&] { return grapheme_decode_utf8((char *)b + off, wire.size() - off, &cp); });
		if (r == 0 || r > wire.size() - off) c.fail("roundtrip", "transported bytes do not decode at %zu: %s", off, hex8(b + off, std::min<size_t>(8, wire.size() - off)).c_str());
		got.push_back(cp); off += r;
	}
	c.count(S_CHECKS);
	if (got != want) c.fail("roundtrip", "decoding the transported bytes gives other codepoints");
}

// ------------------------------------------------------------ C03 break state
static Plan make_c03(u64, u64 index, Rng &r)
{
	Plan p;
	TextGen g(r);
	Cps sw;
	if (index % 2 == 0) sw = g.sweep(TextGen::GCB, index / 2);
	if (!sw.empty()) {
		p.ops.push_back(Op(OP_TEXT, {}, sw));
		return p;
	}
	int n = 1 + (int)r.below(3);
	for (int i = 0; i < n; i++) {
		if (i == 0 && medium_turn(index)) { // a = {1 for a piece of the previous text, times}
			g.giant(TextGen::GCB, p, true);
			for (size_t j = p.ops.size() - 2; j < p.ops.size(); j++) p.ops[j].a = {1, p.ops[j].arg(1)};
		} else p.ops.push_back(Op(OP_TEXT, {}, g.text(TextGen::GCB, 300, true)));
	}
	// schedule of streams: (stream, calls, event: 0 none 1 persist+restore 2 reset after break allowed)
	int m = (int)r.below(14);
	for (int i = 0; i < m; i++) p.ops.push_back(Op(OP_RUN, {(i64)r.below(3), (i64)(1 + r.below(r.pct(50) ? 3 : 30)), (i64)r.below(3)}));
	return p;
}
static void exec_c03(const Plan &p, Ctx &c)
{
	struct Stream { Cps t; size_t pos; uint_least16_t st; std::vector<size_t> brk; bool cleared; };
	std::vector<Stream> S;
	for (auto &o : p.ops) if (o.k == OP_TEXT) {
		Cps x;
		for (i64 k = std::max<i64>(1, o.arg(1)); k; k--) x.insert(x.end(), o.t.begin(), o.t.end());
		if (o.arg(0) == 1 && !S.empty()) S.back().t.insert(S.back().t.end(), x.begin(), x.end());
		else if (S.size() < 8) S.push_back({x, 1, 0, {}, false});
	}
	if (S.empty()) return;
	arena_reset();
	auto step = [&](Stream &s, int evt) {
		u32 a = s.t[s.pos - 1], b = s.t[s.pos];
		uint_least16_t *w = (uint_least16_t *)arena_alloc(2);
		memcpy(w, &s.st, 2);
		uint_least16_t before = *w;
		bool brk = libcall(c, "is_character_break", 2, [&] { return grapheme_is_character_break(a, b, w); });
		bool want = next_break(CHAR, s.t.data() + (s.brk.empty() ? 0 : s.brk.back()), s.pos + 1 - (s.brk.empty() ? 0 : s.brk.back())) == s.pos - (s.brk.empty() ? 0 : s.brk.back());
		c.ev(brk); c.ev(*w);
		c.count(S_CHECKS);
		c.state(((u64)before << 16) ^ gcb(a) ^ (u64)gcb(b) << 8 ^ 3);
		if (brk != want) c.fail("break", "break between U+%04X and U+%04X at %zu: got %d, expected %d; text: %s", a, b, s.pos, brk, want, hex(s.t.data(), std::min<size_t>(s.pos + 1, 60)).c_str());
		// null state == freshly zeroed state
		uint_least16_t z = 0;
		bool bz = libcall(c, "is_character_break", 2, [&] { return grapheme_is_character_break(a, b, &z); });
		bool bn = libcall(c, "is_character_break", 2, [&] { return grapheme_is_character_break(a, b, nullptr); });
		u32 pr[2] = {a, b};
		bool bw = next_break(CHAR, pr, 2) == 1;
		if (bn != bw || bz != bw) c.fail("null-state", "U+%04X U+%04X alone: null state says %d, zeroed state says %d, expected %d", a, b, bn, bz, bw);
		s.st = *w;
		if (brk) {
			s.brk.push_back(s.pos);
			if (evt == 2) { s.st = 0; s.cleared = true; c.count(F_CRASH); }
		}
		if (evt == 1) { // process dies; only the persisted 16 bits survive
			u8 disk[2] = {(u8)(s.st & 0xFF), (u8)(s.st >> 8)};
			s.st = 0xDEAD;
			s.st = (uint_least16_t)(disk[0] | disk[1] << 8);
			c.count(F_CRASH);
		}
		s.pos++;
		if ((s.pos & 127) == 0) arena_reset();
	};
	for (auto &o : p.ops) {
		if (o.k != OP_RUN) continue;
		Stream &s = S[(size_t)std::max<i64>(0, o.arg(0)) % S.size()];
		c.count(F_PREEMPT);
		for (i64 i = 0; i < o.arg(1) && s.pos < s.t.size(); i++) step(s, (int)o.arg(2)), c.now++;
	}
	for (auto &s : S) while (s.pos < s.t.size()) step(s, 0), c.now++;
	c.count(S_SIMTIME_US, c.now);
	for (auto &s : S) {
		if (s.t.empty()) continue;
		note_cps(s.t);
		std::vector<size_t> all = all_breaks(CHAR, s.t.data(), s.t.size());
		all.pop_back();
		if (all != s.brk) c.fail("history", "recorded breaks differ from the whole-text clusters of %s", hex(s.t).c_str());
	}
}

// ------------------------------------------------------------ C08 progress
static Plan make_c08(u64, u64 index, Rng &r)
{
	Plan p;
	TextGen g(r);
	int rep = r.pct(75);
	p.ops.push_back(Op(OP_MODE, {rep, (i64)r.below(2)}));
	TextGen::Table t = (TextGen::Table)r.below(TextGen::NT);
	Cps x = g.text(t, r.pct(95) ? 120 : 1100, !rep);
	if (medium_turn(index, 512)) g.giant(t, p, true); else
	p.ops.push_back(Op(OP_TEXT, {}, x));
	if (rep && r.pct(70)) damage(p, r, g);
	if (rep && r.pct(40)) { // cut inside the last sequence
		Op o(OP_RAW, {});
		static const u8 lead[] = {0xC3, 0xE2, 0xF0, 0xF4, 0xDF, 0xEF, 0xF7, 0xC0};
		o.t.push_back(lead[r.below(8)]);
		size_t n = r.below(3);
		while (n--) o.t.push_back(0x80 + (u32)r.below(0x40));
		p.ops.push_back(o);
	}
	gen_net(p, r, x.size() * 2, true);
	return p;
}
static void exec_c08(const Plan &p, Ctx &c)
{
	int rep = (int)(mode(p, 0) & 1);
	Bytes rb; Cps rc;
	std::vector<Packet<u8>> qb; std::vector<Packet<u32>> qc;
	if (rep) qb = network(p, source_bytes(p), c); else qc = network(p, source_cps(p), c);
	size_t np = rep ? qb.size() : qc.size();
	for (size_t w = 0; w < np; w++) {
		c.now = rep ? qb[w].at : qc[w].at;
		c.count(S_WAKES);
		if (rep) rb.insert(rb.end(), qb[w].d.begin(), qb[w].d.end()); else rc.insert(rc.end(), qc[w].d.begin(), qc[w].d.end());
		size_t n = rep ? rb.size() : rc.size();
		arena_reset();
		const u8 *ub = rep ? arena_copy(rb.data(), n) : nullptr;
		const u32 *cb = rep ? nullptr : arena_copy(rc.data(), n);
		for (int k = 0; k < NKIND; k++) {
			size_t off = 0, calls = 0;
			while (off < n) { // the documented loop
				size_t rest = n - off;
				size_t ret = rep ? libcall(c, "next_break_utf8", rest, [&] { return NEXT_U8[k]((const char *)ub + off, rest); })
				                 : libcall(c, "next_break", rest, [&] { return NEXT_CP[k](cb + off, rest); });
				c.ev(ret); c.count(S_CHECKS);
				if (ret == 0) c.fail("zero", "next %s break%s returned 0 on a non-empty buffer: the documented loop never ends; rest: %s", kind_name[k], rep ? " (UTF-8)" : "", rep ? hex8(ub + off, std::min<size_t>(rest, 30)).c_str() : hex(cb + off, std::min<size_t>(rest, 30)).c_str());
				if (ret > rest) c.fail("overrun", "next %s break returned %zu with %zu left", kind_name[k], ret, rest);
				off += ret;
				calls++;
			}
			if (calls > n) c.fail("loop", "loop took %zu calls for %zu units", calls, n);
			c.state(mix64((u64)k * 2 + (u64)rep) ^ (u64)std::min<size_t>(n, 64) << 8 ^ (u64)std::min<size_t>(calls, 64));
		}
		if (rep) {
			size_t off = 0, calls = 0;
			while (off < n) {
				u32 cp;
				size_t ret = libcall(c, "decode_utf8", n - off, [&] { return grapheme_decode_utf8((const char *)ub + off, n - off, &cp); });
				c.count(S_CHECKS);
				if (ret == 0 || ret > 4) c.fail("decode", "decode returned %zu on a non-empty buffer", ret);
				if (ret > n - off) break;
				off += ret; calls++;
			}
			c.ev(calls);
		}
		for (int k = 0; k < NCASE; k++) {
			size_t ret = rep ? libcall(c, "to_case_utf8", n, [&] { return TO_U8[k]((const char *)ub, n, nullptr, 0); })
			                 : libcall(c, "to_case", n, [&] { return TO_CP[k](cb, n, nullptr, 0); });
			size_t cl = 0x5A5A;
			(void)(rep ? libcall(c, "is_case_utf8", n, [&] { return IS_U8[k]((const char *)ub, n, &cl); })
			           : libcall(c, "is_case", n, [&] { return IS_CP[k](cb, n, &cl); }));
			c.ev(ret); c.ev(cl); c.count(S_CHECKS, 2);
			if (ret > n * 4 * 3) c.fail("size", "%s conversion of %zu units claims %zu", case_name[k], n, ret);
			if (cl > n) c.fail("caselen", "%s detection matched %zu of %zu units", case_name[k], cl, n);
		}
	}
	c.count(S_SIMTIME_US, c.now);
	// NUL-terminated form of the documented loop
	if (mode(p, 1) && np) {
		c.count(P_NULMODE);
		for (auto &x : rb) if (!x) x = 1;
		for (auto &x : rc) if (!x) x = 1;
		rb.push_back(0); rc.push_back(0);
		arena_reset();
		size_t n = (rep ? rb.size() : rc.size()) - 1;
		const u8 *ub = rep ? arena_copy(rb.data(), n + 1) : nullptr;
		const u32 *cb = rep ? nullptr : arena_copy(rc.data(), n + 1);
		for (int k = 0; k < NKIND; k++) {
			size_t off = 0;
			while (off < n) {
				size_t ret = rep ? libcall(c, "next_break_utf8", n, [&] { return NEXT_U8[k]((const char *)ub + off, SIZE_MAX); })
				                 : libcall(c, "next_break", n, [&] { return NEXT_CP[k](cb + off, SIZE_MAX); });
				c.ev(ret); c.count(S_CHECKS);
				if (ret == 0 || ret > n - off) c.fail("zero-nul", "next %s break in NUL-terminated mode returned %zu with %zu left", kind_name[k], ret, n - off);
				off += ret;
			}
			size_t z = rep ? libcall(c, "next_break_utf8", 0, [&] { return NEXT_U8[k]((const char *)ub + n, SIZE_MAX); })
			               : libcall(c, "next_break", 0, [&] { return NEXT_CP[k](cb + n, SIZE_MAX); });
			if (z) c.fail("nul-empty", "next %s break at the terminator returned %zu", kind_name[k], z);
		}
	}
	for (int k = 0; k < NKIND; k++) {
		arena_reset();
		if (libcall(c, "null", 0, [&] { return NEXT_CP[k](nullptr, 3); }) || libcall(c, "null", 0, [&] { return NEXT_U8[k](nullptr, 3); }) ||
		    libcall(c, "empty", 0, [&] { return NEXT_CP[k]((u32 *)arena_alloc(0), 0); }) || libcall(c, "empty", 0, [&] { return NEXT_U8[k]((char *)arena_alloc(0), 0); }))
			c.fail("null", "next %s break of a null or empty buffer is not 0", kind_name[k]);
	}
}

// ------------------------------------------------------------ C09 / C10 conversion
static Plan make_case(bool trunc, u64 index, Rng &r)
{
	Plan p;
	TextGen g(r);
	int rep = (int)r.below(2);
	Cps sw;
	// three conversions and two representations visit every sweep text
	if (index % 3 == 0 && !trunc) sw = g.sweep(TextGen::CS, index / 18);
	if (!sw.empty()) {
		p.ops.push_back(Op(OP_MODE, {(i64)(index / 3 % 2), (i64)(index / 6 % 3), 7}));
		p.ops.push_back(Op(OP_TEXT, {}, sw));
		return p;
	}
	p.ops.push_back(Op(OP_MODE, {rep, (i64)r.below(3), 1 + (i64)r.below(7)}));
	bool giant = giant_turn(index, trunc ? 4096 : 1024);
	if (giant || medium_turn(index)) {
		g.giant(TextGen::CS, p, !giant);
		if (trunc) p.ops.push_back(Op(OP_CAP, {(i64)r.below(giant ? 65600 : 5100), 0, 6}));
		return p;
	}
	Cps t = g.text(r.pct(70) ? TextGen::CS : TextGen::WB, trunc ? 60 : 300, !rep);
	if (trunc && r.pct(60) && t.size() > 6) t.resize(1 + r.below(6));
	p.ops.push_back(Op(OP_TEXT, {}, t));
	if (rep && r.pct(25)) damage(p, r, g);
	// allocation behaviour of the caller: capacity offered, fault (1 fail, 2 short)
	size_t n = trunc ? 3 + r.below(8) : r.below(6);
	size_t hi = t.size() * (rep ? 3 : 2) + 4;
	while (n--) p.ops.push_back(Op(OP_CAP, {(i64)(r.pct(25) ? r.below(4) : r.below(hi)), (i64)r.below(3), (i64)r.below(8)}));
	if (r.pct(6)) p.ops.push_back(Op(OP_CAP, {WIDE + wide(r), 0, (i64)r.below(8)}));
	gen_huge(p, r);
	return p;
}
static bool same_case(const Cps &got, const CaseOut &e, size_t n)
{
	if (got.size() < n) return false;
	for (size_t i = 0; i < n; i++) {
		if (got[i] == e.out[i]) continue;
		return false;
	}
	return true;
}
static void exec_case(bool trunc, const Plan &p, Ctx &c)
{
	int rep = (int)(mode(p, 0) & 1), first = (int)(mode(p, 1) & 3) % 3, mask = (int)mode(p, 2) & 7;
	Bytes sb; Cps sc, cps; std::vector<size_t> offs;
	if (rep) { sb = source_bytes(p); decode_all(sb.data(), sb.size(), cps, offs); if (offs.back() < sb.size()) c.count(P_TAIL); }
	else { sc = source_cps(p); cps = sc; }
	note_cps(cps);
	size_t slen = rep ? sb.size() : sc.size();
	for (u32 x : cps) if (x == 0x3A3) { c.count(P_SIGMA); break; }
	for (int q = 0; q < NCASE; q++) {
		int k = (first + q) % NCASE;
		if (!(mask >> k & 1)) continue;
		CaseOut e = convert((Case)k, cps.data(), cps.size());
		if (e.out.size() != cps.size()) c.count(P_SPECIAL);
		std::vector<size_t> eo(1, 0); // unit offset of each output codepoint
		for (u32 x : e.out) { u8 o[4]; eo.push_back(eo.back() + (rep ? encode(x, o) : 1)); }
		size_t full = eo.back();
		u64 hh = (u64)k * 3 + (u64)rep;
		for (size_t i = 0; i < cps.size() && i < 5; i++) hh = hh * 7 + T_case[cps[i] <= 0x10FFFF ? cps[i] : 0] + 4 * (cps[i] == 0x3A3);
		c.state(hh + 991 * std::min<size_t>(cps.size(), 20));

		auto attempt = [&](size_t cap, bool null, int fill) {
			arena_reset();
			const u8 *ub = rep ? arena_copy(sb.data(), slen) : nullptr;
			const u32 *cb = rep ? nullptr : arena_copy(sc.data(), slen);
			u8 *du = !null && rep ? arena_new<u8>(cap, fill) : nullptr;
			u32 *dc = !null && !rep ? arena_new<u32>(cap, fill) : nullptr;
			size_t ret = rep ? libcall(c, "to_case_utf8", slen, [&] { return TO_U8[k]((const char *)ub, slen, (char *)du, cap); })
			                 : libcall(c, "to_case", slen, [&] { return TO_CP[k](cb, slen, dc, cap); });
			c.now += 20;
			c.ev(ret); c.count(S_CHECKS);
			if (ret != full)
				c.fail("length", "%s%s of %zu units with capacity %zu reports %zu, full mapping has %zu; text: %s", case_name[k], rep ? " (UTF-8)" : "", slen, cap, ret, full, hex(cps).c_str());
			if (null) return ret;
			// output, up to the terminator
			if (cap == 0) return ret;
			size_t keep = 0;
			while (keep < e.out.size() && eo[keep + 1] <= cap - 1) keep++;
			bool fits = keep == e.out.size();
			if (!fits) c.count(P_TRUNCOUT);
			if (!trunc && !fits) return ret;
			if (trunc && fits && cap > full + 1 && fill == 0) {} // still checked below
			size_t un = eo[keep];
			u32 term = rep ? du[un] : dc[un];
			Cps got; std::vector<size_t> go;
			if (rep) decode_all(du, un, got, go); else got.assign(dc, dc + un);
			c.count(S_CHECKS);
			for (u32 x : got) c.ev(x);
			if (rep && go.back() != un) got.clear();
			if (!same_case(got, e, keep) || got.size() != keep)
				c.fail(fits ? "content" : "prefix", "%s%s into capacity %zu: output %s, expected %s; text: %s", case_name[k], rep ? " (UTF-8)" : "", cap, rep ? hex8(du, std::min(cap, un + 1)).c_str() : hex(dc, std::min(cap, un + 1)).c_str(), hex(e.out.data(), keep).c_str(), hex(cps).c_str());
			if (term != 0)
				c.fail("terminator", "%s%s into capacity %zu (full length %zu): no NUL after the %zu units that fit; text: %s", case_name[k], rep ? " (UTF-8)" : "", cap, full, un, hex(cps).c_str());
			for (size_t i = un + 1; i < cap; i++)
				if (rep ? du[i] != (u8)fill : dc[i] != (u32)(u8)fill * 0x01010101u) c.fail("behind", "%s%s into capacity %zu (full length %zu) changes the destination at %zu, behind the NUL at %zu; text: %s", case_name[k], rep ? " (UTF-8)" : "", cap, full, i, un, hex(cps).c_str());
			return ret;
		};
		// a caller that sizes, allocates and retries; each CAP op is one
		// reply of the simulated allocator
		size_t want = attempt(0, true, 0) + 1, tries = 0;
		bool done = false;
		for (auto &o : p.ops) {
			if (o.k != OP_CAP || tries++ > 24) continue;
			size_t cap = cap_of(o.arg(0), WIDE, c);
			if (trunc && o.arg(0) < WIDE && o.arg(2) < 6) cap = full + 4 > (size_t)o.arg(2) ? (o.arg(2) == 0 ? full : o.arg(2) == 1 ? full + 1 : cap % (full + 3)) : cap;
			if (o.arg(1) == 1 && !trunc) { c.count(F_ALLOCFAIL); attempt(0, false, 0xEE); c.now += 1000; continue; }
			if (o.arg(1) == 2) { c.count(F_SHORTALLOC); cap = std::min(cap, want ? want - 1 : 0); }
			if (o.arg(2) == 7) attempt(cap, true, 0); // absent destination, stale capacity
			attempt(cap, false, (int)(0x11 * (o.arg(2) & 15)));
			if (cap >= want) done = true;
		}
		i64 hs = huge_sel(p);
		u8 *hp = hs < 0 || full > 10000 ? nullptr : huge_space(0x5A);
		if (hp) {
			arena_reset();
			const u8 *ub = rep ? arena_copy(sb.data(), slen) : nullptr;
			const u32 *cb = rep ? nullptr : arena_copy(sc.data(), slen);
			size_t L = huge_len(hs, (size_t)k);
			c.count(P_HUGE);
			size_t ret = rep ? libcall(c, "to_case_utf8", slen, [&] { return TO_U8[k]((const char *)ub, slen, (char *)hp, L); })
			                 : libcall(c, "to_case", slen, [&] { return TO_CP[k](cb, slen, (u32 *)hp, L); });
			c.ev(ret); c.count(S_CHECKS);
			if (ret != full) c.fail("length", "%s%s of %zu units with capacity %zu reports %zu, full mapping has %zu; text: %s", case_name[k], rep ? " (UTF-8)" : "", slen, L, ret, full, hex(cps).c_str());
			Cps got; std::vector<size_t> go;
			if (rep) decode_all(hp, full, got, go); else got.assign((u32 *)hp, (u32 *)hp + full);
			if (got != e.out || (rep ? hp[full] : ((u32 *)hp)[full]) != 0) c.fail("content", "%s%s into capacity %zu gives other codepoints or no terminator; text: %s", case_name[k], rep ? " (UTF-8)" : "", L, hex(cps).c_str());
			huge_behind(c, hp, (full + 1) * (rep ? 1 : 4), 0x5A, "conversion");
		}
		if (!done || !trunc) attempt(want, false, 0xFF);
		if (trunc) for (size_t cap = 0; cap <= std::min<size_t>(full + 2, 14); cap++) attempt(cap, false, 0xA5);
	}
	c.count(S_SIMTIME_US, c.now);
}
static Plan make_c09(u64, u64 i, Rng &r) { return make_case(false, i, r); }
static Plan make_c10(u64, u64 i, Rng &r) { return make_case(true, i, r); }
static void exec_c09(const Plan &p, Ctx &c) { exec_case(false, p, c); }
static void exec_c10(const Plan &p, Ctx &c) { exec_case(true, p, c); }

// ------------------------------------------------------------ C11 detection
static Plan make_c11(u64, u64 index, Rng &r)
{
	Plan p;
	TextGen g(r);
	int rep = (int)r.below(2);
	bool full;
	Cps sw;
	if (index % 3 == 0) sw = TextGen::sweep_members(TextGen::CS, index / 3, &full);
	if (!sw.empty()) {
		// one codepoint per message: verdicts are about whole texts
		p.ops.push_back(Op(OP_MODE, {rep, 1}));
		p.ops.push_back(Op(OP_TEXT, {}, sw));
		return p;
	}
	p.ops.push_back(Op(OP_MODE, {rep, 0, (i64)r.below(4)}));
	if (giant_turn(index) || medium_turn(index)) { g.giant(TextGen::CS, p, !giant_turn(index)); return p; }
	Cps t = g.text(r.pct(70) ? TextGen::CS : TextGen::WB, 80, !rep);
	if (r.pct(40)) { // make it nearly matching
		Case k = (Case)r.below(3);
		t = convert(k, t.data(), t.size()).out;
		if (r.pct(50)) t = convert(k, t.data(), t.size()).out;
		if (!t.empty() && r.pct(60)) t[r.below(t.size())] = g.any_cp(false);
	}
	p.ops.push_back(Op(OP_TEXT, {}, t));
	if (rep && r.pct(30)) damage(p, r, g);
	gen_huge(p, r);
	gen_net(p, r, t.size(), true);
	return p;
}
static void check_detect(int rep, const Bytes &sb, const Cps &sc, Ctx &c)
{
	size_t n = rep ? sb.size() : sc.size();
	Cps cps; std::vector<size_t> offs;
	if (rep) decode_all(sb.data(), n, cps, offs); else { cps = sc; for (size_t i = 0; i <= n; i++) offs.push_back(i); }
	if (n == 0) return;
	for (int k = 0; k < NCASE; k++) {
		arena_reset();
		const u8 *ub = rep ? arena_copy(sb.data(), n) : nullptr;
		const u32 *cb = rep ? nullptr : arena_copy(sc.data(), n);
		size_t need = rep ? libcall(c, "to_case_utf8", n, [&] { return TO_U8[k]((const char *)ub, n, nullptr, 0); })
		                  : libcall(c, "to_case", n, [&] { return TO_CP[k](cb, n, nullptr, 0); });
		Cps out; std::vector<size_t> oo;
		if (need > 1000000) c.fail("length", "conversion claims %zu", need);
		if (rep) { u8 *d = arena_new<u8>(need + 1, 0); (void)libcall(c, "to_case_utf8", n, [&] { return TO_U8[k]((const char *)ub, n, (char *)d, need + 1); }); decode_all(d, need, out, oo); }
		else { u32 *d = arena_new<u32>(need + 1, 0); (void)libcall(c, "to_case", n, [&] { return TO_CP[k](cb, n, d, need + 1); }); out.assign(d, d + need); }
		size_t i = 0;
		while (i < cps.size() && i < out.size() && cps[i] == out[i]) i++;
		bool same = i == cps.size() && i == out.size();
		size_t L1 = 0x7777;
		bool v1 = rep ? libcall(c, "is_case_utf8", n, [&] { return IS_U8[k]((const char *)ub, n, &L1); })
		              : libcall(c, "is_case", n, [&] { return IS_CP[k](cb, n, &L1); });
		bool v0 = rep ? libcall(c, "is_case_utf8", n, [&] { return IS_U8[k]((const char *)ub, n, nullptr); })
		              : libcall(c, "is_case", n, [&] { return IS_CP[k](cb, n, nullptr); });
		c.ev(v1); c.ev(L1); c.count(S_CHECKS, 2);
		c.state(((u64)k << 8) ^ (u64)rep << 4 ^ v1 ^ (u64)std::min<size_t>(i, 30) << 12 ^ (u64)(i < cps.size() && cps[i] <= 0x10FFFF ? T_wb[cps[i]] * 4 + T_case[cps[i]] : 0) << 20);
		if (v0 != v1) c.fail("null-len", "%s detection depends on the length argument; text: %s", case_name[k], hex(cps).c_str());
		if (v1 != same) c.fail("verdict", "text is%s reported as %s, conversion %s it; text: %s", v1 ? "" : " not", case_name[k], same ? "keeps" : "changes", hex(cps).c_str());
		size_t want = offs[std::min(i, cps.size())];
		if (L1 != want) c.fail("caselen", "%s detection%s matched %zu units, conversion first changes at %zu; text: %s", case_name[k], rep ? " (UTF-8)" : "", L1, want, hex(cps).c_str());
	}
}
static void exec_c11(const Plan &p, Ctx &c)
{
	int rep = (int)(mode(p, 0) & 1);
	if (mode(p, 1)) {
		c.count(P_SWEEP);
		Cps t = source_cps(p);
		note_cps(t);
		for (u32 x : t) {
			Cps a(1, x), b = {x, 'a'}, d = {'A', x}, e = {'a', x, ' ', x};
			for (const Cps *q : {&a, &b, &d, &e}) check_detect(rep, rep ? encode_all(*q) : Bytes(), *q, c);
		}
		return;
	}
	Bytes rb; Cps rc;
	std::vector<Packet<u8>> qb; std::vector<Packet<u32>> qc;
	if (rep) qb = network(p, source_bytes(p), c); else qc = network(p, source_cps(p), c);
	for (size_t w = 0; w < (rep ? qb.size() : qc.size()); w++) {
		c.now = rep ? qb[w].at : qc[w].at;
		c.count(S_WAKES);
		if (rep) rb.insert(rb.end(), qb[w].d.begin(), qb[w].d.end()); else rc.insert(rc.end(), qc[w].d.begin(), qc[w].d.end());
		check_detect(rep, rb, rc, c);
	}
	c.count(S_SIMTIME_US, c.now);
	note_cps(rc);
	i64 hs = huge_sel(p);
	if (hs >= 0 && rb.size() + rc.size() < 2000) {
		// followed by a word in no requested case, at the front of a buffer of
		// more than 2^31 units
		Cps t(rc), d;
		if (rep) { std::vector<size_t> o; decode_all(rb.data(), rb.size(), t, o); }
		for (int k = 0; k < NCASE; k++) {
			static const u32 tail[NCASE][4] = {{0x2029, 'a', 0x2029, 'a'}, {0x2029, 'A', 0x2029, 'A'}, {0x2029, 'a', 0x2029, 'a'}};
			d = t;
			d.insert(d.end(), tail[k], tail[k] + 4);
			Bytes eb = encode_all(d);
			if (rep) { std::vector<size_t> o; decode_all(eb.data(), eb.size(), d, o); }
			u8 *hp = huge_space(0);
			if (!hp) break;
			c.count(P_HUGE);
			if (rep) memcpy(hp, eb.data(), eb.size()); else memcpy(hp, d.data(), d.size() * 4);
			size_t n = rep ? eb.size() : d.size(), L = huge_len(hs, (size_t)k), L1 = 1, L2 = 2;
			bool v1 = rep ? libcall(c, "is_case_utf8", n, [&] { return IS_U8[k]((const char *)hp, n, &L1); }) : libcall(c, "is_case", n, [&] { return IS_CP[k]((u32 *)hp, n, &L1); });
			if (v1) c.fail("verdict", "a text with a word in another case is reported as %s; text: %s", case_name[k], hex(d).c_str());
			bool v2 = rep ? libcall(c, "is_case_utf8", n, [&] { return IS_U8[k]((const char *)hp, L, &L2); }) : libcall(c, "is_case", n, [&] { return IS_CP[k]((u32 *)hp, L, &L2); });
			c.ev(v2); c.ev(L2); c.count(S_CHECKS);
			if (v2 || L1 != L2) c.fail("verdict", "%s detection%s of a text that first differs at %zu reports %d/%zu in a buffer of %zu units; text: %s", case_name[k], rep ? " (UTF-8)" : "", L1, v2, L2, L, hex(d).c_str());
		}
	}
}

// ------------------------------------------------------------ C12 UTF-8 vs codepoints
static Plan make_c12(u64, u64 index, Rng &r)
{
	Plan p;
	TextGen g(r);
	p.ops.push_back(Op(OP_MODE, {}));
	TextGen::Table t = (TextGen::Table)r.below(TextGen::NT);
	if (medium_turn(index)) {
		g.giant(t, p, true);
		if (r.pct(60)) return p;
	} else if (index % 4 == 0) {
		Cps x; size_t n = 1 + r.below(30);
		while (n--) x.push_back(g.any_cp(false));
		p.ops.push_back(Op(OP_TEXT, {}, x));
	} else {
		Cps x = g.text(t, r.pct(90) ? 60 : 400, false);
		size_t m = r.below(x.size() + 1);
		p.ops.push_back(Op(OP_TEXT, {}, Cps(x.begin(), x.begin() + (long)m)));
		p.ops.push_back(Op(OP_TEXT, {}, Cps(x.begin() + (long)m, x.end())));
	}
	if (r.pct(75)) damage(p, r, g);
	gen_net(p, r, 60, true);
	return p;
}
static void exec_c12(const Plan &p, Ctx &c)
{
	auto q = network(p, source_bytes(p), c);
	Bytes rb;
	for (size_t w = 0; w < q.size(); w++) {
		c.now = q[w].at;
		c.count(S_WAKES);
		rb.insert(rb.end(), q[w].d.begin(), q[w].d.end());
		size_t n = rb.size();
		if (!n) continue;
		arena_reset();
		const u8 *ub = arena_copy(rb.data(), n);
		Cps cps; std::vector<size_t> offs;
		decode_all(rb.data(), n, cps, offs);
		for (u32 x : cps) if (x == 0xFFFD) c.count(P_ILLFORMED);
		if (offs.back() < n) c.count(P_TAIL);
		size_t m = cps.size();
		const u32 *cb = arena_copy(cps.data(), m);
		for (int k = 0; k < NKIND; k++)
			for (size_t i = 0; i < m;) {
				size_t a = libcall(c, "next_break_utf8", n - offs[i], [&] { return NEXT_U8[k]((const char *)ub + offs[i], n - offs[i]); });
				size_t b = libcall(c, "next_break", m - i, [&] { return NEXT_CP[k](cb + i, m - i); });
				c.ev(a); c.count(S_CHECKS);
				if (b == 0 || b > m - i) c.fail("cp-range", "next %s break returned %zu of %zu", kind_name[k], b, m - i);
				if (a != offs[i + b] - offs[i])
					c.fail("break", "next %s break: UTF-8 variant %zu bytes, codepoint variant %zu codepoints = %zu bytes; bytes: %s", kind_name[k], a, b, offs[i + b] - offs[i], hex8(ub + offs[i], std::min<size_t>(n - offs[i], 60)).c_str());
				c.state(state_of((Kind)k, 1, cps, i, b) * 3 + (cps[i + b - 1] == 0xFFFD));
				i += b;
			}
		for (int k = 0; k < NCASE; k++) {
			size_t a = libcall(c, "to_case_utf8", n, [&] { return TO_U8[k]((const char *)ub, n, nullptr, 0); });
			size_t b = libcall(c, "to_case", m, [&] { return TO_CP[k](cb, m, nullptr, 0); });
			if (a > 1000000 || b > 1000000) c.fail("size", "conversion claims %zu / %zu", a, b);
			u8 *d = arena_new<u8>(a + 1, 0x77);
			u32 *e = arena_new<u32>(b + 1, 0x77);
			(void)libcall(c, "to_case_utf8", n, [&] { return TO_U8[k]((const char *)ub, n, (char *)d, a + 1); });
			(void)libcall(c, "to_case", m, [&] { return TO_CP[k](cb, m, e, b + 1); });
			Cps ec(e, e + b);
			Bytes eb = encode_all(ec);
			c.count(S_CHECKS); c.ev(a);
			if (eb != Bytes(d, d + a))
				c.fail("case", "%s: UTF-8 variant gives %s, codepoint variant %s; bytes: %s", case_name[k], hex8(d, a).c_str(), hex(ec).c_str(), hex8(ub, n).c_str());
			size_t la = 1, lb = 1;
			bool va = libcall(c, "is_case_utf8", n, [&] { return IS_U8[k]((const char *)ub, n, &la); });
			bool vb = libcall(c, "is_case", m, [&] { return IS_CP[k](cb, m, &lb); });
			c.count(S_CHECKS);
			if (lb > m) c.fail("caselen", "matched %zu of %zu", lb, m);
			if (va != vb || la != offs[lb])
				c.fail("detect", "%s detection: UTF-8 variant %d/%zu, codepoint variant %d/%zu (= %zu bytes); bytes: %s", case_name[k], va, la, vb, lb, offs[lb], hex8(ub, n).c_str());
		}
		if (w + 1 == q.size()) note_cps(cps);
	}
	c.count(S_SIMTIME_US, c.now);
}

// ------------------------------------------------------------ C13..C15 bidi
Cps bidi_text(TextGen &g, Rng &r, size_t mx)
{
	Cps o;
	unsigned d = (unsigned)r.below(100);
	if (d < 12) { // deep embeddings
		static const u32 open[] = {0x202A, 0x202B, 0x202D, 0x202E, 0x2066, 0x2067, 0x2068};
		static const u32 close[] = {0x202C, 0x2069};
		size_t n = r.pct(50) ? 55 + r.below(90) : r.below(140);
		u32 a = open[r.below(7)], b = open[r.below(7)];
		for (size_t i = 0; i < n; i++) { o.push_back(r.pct(85) ? a : b); if (r.pct(8)) o.push_back(g.any_cp(false)); if (r.pct(4)) o.push_back(close[r.below(2)]); }
		Cps t = g.text(TextGen::BC, 20, false);
		o.insert(o.end(), t.begin(), t.end());
		n = r.below(n + 4);
		for (size_t i = 0; i < n; i++) { o.push_back(close[r.pct(80) ? (a >= 0x2066) : r.below(2)]); if (r.pct(8)) o.push_back(g.any_cp(false)); }
		t = g.text(TextGen::BC, 12, false);
		o.insert(o.end(), t.begin(), t.end());
	} else if (d < 32) { // brackets
		static const size_t nb = sizeof bidi_brackets / sizeof *bidi_brackets;
		std::vector<u32> br;
		size_t k = 1 + r.below(3);
		for (size_t i = 0; i < k; i++) {
			size_t j = r.pct(40) ? (r.pct(50) ? 0 : 2) : r.below(nb);
			br.push_back(bidi_brackets[j].cp); br.push_back(bidi_brackets[(j ^ 1) < nb ? j ^ 1 : j].cp);
		}
		if (r.pct(20)) { br.push_back(0x2329); br.push_back(0x3009); br.push_back(0x3008); br.push_back(0x232A); }
		static const u32 fill[] = {'a', 0x5D0, '1', 0x661, ' ', 0x300, 0x627, '!', 0x2067, 0x2069, 0x202E, 0x202C, 0xAD, '-', ','};
		size_t n = r.pct(15) ? 100 + r.below(120) : 2 + r.below(40);
		unsigned open = 30 + (unsigned)r.below(50), fp = (unsigned)r.below(60);
		if (r.pct(50)) o.push_back(r.pct(50) ? 0x5D0 : 'a');
		for (size_t i = 0; i < n; i++) {
			if (r.pct(fp)) o.push_back(r.pct(85) ? fill[r.below(sizeof fill / sizeof *fill)] : g.any_cp(false));
			else { size_t j = r.below(br.size() / 2) * 2; u32 a = br[j], b = br[j + 1]; o.push_back(r.pct(open) ? a : b); }
		}
		if (n > 90 && r.pct(50)) for (size_t i = 0; i < n / 2; i++) o.push_back(br[1]);
	} else if (d < 40) { // mirrored characters and digits at mixed levels
		static const size_t nm = sizeof bidi_mirrors / sizeof *bidi_mirrors;
		size_t n = 3 + r.below(30);
		static const u32 fill[] = {'a', 0x5D0, '1', 0x661, ' ', 0x202E, 0x202D, 0x202C, 0x2067, 0x2066, 0x2069, '+', ','};
		for (size_t i = 0; i < n; i++) o.push_back(r.pct(40) ? bidi_mirrors[r.below(nm)].a : fill[r.below(sizeof fill / sizeof *fill)]);
	} else o = g.text(TextGen::BC, mx, false);
	if (r.pct(15)) { o.push_back(0x2029); Cps t = g.text(TextGen::BC, 20, false); o.insert(o.end(), t.begin(), t.end()); }
	if (o.size() > mx) o.resize(mx);
	return o;
}
// something opened n times, a discriminating core, about as many closings:
// depths and distances around limits and counter widths
static void bidi_nest(TextGen &g, Rng &r, Plan &p, bool big)
{
	static const size_t D[] = {61, 62, 63, 64, 65, 66, 122, 123, 124, 125, 126, 127, 128, 129, 254, 255, 256, 256, 257, 258, 300, 511, 512, 513};
	static const size_t B[] = {1023, 1024, 1025, 4097, 32767, 32768, 32830, 65535, 65536, 65537, 65599, 65660};
	static const size_t R[] = {15, 63, 127, 255, 256, 511, 512, 513, 1024, 1100};
	static const u32 open[] = {0x202A, 0x202B, 0x202D, 0x202E, 0x2066, 0x2067, 0x2068, '(', '(', '[', 0x2329, 0x3008};
	static const u32 strong[] = {'a', 0x5D0, 0x627, '1', 0x661, '!', ' ', 0x300};
	auto put = [&](Cps t, i64 n = 1) { if (n > 0 && t.size()) p.ops.push_back(Op(OP_TEXT, {0, n}, t)); };
	auto some = [&](size_t m) { Cps t; for (size_t i = r.below(m + 1); i; i--) t.push_back(strong[r.below(r.pct(70) ? 3 : 8)]); return t; };
	size_t k = r.below(big ? 4 : 12);
	u32 a = open[k], b = k < 4 ? 0x202C : k < 7 ? 0x2069 : k < 9 ? ')' : k < 10 ? ']' : k < 11 ? 0x232A : 0x3009;
	bool far = r.pct(big ? 60 : 25); // few levels around a long stretch
	// long runs of neutrals or isolates take the library quadratic time: slow, not wrong
	i64 d = far ? 1 + (i64)r.below(3) : (i64)(big ? B[r.below(k < 4 ? sizeof B / sizeof *B : 4)] : D[r.below(sizeof D / sizeof *D)]);
	if (r.pct(60)) put(some(3));
	u32 outer = r.pct(60) ? 0 : open[r.below(7)];
	if (outer) { put({outer}); put(some(2)); }
	if (far && big) { k = 4 + r.below(8); a = open[k]; b = k < 7 ? 0x2069 : k < 9 ? ')' : k < 10 ? ']' : k < 11 ? 0x232A : 0x3009; }
	put({a}, d);
	put(some(2));
	if (far) {
		static const u32 fill[] = {'a', 0x5D0, ' ', '!', '1', 0x300, 0xAD, 0x627};
		put({fill[r.below(big ? 2 : 8)]}, (i64)(big ? B[r.below(sizeof B / sizeof *B)] : R[r.below(sizeof R / sizeof *R)]));
		put(some(2));
	}
	put({b}, r.pct(60) ? d : std::max<i64>(0, d + (i64)r.below(7) - 3));
	put(some(3));
	if (outer) { put({outer >= 0x2066 ? 0x2069u : 0x202Cu}); put(some(3)); }
	if (r.pct(40)) put({b}, (i64)r.below(3));
	Cps z = g.text(TextGen::BC, 6, false);
	put(z);
}
static Plan make_bidi(int which, u64 index, Rng &r)
{
	Plan p;
	TextGen g(r);
	Cps t;
	p.ops.push_back(Op(OP_MODE, {(i64)r.below(3), (i64)r.below(5)}));
	u64 per = which == 15 ? 8 : 3;
	Cps sw;
	if (index % per == 0 && which != 15) sw = g.sweep(TextGen::BC, index / per);
	if (!sw.empty()) {
		p.ops[0].a[0] = 0;
		p.ops.push_back(Op(OP_TEXT, {1}, sw));
		return p;
	}
	if (giant_turn(index)) {
		if (r.pct(50)) g.giant(TextGen::BC, p, false); else bidi_nest(g, r, p, true);
		for (int i = 0; i < 2 && which == 15; i++) p.ops.push_back(Op(OP_CAP, {(i64)r.below(70000), (i64)r.below(3), (i64)r.below(4)}));
		if (r.pct(50)) p.ops.push_back(Op(OP_CUT, {(i64)r.below(2), (i64)r.below(70000)}));
		return p;
	}
	if (index % 32 == 5) {
		bidi_nest(g, r, p, false);
		for (int i = 0; i < 2 && which == 15; i++) p.ops.push_back(Op(OP_CAP, {(i64)r.below(600), (i64)r.below(3), (i64)r.below(4)}));
		if (r.pct(30)) p.ops.push_back(Op(OP_CUT, {(i64)r.below(2), (i64)r.below(600)}));
		return p;
	}
	t = bidi_text(g, r, r.pct(97) ? 260 : 700);
	if (r.pct(6)) for (u64 m = 1 + r.below(3); m && !t.empty(); m--) t[r.below(t.size())] = g.any_cp(true); // values that are no codepoints
	p.ops.push_back(Op(OP_TEXT, {0}, t));
	if (which == 15) {
		int n = 2 + (int)r.below(5);
		while (n--) p.ops.push_back(Op(OP_CAP, {(i64)(r.pct(40) ? r.below(5) : r.below(t.size() + 3)), (i64)r.below(3), (i64)r.below(4)}));
		if (r.pct(3)) p.ops.push_back(Op(OP_CAP, {WIDE + wide(r), 0, (i64)r.below(4)}));
	}
	if (which != 14) gen_huge(p, r);
	int w = which == 15 ? 1 + (int)r.below(2) : (int)r.below(4);
	for (int i = 0; i < w; i++) {
		Op o(OP_CUT, {(i64)r.below(2)});
		size_t m = r.below(r.pct(30) ? 12 : 4);
		while (m--) o.a.push_back((i64)r.below(t.size() + 1));
		p.ops.push_back(o);
	}
	return p;
}
static std::vector<std::pair<size_t, size_t>> lines_of(const Op *o, size_t len)
{
	std::vector<size_t> cut;
	cut.push_back(0); cut.push_back(len);
	if (o) for (size_t i = 1; i < o->a.size(); i++) cut.push_back((size_t)std::max<i64>(0, o->a[i]) % (len + 1));
	std::sort(cut.begin(), cut.end());
	cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
	std::vector<std::pair<size_t, size_t>> l;
	for (size_t i = 0; i + 1 < cut.size(); i++) l.push_back({cut[i], cut[i + 1]});
	if (o && o->arg(0)) std::reverse(l.begin(), l.end());
	return l;
}
static std::string lev_str(const std::vector<int> &v)
{
	std::string s;
	char b[16];
	for (size_t i = 0; i < v.size() && i < 100; i++) { snprintf(b, sizeof b, "%s%d", i ? " " : "", v[i]); s += b; }
	return s;
}
static void exec_bidi(int which, const Plan &p, Ctx &c)
{
	Cps src = source_cps(p);
	int ov = (int)std::max<i64>(0, mode(p, 0)) % 3;
	note_cps(src);
	std::vector<const Op *> passes;
	for (auto &o : p.ops) if (o.k == OP_CUT) passes.push_back(&o);
	if (passes.empty() || passes[0]->a.size() > 1) passes.insert(passes.begin(), nullptr);
	auto D = (enum grapheme_bidirectional_direction)ov;
	size_t off = 0, npar = 0;
	i64 hs = huge_sel(p);
	while (off < src.size()) {
		size_t n = src.size() - off;
		Para P = bidi_paragraph(src.data() + off, n, ov, 0);
		int amb = bidi_variants();
		size_t len = P.len;
		arena_reset();
		const u32 *in = arena_copy(src.data() + off, n);
		enum grapheme_bidirectional_direction res = GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL;
		size_t ret = libcall(c, "preprocess_paragraph", n, [&] { return grapheme_bidirectional_preprocess_paragraph(in, n, D, nullptr, 0, &res); });
		c.ev(ret); c.count(S_CHECKS);
		if (ret != len) c.fail("paragraph-length", "paragraph length %zu, expected %zu; text: %s", ret, len, hex(in, std::min<size_t>(n, 60)).c_str());
		if (which == 13 && (int)res != (P.level ? 2 : 1)) c.fail("direction", "resolved direction %d, expected level %d; text: %s", (int)res, P.level, hex(in, len).c_str());
		if (which == 15) { // capacities
			for (auto &o : p.ops) if (o.k == OP_CAP) {
				size_t cap = cap_of(o.arg(0), WIDE, c);
				if (o.arg(1) == 1) {
					// failed allocation: the buffer is absent, the size asked for is not
					c.count(F_ALLOCFAIL);
					ret = libcall(c, "preprocess_paragraph", n, [&] { return grapheme_bidirectional_preprocess_paragraph(in, n, D, nullptr, cap, o.arg(2) & 1 ? &res : nullptr); });
					if (ret != len) c.fail("paragraph-length", "an absent buffer of stated capacity %zu: reported length %zu, expected %zu", cap, ret, len);
					cap = 0;
				} else if (o.arg(1) == 2) { c.count(F_SHORTALLOC); cap = cap % (len + 1); }
				u32 *d = arena_new<u32>(cap, (int)o.arg(2) * 0x55);
				ret = libcall(c, "preprocess_paragraph", n, [&] { return grapheme_bidirectional_preprocess_paragraph(in, n, D, d, cap, o.arg(2) & 1 ? &res : nullptr); });
				c.ev(ret); c.count(S_CHECKS);
				if (ret != len) c.fail("paragraph-length", "with capacity %zu reported length %zu, expected %zu", cap, ret, len);
				for (size_t i = len; i < cap; i++)
					if (d[i] != (u32)(u8)(o.arg(2) * 0x55) * 0x01010101u) c.fail("behind", "paragraph data of %zu changes the buffer of %zu at %zu", len, cap, i);
			}
		}
		// what the buffer held before: a pattern, or the data of an earlier use
		static const u8 before[] = {0xA5, 0xFF, 0, 0x5A, 0xFF};
		int used = (int)(std::max<i64>(0, mode(p, 1)) % 5);
		u32 *data = arena_new<u32>(len, before[used]);
		if (used == 4) (void)libcall(c, "preprocess_paragraph", n, [&] { return grapheme_bidirectional_preprocess_paragraph(in, n, (enum grapheme_bidirectional_direction)((ov + 1) % 3), data, len, nullptr); });
		ret = libcall(c, "preprocess_paragraph", n, [&] { return grapheme_bidirectional_preprocess_paragraph(in, n, D, data, len, &res); });
		if (ret != len) c.fail("paragraph-length", "with buffer: paragraph length %zu, expected %zu", ret, len);
		if (which == 13 && (int)res != (P.level ? 2 : 1)) c.fail("direction", "resolved direction %d, expected level %d; text: %s", (int)res, P.level, hex(in, len).c_str());
		u8 *hp = hs < 0 || len > 5000 || npar > 3 ? nullptr : huge_space(which == 13 ? 0 : 0x5A);
		if (hp && which == 13) { // the paragraph ends early in a text of more than 2^31 codepoints
			Cps t(src.begin() + (long)off, src.begin() + (long)(off + len));
			if (len && bc(t[len - 1]) != BC_B) t.push_back(0x2029);
			size_t m = t.size(), L = huge_len(hs, npar);
			memcpy(hp, t.data(), m * 4);
			c.count(P_HUGE);
			u32 *d1 = arena_new<u32>(m, 0x11), *d2 = arena_new<u32>(m, 0x12);
			int_least8_t *l1 = arena_new<int_least8_t>(m, 0x63), *l2 = arena_new<int_least8_t>(m, 0x64);
			enum grapheme_bidirectional_direction r1 = GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL, r2 = r1;
			size_t a1 = libcall(c, "preprocess_paragraph", m, [&] { return grapheme_bidirectional_preprocess_paragraph((u32 *)hp, m, D, d1, m, &r1); });
			size_t a2 = libcall(c, "preprocess_paragraph", m, [&] { return grapheme_bidirectional_preprocess_paragraph((u32 *)hp, L, D, d2, m, &r2); });
			(void)libcall(c, "levels", m, [&] { return grapheme_bidirectional_get_line_embedding_levels(d1, m, l1, m); });
			(void)libcall(c, "levels", m, [&] { return grapheme_bidirectional_get_line_embedding_levels(d2, m, l2, m); });
			c.ev(a2); c.count(S_CHECKS);
			if (a1 != m || a2 != m || r1 != r2 || memcmp(l1, l2, m)) c.fail("paragraph-length", "a paragraph of %zu in a text of %zu codepoints: length %zu direction %d, alone %zu direction %d", m, L, a2, (int)r2, a1, (int)r1);
		}
		if (hp && which == 15) {
			size_t L = huge_len(hs, npar);
			c.count(P_HUGE);
			ret = libcall(c, "preprocess_paragraph", n, [&] { return grapheme_bidirectional_preprocess_paragraph(in, n, D, (u32 *)hp, L, nullptr); });
			c.ev(ret); c.count(S_CHECKS);
			if (ret != len) c.fail("paragraph-length", "with a buffer of %zu: reported length %zu, expected %zu", L, ret, len);
			const u32 *d2 = arena_copy((const u32 *)hp, len);
			huge_behind(c, hp, len * 4, 0x5A, "preprocessing");
			int_least8_t *l1 = arena_new<int_least8_t>(len, 0x63), *l2 = arena_new<int_least8_t>(len, 0x64);
			(void)libcall(c, "levels", len, [&] { return grapheme_bidirectional_get_line_embedding_levels(data, len, l1, len); });
			(void)libcall(c, "levels", len, [&] { return grapheme_bidirectional_get_line_embedding_levels(d2, len, l2, len); });
			if (memcmp(l1, l2, len)) c.fail("levels-prefix", "paragraph data written to a buffer of %zu give other levels", L);
			huge_space(0x5A);
			ret = libcall(c, "levels", len, [&] { return grapheme_bidirectional_get_line_embedding_levels(data, len, (int_least8_t *)hp, L); });
			if (ret != len || memcmp(hp, l1, len)) c.fail("levels-prefix", "with a buffer of %zu: %zu levels for a line of %zu, or other levels", L, ret, len);
			huge_behind(c, hp, len, 0x5A, "getting levels");
			u32 *o1 = arena_new<u32>(len, 0x63);
			size_t nv = libcall(c, "reorder_line", len, [&] { return grapheme_bidirectional_reorder_line(in, data, len, o1, len); });
			huge_space(0x5A);
			ret = libcall(c, "reorder_line", len, [&] { return grapheme_bidirectional_reorder_line(in, data, len, (u32 *)hp, L); });
			c.count(S_CHECKS, 2);
			if (ret != nv || nv > len || memcmp(hp, o1, nv * 4)) c.fail("reorder-length", "with a buffer of %zu: %zu visible characters, with %zu: %zu, or another order", L, ret, len, nv);
			huge_behind(c, hp, nv * 4, 0x5A, "reordering");
		}
		int maxl = 0;
		for (int l : P.levels) maxl = std::max(maxl, l);
		if (maxl > 60) c.count(P_DEEP);
		if (maxl >= 124) c.count(P_OVERFLOW);
		std::vector<u32> snapshot(data, data + len);
		std::vector<std::vector<int>> full(1); // model variants
		for (size_t ip = 0; ip < passes.size(); ip++) {
			if (ip) c.count(P_REWRAP);
			for (auto &ln : lines_of(passes[ip], len)) {
				size_t a = ln.first, b = ln.second, m = b - a;
				c.now += 5;
				u32 *ld = arena_copy(data + a, m); // exact line slice
				const u32 *lt = arena_copy(in + a, m);
				int_least8_t *lev = arena_new<int_least8_t>(m, 0x63);
				size_t lr = libcall(c, "get_line_embedding_levels", m, [&] { return grapheme_bidirectional_get_line_embedding_levels(ld, m, lev, m); });
				c.ev(lr); c.count(S_CHECKS);
				if (lr != m) c.fail("levels-length", "line of %zu reports %zu levels", m, lr);
				std::vector<int> got(lev, lev + m);
				for (int x : got) c.ev((u64)(x + 2));
				if (which == 13) {
					std::vector<int> want = bidi_line(P, a, b);
					bool ok = got == want;
					for (int v = 1; !ok && v < 4; v++) if (amb && (v & ~amb) == 0) ok = got == bidi_line(bidi_paragraph(src.data() + off, n, ov, v), a, b);
					if (!ok) {
						size_t i = 0; while (i < m && got[i] == want[i]) i++;
						c.fail("levels", "line [%zu,%zu): level of character %zu is %d, UAX #9 says %d; levels %s; paragraph: %s", a, b, i, got[i], want[i], lev_str(got).c_str(), hex(in, len).c_str());
					}
					u64 h = 5;
					for (size_t i = 0; i < m && i < 6; i++) h = h * 31 + (u64)(got[i] + 1) * 32 + P.orig[a + i];
					c.state(h);
				}
				if (which == 15) {
					for (auto &o : p.ops) if (o.k == OP_CAP) {
						if (a && o.arg(0) >= WIDE) continue;
						size_t cap = cap_of(o.arg(0), m + 4, c);
						int_least8_t *sl = arena_new<int_least8_t>(cap, (int)o.arg(2) * 0x33);
						size_t r2 = libcall(c, "get_line_embedding_levels", m, [&] { return grapheme_bidirectional_get_line_embedding_levels(ld, m, sl, cap); });
						c.ev(r2); c.count(S_CHECKS); c.count(F_SHORTALLOC);
						if (r2 != m) c.fail("levels-length", "line of %zu with capacity %zu reports %zu", m, cap, r2);
						if (!std::equal(sl, sl + std::min(cap, m), lev)) c.fail("levels-prefix", "levels with capacity %zu are not a prefix of the full result for a line of %zu", cap, m);
						for (size_t i = m; i < cap; i++)
							if ((u8)sl[i] != (u8)(o.arg(2) * 0x33)) c.fail("behind", "levels of a line of %zu change the buffer of %zu at %zu", m, cap, i);
						c.state(m * 1000 + cap * 3 + 1);
					}
				}
				if (which >= 14) {
					// visible characters in visual order
					std::vector<size_t> vis = bidi_reorder(got);
					auto run = [&](size_t cap, int fill) {
						u32 *out = arena_new<u32>(cap, fill);
						size_t r3 = libcall(c, "reorder_line", m, [&] { return grapheme_bidirectional_reorder_line(lt, ld, m, out, cap); });
						c.ev(r3); c.count(S_CHECKS);
						if (r3 != vis.size()) c.fail("reorder-length", "reordering a line of %zu (%zu visible) with capacity %zu reports %zu", m, vis.size(), cap, r3);
						return out;
					};
					auto check = [&](const u32 *out, size_t cap) {
						Cps strict, lenient;
						Cps o(out, out + vis.size());
						for (size_t j : vis) {
							u32 x = lt[j];
							if (x > 0x10FFFF) o[strict.size()] = x; // no codepoint: whatever stands for it
							strict.push_back(got[j] % 2 ? mirror(x) : x);
							lenient.push_back(mirror(x));
						}
						for (u32 x : o) c.ev(x);
						if (o == strict) return;
						if (o == lenient) { // listed finding C14-K1
							if (which == 14) { c.known.push_back("C14-K1"); c.count(P_KNOWN); }
							return;
						}
						c.fail("order", "line with capacity %zu reordered to %s, expected %s (levels %s)", cap, hex(o).c_str(), hex(strict).c_str(), lev_str(got).c_str());
					};
					if (which == 14) {
						check(run(vis.size() + 1 + (m & 3), 0x5A), vis.size() + 1);
						u64 h = 7;
						for (size_t i = 0; i < m && i < 9; i++) h = h * 31 + (u64)(got[i] + 1);
						c.state(h + m * 1000003);
					} else {
						for (auto &o : p.ops) if (o.k == OP_CAP) {
							if (a && o.arg(0) >= WIDE) continue;
							size_t cap = o.arg(0) < WIDE && o.arg(1) == 0 ? vis.size() : cap_of(o.arg(0), vis.size() + 4, c);
							u32 *out = run(cap, (int)o.arg(2) * 0x3C);
							for (size_t i = vis.size(); i < cap; i++)
								if (out[i] != (u32)(u8)(o.arg(2) * 0x3C) * 0x01010101u) c.fail("behind", "reordering %zu visible characters changes the output of %zu at %zu", vis.size(), cap, i);
							if (cap < vis.size()) c.count(F_SHORTALLOC);
							if (cap >= vis.size()) check(out, cap);
							else for (size_t i = 0; i < cap; i++)
								if (out[i] != GRAPHEME_INVALID_CODEPOINT) c.fail("short-output", "reordering %zu visible characters into %zu leaves U+%04X at %zu instead of U+FFFD", vis.size(), cap, out[i], i);
							c.state(m * 1000 + cap * 3 + 2);
						}
						check(run(vis.size(), 0xFF), vis.size()); // converged caller
					}
				}
			}
			if (std::vector<u32>(data, data + len) != snapshot) c.fail("data-changed", "paragraph data changed by a line query");
		}
		off += len;
		npar++;
	}
	c.count(S_SIMTIME_US, c.now);
	(void)npar;
	if (which == 15) { // nothing to do
		arena_reset();
		u32 *z = arena_new<u32>(0, 0), *o = arena_new<u32>(2, 0x11);
		int_least8_t *l = arena_new<int_least8_t>(1, 0x11);
		enum grapheme_bidirectional_direction rd = GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL;
		if (libcall(c, "preprocess_paragraph", 0, [&] { return grapheme_bidirectional_preprocess_paragraph(z, 0, D, nullptr, 0, &rd); }) ||
		    libcall(c, "preprocess_paragraph", 0, [&] { return grapheme_bidirectional_preprocess_paragraph(z, 0, D, o, 2, nullptr); }) ||
		    libcall(c, "levels", 0, [&] { return grapheme_bidirectional_get_line_embedding_levels(z, 0, l, 1); }) ||
		    libcall(c, "levels", 0, [&] { return grapheme_bidirectional_get_line_embedding_levels(z, 0, nullptr, 0); }) ||
		    libcall(c, "reorder_line", 0, [&] { return grapheme_bidirectional_reorder_line(z, z, 0, o, 2); }) ||
		    libcall(c, "reorder_line", 0, [&] { return grapheme_bidirectional_reorder_line(z, z, 0, nullptr, 0); }))
			c.fail("empty", "an empty text or line has a length");
		c.count(S_CHECKS);
	}
}
static Plan make_c13(u64, u64 i, Rng &r) { return make_bidi(13, i, r); }
static Plan make_c14(u64, u64 i, Rng &r) { return make_bidi(14, i, r); }
static Plan make_c15(u64, u64 i, Rng &r) { return make_bidi(15, i, r); }
static void exec_c13(const Plan &p, Ctx &c) { exec_bidi(13, p, c); }
static void exec_c14(const Plan &p, Ctx &c) { exec_bidi(14, p, c); }
static void exec_c15(const Plan &p, Ctx &c) { exec_bidi(15, p, c); }

// ------------------------------------------------------------ C18 NUL-terminated mode
static Plan make_c18(u64, u64 index, Rng &r)
{
	Plan p;
	TextGen g(r);
	int rep = r.pct(60);
	Op md(OP_MODE, {rep, (i64)r.below(3)});
	for (int j = 0; j < 5; j++) md.a.push_back(r.pct(60) ? (i64)r.below(400) : 0);
	p.ops.push_back(md);
	TextGen::Table t = (TextGen::Table)r.below(TextGen::NT);
	if (giant_turn(index, 4096) || medium_turn(index, 256)) {
		g.giant(t, p, !giant_turn(index, 4096));
		// blanks and closing marks behind a full stop make the sentence rules
		// look ahead from every one of them: slow, not wrong
		for (auto &o : p.ops)
			if (o.k == OP_TEXT && o.arg(1) > 5100 && (o.t == Cps(1, ' ') || o.t == Cps(1, ')'))) o.a[1] = 5100;
		return p;
	}
	Cps x = g.text(t, 120, !rep);
	p.ops.push_back(Op(OP_TEXT, {}, x));
	if (rep && r.pct(30)) damage(p, r, g);
	if (rep && r.pct(50)) { // lost end: sequence cut right before the terminator
		Op o(OP_RAW, {});
		static const u8 lead[] = {0xC3, 0xE2, 0xF0, 0xF4, 0xDF, 0xEF, 0xF7, 0xC0};
		o.t.push_back(lead[r.below(8)]);
		size_t n = r.below(3);
		while (n--) o.t.push_back(0x80 + (u32)r.below(0x40));
		p.ops.push_back(o);
	}
	gen_net(p, r, x.size(), true);
	return p;
}
static void exec_c18(const Plan &p, Ctx &c)
{
	int rep = (int)(mode(p, 0) & 1);
	Bytes rb; Cps rc;
	std::vector<Packet<u8>> qb; std::vector<Packet<u32>> qc;
	if (rep) qb = network(p, source_bytes(p), c); else qc = network(p, source_cps(p), c);
	for (size_t w = 0; w < (rep ? qb.size() : qc.size()); w++) {
		c.now = rep ? qb[w].at : qc[w].at;
		c.count(S_WAKES); c.count(P_NULMODE);
		if (rep) { for (u8 x : qb[w].d) rb.push_back(x ? x : 1); } else for (u32 x : qc[w].d) rc.push_back(x ? x : 1);
		size_t n = rep ? rb.size() : rc.size();
		// codepoints up to the terminator; a sequence cut by it is ill-formed
		Cps cps; std::vector<size_t> offs;
		Bytes z(rb); z.push_back(0);
		if (rep) { decode_all(z.data(), z.size(), cps, offs); cps.pop_back(); offs.pop_back(); }
		else { cps = rc; for (size_t i = 0; i <= n; i++) offs.push_back(i); }
		if (offs.back() != n) c.fail("harness", "internal: NUL decode");
		size_t m = cps.size();
		arena_reset();
		const u8 *ub = rep ? arena_copy(z.data(), n + 1) : nullptr;
		Cps zc(cps); zc.push_back(0);
		const u32 *cb = arena_copy(zc.data(), m + 1); // NUL-terminated codepoints
		const u32 *xb = arena_copy(cps.data(), m);    // explicit length
		for (int k = 0; k < NKIND; k++)
			for (size_t i = 0; i < m;) {
				size_t want = libcall(c, "next_break", m - i, [&] { return NEXT_CP[k](xb + i, m - i); });
				size_t got = rep ? libcall(c, "next_break_utf8", m - i, [&] { return NEXT_U8[k]((const char *)ub + offs[i], SIZE_MAX); })
				                 : libcall(c, "next_break", m - i, [&] { return NEXT_CP[k](cb + i, SIZE_MAX); });
				c.ev(got); c.count(S_CHECKS);
				if (want == 0 || want > m - i) c.fail("range", "next %s break returned %zu of %zu", kind_name[k], want, m - i);
				size_t wu = offs[i + want] - offs[i];
				if (got != wu) c.fail("break", "next %s break%s: NUL-terminated %zu, explicit length %zu; text: %s", kind_name[k], rep ? " (UTF-8)" : "", got, wu, hex(cps.data() + i, m - i).c_str());
				c.state(state_of((Kind)k, rep, cps, i, want) * 5 + (i + want == m));
				i += want;
			}
		if (rep) { // documented loop: decode until the terminator comes out
			size_t off = 0, i = 0;
			for (;; i++) {
				u32 cp = 0xAAAAAAAA;
				size_t r1 = libcall(c, "decode_utf8", 4, [&] { return grapheme_decode_utf8((const char *)ub + off, SIZE_MAX, &cp); });
				c.ev(r1); c.ev(cp); c.count(S_CHECKS);
				if (i == m) { if (r1 != 1 || cp != 0) c.fail("decode", "decoding the terminator gives U+%04X and %zu bytes", cp, r1); break; }
				if (cp != cps[i] || r1 != offs[i + 1] - offs[i]) c.fail("decode", "decoding in NUL-terminated mode gives U+%04X from %zu bytes, explicit length U+%04X from %zu; bytes: %s", cp, r1, cps[i], offs[i + 1] - offs[i], hex8(ub + off, std::min<size_t>(n + 1 - off, 6)).c_str());
				off += r1;
			}
		}
		for (int k = 0; k < NCASE; k++) {
			size_t need = libcall(c, "to_case", m, [&] { return TO_CP[k](xb, m, nullptr, 0); });
			if (need > 1000000) c.fail("size", "conversion claims %zu", need);
			u32 *e = arena_new<u32>(need + 1, 0x31);
			(void)libcall(c, "to_case", m, [&] { return TO_CP[k](xb, m, e, need + 1); });
			Cps ec(e, e + need);
			size_t l1 = 0, l2 = 0;
			bool v1 = libcall(c, "is_case", m, [&] { return IS_CP[k](xb, m, &l1); }), v2;
			if (l1 > m) c.fail("range", "detection matched %zu of %zu", l1, m);
			if (rep) {
				Bytes eb = encode_all(ec);
				u8 *d = arena_new<u8>(eb.size() + 1, 0x32);
				size_t got = libcall(c, "to_case_utf8", n, [&] { return TO_U8[k]((const char *)ub, SIZE_MAX, (char *)d, eb.size() + 1); });
				c.ev(got);
				if (got != eb.size() || Bytes(d, d + eb.size()) != eb || d[eb.size()]) c.fail("case", "%s in NUL-terminated mode differs from explicit length (%zu vs %zu bytes); bytes: %s", case_name[k], got, eb.size(), hex8(ub, n).c_str());
				v2 = libcall(c, "is_case_utf8", n, [&] { return IS_U8[k]((const char *)ub, SIZE_MAX, &l2); });
			} else {
				u32 *d = arena_new<u32>(need + 1, 0x33);
				size_t got = libcall(c, "to_case", n, [&] { return TO_CP[k](cb, SIZE_MAX, d, need + 1); });
				c.ev(got);
				if (got != need || Cps(d, d + need) != ec || d[need]) c.fail("case", "%s in NUL-terminated mode differs from explicit length; text: %s", case_name[k], hex(cps).c_str());
				v2 = libcall(c, "is_case", n, [&] { return IS_CP[k](cb, SIZE_MAX, &l2); });
			}
			// sinks that are too small or absent
			for (size_t j = 1; j < 6; j++) {
				i64 q = mode(p, j + 1);
				if (q <= 0) continue;
				bool absent = j == 5;
				if (rep) {
					Bytes te = encode_all(cps);
					size_t full = encode_all(ec).size(), cap = (size_t)q % (full + 3);
					const u8 *tb = arena_copy(te.data(), te.size());
					u8 *d1 = arena_new<u8>(cap, 0x41), *d2 = arena_new<u8>(cap, 0x42);
					size_t g1 = libcall(c, "to_case_utf8", n, [&] { return TO_U8[k]((const char *)tb, te.size(), absent ? nullptr : (char *)d1, cap); });
					size_t g2 = libcall(c, "to_case_utf8", n, [&] { return TO_U8[k]((const char *)ub, SIZE_MAX, absent ? nullptr : (char *)d2, cap); });
					c.ev(g2); c.count(S_CHECKS);
					if (g2 < full || g2 >= cap) c.count(P_TRUNCOUT);
					bool ok = g1 == g2;
					for (size_t i = 0; ok && !absent && i < cap; i++) { if (d1[i] != d2[i]) ok = false; else if (!d1[i]) break; }
					if (!ok) c.fail("case-truncated", "%s in NUL-terminated mode with capacity %zu: %zu %s, explicit length: %zu %s; text: %s", case_name[k], cap, g2, hex8(d2, cap).c_str(), g1, hex8(d1, cap).c_str(), hex(cps).c_str());
				} else {
					size_t cap = (size_t)q % (need + 3);
					u32 *d1 = arena_new<u32>(cap, 0x41), *d2 = arena_new<u32>(cap, 0x42);
					size_t g1 = libcall(c, "to_case", n, [&] { return TO_CP[k](xb, m, absent ? nullptr : d1, cap); });
					size_t g2 = libcall(c, "to_case", n, [&] { return TO_CP[k](cb, SIZE_MAX, absent ? nullptr : d2, cap); });
					c.ev(g2); c.count(S_CHECKS);
					if (g2 >= cap) c.count(P_TRUNCOUT);
					bool ok = g1 == g2;
					for (size_t i = 0; ok && !absent && i < cap; i++) { if (d1[i] != d2[i]) ok = false; else if (!d1[i]) break; }
					if (!ok) c.fail("case-truncated", "%s in NUL-terminated mode with capacity %zu: %zu %s, explicit length: %zu %s; text: %s", case_name[k], cap, g2, hex(d2, cap).c_str(), g1, hex(d1, cap).c_str(), hex(cps).c_str());
				}
			}
			c.count(S_CHECKS, 2);
			if (v1 != v2 || l2 != offs[l1]) c.fail("detect", "%s detection in NUL-terminated mode: %d/%zu, explicit %d/%zu; text: %s", case_name[k], v2, l2, v1, offs[l1], hex(cps).c_str());
		}
		if (!rep && m && m < 5000) {
			auto D = (enum grapheme_bidirectional_direction)(std::max<i64>(0, mode(p, 1)) % 3);
			enum grapheme_bidirectional_direction r1, r2;
			for (size_t off = 0, np = 0; off < m && np < 8; np++) {
				size_t rest = m - off;
				size_t a = libcall(c, "preprocess_paragraph", m, [&] { return grapheme_bidirectional_preprocess_paragraph(xb + off, rest, D, nullptr, 0, &r1); });
				size_t b = libcall(c, "preprocess_paragraph", m, [&] { return grapheme_bidirectional_preprocess_paragraph(cb + off, SIZE_MAX, D, nullptr, 0, &r2); });
				c.count(S_CHECKS);
				if (a != b || r1 != r2) c.fail("bidi", "paragraph in NUL-terminated mode: %zu/%d, explicit %zu/%d; text: %s", b, (int)r2, a, (int)r1, hex(cps.data() + off, rest).c_str());
				if (a == 0 || a > rest) c.fail("range", "paragraph of %zu of %zu", a, rest);
				u32 *d1 = arena_new<u32>(a, 0), *d2 = arena_new<u32>(a, 0);
				(void)libcall(c, "preprocess_paragraph", m, [&] { return grapheme_bidirectional_preprocess_paragraph(xb + off, rest, D, d1, a, &r1); });
				(void)libcall(c, "preprocess_paragraph", m, [&] { return grapheme_bidirectional_preprocess_paragraph(cb + off, SIZE_MAX, D, d2, a, &r2); });
				i64 q = mode(p, 2);
				if (q > 0) { // short paragraph buffers report the same length
					size_t cap = (size_t)q % (a + 2);
					u32 *d3 = arena_new<u32>(cap, 0x44);
					size_t b3 = libcall(c, "preprocess_paragraph", m, [&] { return grapheme_bidirectional_preprocess_paragraph(cb + off, SIZE_MAX, D, d3, cap, nullptr); });
					if (b3 != a) c.fail("bidi", "paragraph in NUL-terminated mode with a buffer of %zu reports %zu, explicit length %zu", cap, b3, a);
				}
				int_least8_t *e1 = arena_new<int_least8_t>(a, 0), *e2 = arena_new<int_least8_t>(a, 0);
				(void)libcall(c, "levels", a, [&] { return grapheme_bidirectional_get_line_embedding_levels(d1, a, e1, a); });
				(void)libcall(c, "levels", a, [&] { return grapheme_bidirectional_get_line_embedding_levels(d2, a, e2, a); });
				c.count(S_CHECKS);
				for (size_t i = 0; i < a; i++) c.ev((u64)(e2[i] + 2));
				if (memcmp(e1, e2, a)) c.fail("bidi-levels", "levels in NUL-terminated mode differ; text: %s", hex(cps.data() + off, rest).c_str());
				off += a;
			}
			{
				size_t z = libcall(c, "preprocess_paragraph", 0, [&] { return grapheme_bidirectional_preprocess_paragraph(cb + m, SIZE_MAX, D, nullptr, 0, &r2); });
				if (z) c.fail("bidi", "paragraph at the terminator has length %zu", z);
			}
		}
		if (w + 1 == (rep ? qb.size() : qc.size())) note_cps(cps);
	}
	c.count(S_SIMTIME_US, c.now);
}

extern Plan make_c16(u64, u64, Rng &);
extern void exec_c16(const Plan &, Ctx &);
extern Plan make_c17(u64, u64, Rng &);
extern void exec_c17(const Plan &, Ctx &);
#ifndef GSIM_CONC
Plan make_c16(u64, u64, Rng &) { return Plan(); }
void exec_c16(const Plan &, Ctx &) {}
Plan make_c17(u64, u64, Rng &) { return Plan(); }
void exec_c17(const Plan &, Ctx &) {}
#endif

static const World worlds[] = {
	{"C01", make_c01, exec_c01}, {"C02", make_c02, exec_c02}, {"C03", make_c03, exec_c03}, {"C04", make_c04, exec_c04},
	{"C05", make_c05, exec_c05}, {"C06", make_c06, exec_c06}, {"C07", make_c07, exec_c07}, {"C08", make_c08, exec_c08},
	{"C09", make_c09, exec_c09}, {"C10", make_c10, exec_c10}, {"C11", make_c11, exec_c11}, {"C12", make_c12, exec_c12},
	{"C13", make_c13, exec_c13}, {"C14", make_c14, exec_c14}, {"C15", make_c15, exec_c15}, {"C16", make_c16, exec_c16},
	{"C17", make_c17, exec_c17}, {"C18", make_c18, exec_c18}};
const World *find_world(const std::string &p)
{
	for (auto &w : worlds) if (p == w.prop) return &w;
	return nullptr;
}
