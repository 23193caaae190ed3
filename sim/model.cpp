#include "model.h"
#include "ucd_tables.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <unordered_map>

namespace model {

u8 *T_gcb, *T_wb, *T_sb, *T_lb, *T_bc, *T_case;
uint16_t *T_brk;
static u32 *T_up, *T_lo, *T_ti;          // simple mappings
static uint16_t *T_sp;                   // special casing index+1
static u32 *T_mir;

const char *const kind_name[NKIND] = {"character", "word", "sentence", "line"};
const char *const case_name[NCASE] = {"uppercase", "lowercase", "titlecase"};

template <size_t N> static u8 *fill(const ucd_range (&r)[N], u8 def)
{
	u8 *t = (u8 *)malloc(0x110000);
	memset(t, def, 0x110000);
	for (size_t i = 0; i < N; i++)
		memset(t + r[i].lo, (u8)r[i].v, r[i].hi - r[i].lo + 1);
	return t;
}
template <size_t N> static u32 *fillmap(const ucd_pair (&r)[N])
{
	u32 *t = (u32 *)malloc(0x110000 * 4);
	for (u32 i = 0; i < 0x110000; i++) t[i] = i;
	for (size_t i = 0; i < N; i++) t[r[i].a] = r[i].b;
	return t;
}

void init()
{
	if (T_gcb) return;
	T_gcb = fill(gcb_ranges, GCB_Other);
	T_wb = fill(wb_ranges, WB_Other);
	T_sb = fill(sb_ranges, SB_Other);
	T_lb = fill(lb_ranges, LB_AL);
	T_bc = fill(bc_ranges, BC_L);
	T_case = fill(cased_ranges, 0);
	T_brk = (uint16_t *)calloc(0x110000, 2);
	for (size_t i = 0; i < sizeof bidi_brackets / sizeof *bidi_brackets; i++)
		T_brk[bidi_brackets[i].cp] = (uint16_t)(i + 1);
	T_up = fillmap(simple_upper);
	T_lo = fillmap(simple_lower);
	T_ti = fillmap(simple_title);
	T_mir = fillmap(bidi_mirrors);
	T_sp = (uint16_t *)calloc(0x110000, 2);
	for (size_t i = 0; i < sizeof special_casing / sizeof *special_casing; i++)
		T_sp[special_casing[i].cp] = (uint16_t)(i + 1);
}

u8 wb(u32 c) { return c <= 0x10FFFF ? T_wb[c] : (u8)WB_Other; }
u8 sb(u32 c) { return c <= 0x10FFFF ? T_sb[c] : (u8)SB_Other; }
u8 lb(u32 c) { return c <= 0x10FFFF ? T_lb[c] : (u8)LB_AL; }
u8 bc(u32 c) { return c <= 0x10FFFF ? T_bc[c] : (u8)BC_L; }

// ---------------------------------------------------------------- UTF-8
size_t decode(const u8 *s, size_t len, u32 *cp)
{
	*cp = 0xFFFD;
	if (!s || !len) return 0;
	u8 b = s[0];
	size_t need;
	u32 v;
	if (b < 0x80) { *cp = b; return 1; }
	else if (b >= 0xC0 && b <= 0xDF) { need = 2; v = b & 0x1F; }
	else if (b >= 0xE0 && b <= 0xEF) { need = 3; v = b & 0x0F; }
	else if (b >= 0xF0 && b <= 0xF7) { need = 4; v = b & 0x07; }
	else return 1;
	for (size_t i = 1; i < need; i++) {
		if (i >= len) return need; // truncated: announce the full length
		if ((s[i] & 0xC0) != 0x80) return i;
		v = v << 6 | (s[i] & 0x3F);
	}
	static const u32 low[5] = {0, 0, 0x80, 0x800, 0x10000};
	if (v >= low[need] && v <= 0x10FFFF && !(v >= 0xD800 && v <= 0xDFFF)) *cp = v;
	return need;
}
size_t encode(u32 cp, u8 o[4])
{
	if (cp > 0x10FFFF || (cp >= 0xD800 && cp <= 0xDFFF)) cp = 0xFFFD;
	if (cp < 0x80) { o[0] = (u8)cp; return 1; }
	if (cp < 0x800) { o[0] = 0xC0 | cp >> 6; o[1] = 0x80 | (cp & 63); return 2; }
	if (cp < 0x10000) { o[0] = 0xE0 | cp >> 12; o[1] = 0x80 | (cp >> 6 & 63); o[2] = 0x80 | (cp & 63); return 3; }
	o[0] = 0xF0 | cp >> 18; o[1] = 0x80 | (cp >> 12 & 63); o[2] = 0x80 | (cp >> 6 & 63); o[3] = 0x80 | (cp & 63);
	return 4;
}
void decode_all(const u8 *s, size_t len, Cps &cps, std::vector<size_t> &offs)
{
	cps.clear(); offs.clear();
	size_t off = 0;
	offs.push_back(0);
	while (off < len) {
		u32 cp;
		size_t r = decode(s + off, len - off, &cp);
		if (r > len - off) break;
		cps.push_back(cp);
		off += r;
		offs.push_back(off);
	}
}
Bytes encode_all(const Cps &c)
{
	Bytes b;
	for (u32 x : c) { u8 o[4]; size_t n = encode(x, o); b.insert(b.end(), o, o + n); }
	return b;
}

// ---------------------------------------------------------------- GCB
static bool gcb_break(const u32 *s, size_t i)
{
	u8 a = gcb(s[i - 1]), b = gcb(s[i]);
	auto ctl = [](u8 x) { return x == GCB_Control || x == GCB_CR || x == GCB_LF; };
	if (a == GCB_CR && b == GCB_LF) return false;                     // GB3
	if (ctl(a) || ctl(b)) return true;                                // GB4 GB5
	if (a == GCB_L && (b == GCB_L || b == GCB_V || b == GCB_LV || b == GCB_LVT)) return false; // GB6
	if ((a == GCB_LV || a == GCB_V) && (b == GCB_V || b == GCB_T)) return false; // GB7
	if ((a == GCB_LVT || a == GCB_T) && b == GCB_T) return false;     // GB8
	if (b == GCB_Extend || b == GCB_ZWJ) return false;                // GB9
	if (b == GCB_SpacingMark) return false;                           // GB9a
	if (a == GCB_Prepend) return false;                               // GB9b
	if (a == GCB_ZWJ && b == GCB_ExtPict) {                           // GB11
		size_t j = i - 1;
		while (j > 0 && gcb(s[j - 1]) == GCB_Extend) j--;
		if (j > 0 && gcb(s[j - 1]) == GCB_ExtPict) return false;
	}
	if (a == GCB_Regional_Indicator && b == GCB_Regional_Indicator) { // GB12 GB13
		size_t n = 0;
		for (size_t j = i; j > 0 && gcb(s[j - 1]) == GCB_Regional_Indicator; j--) n++;
		return n % 2 == 0;
	}
	return true;
}

// ---------------------------------------------------------------- WB
static inline u8 wcl(u32 c) { return wb(c) & 0x3F; }
static inline bool w_pict(u32 c) { return wb(c) & 0x40; }
static inline bool w_ign(u8 x) { return x == WB_Extend || x == WB_Format || x == WB_ZWJ; }
static inline bool w_nl(u8 x) { return x == WB_Newline || x == WB_CR || x == WB_LF; }
static const size_t NONE = (size_t)-1;

// index of the base of the unit containing position j (going back over WB4)
static size_t w_base(const u32 *s, size_t j)
{
	while (w_ign(wcl(s[j])) && j > 0 && !w_nl(wcl(s[j - 1]))) j--;
	return j;
}
static size_t w_prev(const u32 *s, size_t j) { return j == 0 ? NONE : w_base(s, j - 1); }
static size_t w_next(const u32 *s, size_t n, size_t j)
{
	for (j++; j < n; j++) if (!w_ign(wcl(s[j]))) return j;
	return NONE;
}
static bool wb_break(const u32 *s, size_t n, size_t i)
{
	u8 a = wcl(s[i - 1]), b = wcl(s[i]);
	if (a == WB_CR && b == WB_LF) return false;
	if (w_nl(a) || w_nl(b)) return true;
	if (a == WB_ZWJ && w_pict(s[i])) return false;                     // WB3c
	if (a == WB_WSegSpace && b == WB_WSegSpace) return false;          // WB3d
	if (w_ign(b)) return false;                                        // WB4
	size_t pj = w_prev(s, i);
	u8 p = wcl(s[pj]);
	size_t ppj = w_prev(s, pj);
	u8 pp = ppj == NONE ? (u8)WB_Other : wcl(s[ppj]);
	size_t nj = w_next(s, n, i);
	u8 nx = nj == NONE ? (u8)WB_Other : wcl(s[nj]);
	auto AHL = [](u8 x) { return x == WB_ALetter || x == WB_Hebrew_Letter; };
	auto MNLQ = [](u8 x) { return x == WB_MidNumLet || x == WB_Single_Quote; };
	if (AHL(p) && AHL(b)) return false;                                // WB5
	if (AHL(p) && (b == WB_MidLetter || MNLQ(b)) && AHL(nx)) return false; // WB6
	if (AHL(pp) && (p == WB_MidLetter || MNLQ(p)) && AHL(b)) return false; // WB7
	if (p == WB_Hebrew_Letter && b == WB_Single_Quote) return false;   // WB7a
	if (p == WB_Hebrew_Letter && b == WB_Double_Quote && nx == WB_Hebrew_Letter) return false; // WB7b
	if (pp == WB_Hebrew_Letter && p == WB_Double_Quote && b == WB_Hebrew_Letter) return false; // WB7c
	if (p == WB_Numeric && b == WB_Numeric) return false;              // WB8
	if (AHL(p) && b == WB_Numeric) return false;                       // WB9
	if (p == WB_Numeric && AHL(b)) return false;                       // WB10
	if (pp == WB_Numeric && (p == WB_MidNum || MNLQ(p)) && b == WB_Numeric) return false; // WB11
	if (p == WB_Numeric && (b == WB_MidNum || MNLQ(b)) && nx == WB_Numeric) return false; // WB12
	if (p == WB_Katakana && b == WB_Katakana) return false;            // WB13
	if ((AHL(p) || p == WB_Numeric || p == WB_Katakana || p == WB_ExtendNumLet) && b == WB_ExtendNumLet) return false; // WB13a
	if (p == WB_ExtendNumLet && (AHL(b) || b == WB_Numeric || b == WB_Katakana)) return false; // WB13b
	if (p == WB_Regional_Indicator && b == WB_Regional_Indicator) {    // WB15 WB16
		size_t cnt = 0;
		for (size_t j = pj; j != NONE && wcl(s[j]) == WB_Regional_Indicator; j = w_prev(s, j)) cnt++;
		return cnt % 2 == 0;
	}
	return true;
}

// ---------------------------------------------------------------- SB
static inline bool s_ign(u8 x) { return x == SB_Extend || x == SB_Format; }
static inline bool s_para(u8 x) { return x == SB_Sep || x == SB_CR || x == SB_LF; }
static inline bool s_sat(u8 x) { return x == SB_ATerm || x == SB_STerm; }
static size_t s_base(const u32 *s, size_t j)
{
	while (s_ign(sb(s[j])) && j > 0 && !s_para(sb(s[j - 1]))) j--;
	return j;
}
static size_t s_prev(const u32 *s, size_t j) { return j == 0 ? NONE : s_base(s, j - 1); }
static bool sb_break(const u32 *s, size_t n, size_t i)
{
	u8 a = sb(s[i - 1]), b = sb(s[i]);
	if (a == SB_CR && b == SB_LF) return false;                        // SB3
	if (s_para(a)) return true;                                        // SB4
	if (s_ign(b)) return false;                                        // SB5
	size_t pj = s_prev(s, i);
	u8 p = sb(s[pj]);
	if (p == SB_ATerm && b == SB_Numeric) return false;                // SB6
	if (p == SB_ATerm && b == SB_Upper) {                              // SB7
		size_t q = s_prev(s, pj);
		if (q != NONE && (sb(s[q]) == SB_Upper || sb(s[q]) == SB_Lower)) return false;
	}
	// left context: SATerm Close* Sp*
	size_t j = pj;
	bool sp = false, close = false;
	while (j != NONE && sb(s[j]) == SB_Sp) { sp = true; j = s_prev(s, j); }
	while (j != NONE && sb(s[j]) == SB_Close) { close = true; j = s_prev(s, j); }
	(void)close;
	bool sat = j != NONE && s_sat(sb(s[j]));
	bool at = sat && sb(s[j]) == SB_ATerm;
	if (at) {                                                          // SB8
		for (size_t k = i; k < n; k++) {
			u8 x = sb(s[k]);
			if (s_ign(x)) continue;
			if (x == SB_Lower) return false;
			if (x == SB_OLetter || x == SB_Upper || s_para(x) || s_sat(x)) break;
		}
	}
	if (sat && (b == SB_SContinue || s_sat(b))) return false;          // SB8a
	if (sat && !sp && (b == SB_Close || b == SB_Sp || s_para(b))) return false; // SB9
	if (sat && (b == SB_Sp || s_para(b))) return false;                // SB10
	if (sat) return true;                                              // SB11 (ParaSep? is SB4)
	return false;                                                      // SB998
}

// ---------------------------------------------------------------- LB
struct LineScan {
	const u32 *s; size_t n;
	std::vector<u8> cls;    // per position resolved class by LB9/LB10
	std::vector<u8> eaw, cnp, att; // att: attached to previous (LB9)
	LineScan(const u32 *s_, size_t n_) : s(s_), n(n_) {}
	void extend(size_t upto)
	{
		for (size_t i = cls.size(); i <= upto && i < n; i++) {
			u8 v = lb(s[i]), c = v & 0x3F;
			u8 e = (v & 0x40) ? 1 : 0, p = (v & 0x80) ? 1 : 0, at = 0;
			if (c == LB_CM || c == LB_ZWJ) {
				u8 pc = i ? cls[i - 1] : (u8)LB_SP;
				if (i && pc != LB_BK && pc != LB_CR && pc != LB_LF && pc != LB_NL && pc != LB_SP && pc != LB_ZW) {
					c = pc; e = eaw[i - 1]; p = cnp[i - 1]; at = 1;
				} else { c = LB_AL; e = 0; p = 0; }
			}
			cls.push_back(c); eaw.push_back(e); cnp.push_back(p); att.push_back(at);
		}
	}
	size_t base(size_t j) { while (att[j]) j--; return j; }
	size_t prev(size_t j) { j = base(j); return j == 0 ? NONE : base(j - 1); }
	size_t next(size_t j) { for (j++; j < n; j++) { extend(j); if (!att[j]) return j; } return NONE; }

	bool brk(size_t i)
	{
		extend(i);
		u8 ra = lb(s[i - 1]) & 0x3F;
		u8 A = cls[i - 1], B = cls[i];
		auto in = [](u8 x, std::initializer_list<int> l) { for (int v : l) if (x == v) return true; return false; };
		if (A == LB_BK) return true;                                       // LB4
		if (A == LB_CR && B == LB_LF) return false;                        // LB5
		if (A == LB_CR || A == LB_LF || A == LB_NL) return true;
		if (in(B, {LB_BK, LB_CR, LB_LF, LB_NL})) return false;             // LB6
		if (B == LB_SP || B == LB_ZW) return false;                        // LB7
		size_t l = base(i - 1);          // last unit
		size_t k = l;                    // last unit before SP*
		while (k != NONE && cls[k] == LB_SP) k = prev(k);
		u8 K = k == NONE ? (u8)255 : cls[k];
		if (K == LB_ZW) return true;                                       // LB8
		if (ra == LB_ZWJ) return false;                                    // LB8a
		if (att[i]) return false;                                          // LB9
		if (A == LB_WJ || B == LB_WJ) return false;                        // LB11
		if (A == LB_GL) return false;                                      // LB12
		if (!in(A, {LB_SP, LB_BA, LB_HY}) && B == LB_GL) return false;     // LB12a
		if (B == LB_EX) return false;                                      // LB13 (tailored)
		if (A != LB_NU && in(B, {LB_CL, LB_CP, LB_IS, LB_SY})) return false;
		if (K == LB_OP) return false;                                      // LB14
		if (K == LB_QU && B == LB_OP) return false;                        // LB15
		if ((K == LB_CL || K == LB_CP) && B == LB_NS) return false;        // LB16
		if (K == LB_B2 && B == LB_B2) return false;                        // LB17
		if (A == LB_SP) return true;                                       // LB18
		if (A == LB_QU || B == LB_QU) return false;                        // LB19
		if (A == LB_CB || B == LB_CB) return true;                         // LB20
		if (in(B, {LB_BA, LB_HY, LB_NS}) || A == LB_BB) return false;      // LB21
		if (A == LB_HY || A == LB_BA) {                                    // LB21a
			size_t q = prev(l);
			if (q != NONE && cls[q] == LB_HL) return false;
		}
		if (A == LB_SY && B == LB_HL) return false;                        // LB21b
		if (B == LB_IN) return false;                                      // LB22
		auto alhl = [](u8 x) { return x == LB_AL || x == LB_HL; };
		if (alhl(A) && B == LB_NU) return false;                           // LB23
		if (A == LB_NU && alhl(B)) return false;
		if (A == LB_PR && in(B, {LB_ID, LB_EB, LB_EM})) return false;      // LB23a
		if (in(A, {LB_ID, LB_EB, LB_EM}) && B == LB_PO) return false;
		if ((A == LB_PR || A == LB_PO) && alhl(B)) return false;           // LB24
		if (alhl(A) && (B == LB_PR || B == LB_PO)) return false;
		// LB25, tailored with example 7
		if (A == LB_PR || A == LB_PO) {
			if (B == LB_NU) return false;
			if (B == LB_OP || B == LB_HY) {
				size_t q = next(i);
				if (q != NONE && cls[q] == LB_NU) return false;
			}
		}
		if ((A == LB_OP || A == LB_HY) && B == LB_NU) return false;
		{
			size_t q = l; bool cl = false;
			if (cls[q] == LB_CL || cls[q] == LB_CP) { cl = true; q = prev(q); }
			// q must end NU (NU|SY|IS)*
			bool num = false;
			while (q != NONE && in(cls[q], {LB_NU, LB_SY, LB_IS})) {
				if (cls[q] == LB_NU) { num = true; break; }
				q = prev(q);
			}
			if (num && !cl && in(B, {LB_NU, LB_SY, LB_IS, LB_CL, LB_CP})) return false;
			if (num && (B == LB_PO || B == LB_PR)) return false;
		}
		if (A == LB_JL && in(B, {LB_JL, LB_JV, LB_H2, LB_H3})) return false; // LB26
		if ((A == LB_JV || A == LB_H2) && (B == LB_JV || B == LB_JT)) return false;
		if ((A == LB_JT || A == LB_H3) && B == LB_JT) return false;
		auto hang = [&](u8 x) { return in(x, {LB_JL, LB_JV, LB_JT, LB_H2, LB_H3}); };
		if (hang(A) && B == LB_PO) return false;                           // LB27
		if (A == LB_PR && hang(B)) return false;
		if (alhl(A) && alhl(B)) return false;                              // LB28
		if (A == LB_IS && alhl(B)) return false;                           // LB29
		if ((alhl(A) || A == LB_NU) && B == LB_OP && !eaw[i]) return false; // LB30
		if (A == LB_CP && !eaw[i - 1] && (alhl(B) || B == LB_NU)) return false;
		if (A == LB_RI && B == LB_RI) {                                    // LB30a
			size_t cnt = 0;
			for (size_t q = l; q != NONE && cls[q] == LB_RI; q = prev(q)) cnt++;
			return cnt % 2 == 0;
		}
		if (A == LB_EB && B == LB_EM) return false;                        // LB30b
		if (cnp[i - 1] && B == LB_EM) return false;
		return true;
	}
};

size_t next_break(Kind k, const u32 *s, size_t n)
{
	if (n == 0) return 0;
	if (k == LINE) {
		LineScan L(s, n);
		for (size_t i = 1; i < n; i++) if (L.brk(i)) return i;
		return n;
	}
	for (size_t i = 1; i < n; i++) {
		bool b = k == CHAR ? gcb_break(s, i) : k == WORD ? wb_break(s, n, i) : sb_break(s, n, i);
		if (b) return i;
	}
	return n;
}
std::vector<size_t> all_breaks(Kind k, const u32 *s, size_t n)
{
	std::vector<size_t> r;
	if (!n) return r;
	LineScan L(s, n);
	for (size_t i = 1; i < n; i++) {
		bool b = k == CHAR ? gcb_break(s, i) : k == WORD ? wb_break(s, n, i) : k == SENT ? sb_break(s, n, i) : L.brk(i);
		if (b) r.push_back(i);
	}
	r.push_back(n);
	return r;
}

// ---------------------------------------------------------------- case
bool has_mapping(u32 c) { return c <= 0x10FFFF && (T_sp[c] || T_up[c] != c || T_lo[c] != c || T_ti[c] != c); }
bool is_cased(u32 c) { return c <= 0x10FFFF && (T_case[c] & 1); }
bool is_ignorable(u32 c) { return c <= 0x10FFFF && (T_case[c] & 2); }

static void map_cp(Case c, u32 cp, Cps &o)
{
	if (cp > 0x10FFFF) { o.push_back(cp); return; }
	if (T_sp[cp]) {
		const ucd_special &s = special_casing[T_sp[cp] - 1];
		const u32 *m = c == UPPER ? s.upper : c == LOWER ? s.lower : s.title;
		for (int i = 0; i < 4 && m[i]; i++) o.push_back(m[i]);
		return;
	}
	o.push_back(c == UPPER ? T_up[cp] : c == LOWER ? T_lo[cp] : T_ti[cp]);
}
// Table 3-17: before \p{cased}\p{case-ignorable}*, not after
// \p{case-ignorable}*\p{cased}; a codepoint may be both
static bool final_sigma(const u32 *s, size_t lo, size_t hi, size_t i)
{
	size_t j = i;
	while (j > lo && is_ignorable(s[j - 1]) && !is_cased(s[j - 1])) j--;
	if (j == lo || !is_cased(s[j - 1])) return false;
	for (j = i + 1; j < hi && is_ignorable(s[j]) && !is_cased(s[j]); j++);
	return j == hi || !is_cased(s[j]);
}
static void emit_lower(const u32 *s, size_t i, bool fs, CaseOut &r)
{
	if (s[i] == 0x3A3) {
		r.out.push_back(fs ? 0x3C2 : 0x3C3);
	} else map_cp(LOWER, s[i], r.out);
	while (r.from.size() < r.out.size()) r.from.push_back(i);
}
CaseOut convert(Case c, const u32 *s, size_t n)
{
	CaseOut r;
	if (c == UPPER) {
		for (size_t i = 0; i < n; i++) {
			map_cp(UPPER, s[i], r.out);
			while (r.from.size() < r.out.size()) r.from.push_back(i);
		}
		return r;
	}
	if (c == LOWER) {
		for (size_t i = 0; i < n; i++)
			emit_lower(s, i, s[i] == 0x3A3 && final_sigma(s, 0, n, i), r);
		return r;
	}
	size_t off = 0;
	while (off < n) {
		size_t e = off + next_break(WORD, s + off, n - off);
		bool seen = false;
		for (size_t i = off; i < e; i++) {
			if (!seen) {
				if (is_cased(s[i])) { seen = true; map_cp(TITLE, s[i], r.out); }
				else r.out.push_back(s[i]);
				while (r.from.size() < r.out.size()) r.from.push_back(i);
			} else {
				// each word is converted as a text of its own
				emit_lower(s, i, s[i] == 0x3A3 && final_sigma(s, off, e, i), r);
			}
		}
		off = e;
	}
	return r;
}

// ---------------------------------------------------------------- bidi
u32 mirror(u32 c) { return c <= 0x10FFFF ? T_mir[c] : c; }
static int g_ambig;
int bidi_variants() { return g_ambig; }

static inline bool b_init(u8 t) { return t == BC_LRI || t == BC_RLI || t == BC_FSI; }

// P2/P3 over [a,b) of original types; stop_pdi: stop at matching PDI
static int p23(const std::vector<u8> &t, size_t a, size_t b, bool stop_pdi)
{
	size_t depth = 0;
	for (size_t i = a; i < b; i++) {
		if (b_init(t[i])) depth++;
		else if (t[i] == BC_PDI) { if (depth) depth--; else if (stop_pdi) return -1; }
		else if (depth == 0) {
			if (t[i] == BC_L) return 0;
			if (t[i] == BC_R || t[i] == BC_AL) return 1;
		}
	}
	return -1;
}

Para bidi_paragraph(const u32 *s, size_t n, int ov, int variant)
{
	Para P;
	g_ambig = 0;
	size_t len = 0;
	while (len < n) { len++; if (bc(s[len - 1]) == BC_B) break; }
	P.len = len;
	P.orig.resize(len);
	for (size_t i = 0; i < len; i++) P.orig[i] = bc(s[i]);
	const std::vector<u8> &O = P.orig;
	if (ov == 1) P.level = 0;
	else if (ov == 2) P.level = 1;
	else { int l = p23(O, 0, len, false); P.level = l == 1 ? 1 : 0; }
	std::vector<int> lev(len, 0);
	std::vector<u8> t(O.begin(), O.end());
	// matching PDIs (BD9)
	std::vector<size_t> mpdi(len, NONE);
	{
		std::vector<size_t> st;
		for (size_t i = 0; i < len; i++) {
			if (b_init(O[i])) st.push_back(i);
			else if (O[i] == BC_PDI && !st.empty()) { mpdi[st.back()] = i; st.pop_back(); }
		}
	}
	// X1-X8
	struct E { int lev; int ov; bool iso; };
	std::vector<E> st;
	st.push_back({P.level, -1, false});
	size_t oi = 0, oe = 0, vi = 0;
	for (size_t i = 0; i < len; i++) {
		u8 c = O[i];
		auto nextlev = [&](bool rtl) { int l = st.back().lev + 1; if ((l % 2 == 1) != rtl) l++; return l; };
		auto apply = [&]() { lev[i] = st.back().lev; if (st.back().ov >= 0) t[i] = (u8)st.back().ov; };
		switch (c) {
		case BC_RLE: case BC_LRE: case BC_RLO: case BC_LRO: {
			bool rtl = c == BC_RLE || c == BC_RLO;
			int l = nextlev(rtl);
			if (l <= 125 && !oi && !oe) st.push_back({l, c == BC_RLO ? (int)BC_R : c == BC_LRO ? (int)BC_L : -1, false});
			else if (!oi) oe++;
			lev[i] = -1;
			break;
		}
		case BC_RLI: case BC_LRI: case BC_FSI: {
			bool rtl = c == BC_RLI;
			if (c == BC_FSI) rtl = p23(O, i + 1, mpdi[i] == NONE ? len : mpdi[i], true) == 1;
			apply();
			int l = nextlev(rtl);
			if (l <= 125 && !oi && !oe) { vi++; st.push_back({l, -1, true}); }
			else oi++;
			break;
		}
		case BC_PDI:
			if (oi) oi--;
			else if (vi) {
				oe = 0;
				while (!st.back().iso) st.pop_back();
				st.pop_back();
				vi--;
			}
			apply();
			break;
		case BC_PDF:
			if (oi) {}
			else if (oe) oe--;
			else if (!st.back().iso && st.size() >= 2) st.pop_back();
			lev[i] = -1;
			break;
		case BC_B: lev[i] = P.level; break;
		case BC_BN: lev[i] = -1; break;
		default: apply();
		}
	}
	std::vector<int> xlev(lev);
	// X9: indices kept
	std::vector<size_t> keep;
	for (size_t i = 0; i < len; i++) if (lev[i] != -1) keep.push_back(i);
	size_t m = keep.size();
	std::vector<size_t> posk(len, NONE);
	for (size_t k = 0; k < m; k++) posk[keep[k]] = k;
	// BD13 isolating run sequences
	std::vector<u8> used(m, 0);
	std::vector<u8> pdi_matched(len, 0);
	for (size_t i = 0; i < len; i++) if (mpdi[i] != NONE) pdi_matched[mpdi[i]] = 1;
	std::vector<int> rlev(lev);
	for (size_t k0 = 0; k0 < m; k0++) {
		if (used[k0]) continue;
		// k0 starts a level run; as we go in order it starts a sequence
		std::vector<size_t> q; // positions in text
		int L = lev[keep[k0]];
		size_t k = k0;
		size_t eos_next = NONE; // following char index or NONE
		bool eos_par = false;
		for (;;) {
			// take the level run from k
			while (k < m && lev[keep[k]] == L && !used[k]) {
				used[k] = 1; q.push_back(keep[k]); k++;
				if (k < m && lev[keep[k]] != L) break;
			}
			size_t last = q.back();
			size_t kl = posk[last];
			if (b_init(O[last])) {
				if (mpdi[last] != NONE && posk[mpdi[last]] != NONE && lev[mpdi[last]] == L && !used[posk[mpdi[last]]]) { k = posk[mpdi[last]]; continue; }
				eos_par = true;
				break;
			}
			if (kl + 1 < m) eos_next = keep[kl + 1]; else eos_par = true;
			break;
		}
		int before = P.level;
		if (k0 > 0) before = lev[keep[k0 - 1]];
		int after = eos_par ? P.level : lev[eos_next];
		u8 sos = std::max(before, L) % 2 ? BC_R : BC_L, eos = std::max(after, L) % 2 ? BC_R : BC_L;
		size_t z = q.size();
		std::vector<u8> y(z), pre(z);
		for (size_t i = 0; i < z; i++) pre[i] = y[i] = t[q[i]];
		// W1
		for (size_t i = 0; i < z; i++) if (y[i] == BC_NSM) {
			if (i == 0) y[i] = sos;
			else {
				bool byty = b_init(y[i - 1]) || y[i - 1] == BC_PDI;
				bool bych = b_init(O[q[i - 1]]) || O[q[i - 1]] == BC_PDI;
				if (byty != bych) g_ambig |= 1;
				y[i] = ((variant & 1) ? byty : bych) ? (u8)BC_ON : y[i - 1];
			}
		}
		// W2
		{ u8 ls = sos; for (size_t i = 0; i < z; i++) { if (y[i] == BC_R || y[i] == BC_L || y[i] == BC_AL) ls = y[i]; else if (y[i] == BC_EN && ls == BC_AL) y[i] = BC_AN; } }
		// W3
		for (auto &x : y) if (x == BC_AL) x = BC_R;
		// W4
		for (size_t i = 1; i + 1 < z; i++) {
			if (y[i] == BC_ES && y[i - 1] == BC_EN && y[i + 1] == BC_EN) y[i] = BC_EN;
			else if (y[i] == BC_CS && y[i - 1] == BC_EN && y[i + 1] == BC_EN) y[i] = BC_EN;
			else if (y[i] == BC_CS && y[i - 1] == BC_AN && y[i + 1] == BC_AN) y[i] = BC_AN;
		}
		// W5
		for (size_t i = 0; i < z;) {
			if (y[i] != BC_ET) { i++; continue; }
			size_t j = i; while (j < z && y[j] == BC_ET) j++;
			if ((i > 0 && y[i - 1] == BC_EN) || (j < z && y[j] == BC_EN)) for (size_t w = i; w < j; w++) y[w] = BC_EN;
			i = j;
		}
		// W6
		for (auto &x : y) if (x == BC_ES || x == BC_ET || x == BC_CS) x = BC_ON;
		// W7
		{ u8 ls = sos; for (size_t i = 0; i < z; i++) { if (y[i] == BC_R || y[i] == BC_L) ls = y[i]; else if (y[i] == BC_EN && ls == BC_L) y[i] = BC_L; } }
		// N0
		{
			std::vector<std::pair<size_t, size_t>> pairs;
			struct S { u32 id; size_t pos; };
			std::vector<S> stk;
			for (size_t i = 0; i < z; i++) {
				if (y[i] != BC_ON) continue;
				u32 c = s[q[i]];
				if (c > 0x10FFFF || !T_brk[c]) continue;
				const ucd_bracket &b = bidi_brackets[T_brk[c] - 1];
				if (b.type == 'o') {
					if (stk.size() == 63) break;
					stk.push_back({b.id, i});
				} else {
					for (size_t w = stk.size(); w > 0; w--) if (stk[w - 1].id == b.id) {
						pairs.push_back({stk[w - 1].pos, i});
						stk.resize(w - 1);
						break;
					}
				}
			}
			std::sort(pairs.begin(), pairs.end());
			u8 e = L % 2 ? BC_R : BC_L, o = L % 2 ? BC_L : BC_R;
			auto strong = [](u8 x) -> int { if (x == BC_L) return BC_L; if (x == BC_R || x == BC_EN || x == BC_AN) return BC_R; return -1; };
			for (auto &pr : pairs) {
				bool fe = false, fo = false;
				for (size_t i = pr.first + 1; i < pr.second; i++) { int x = strong(y[i]); if (x == e) fe = true; else if (x == o) fo = true; }
				u8 nt;
				if (fe) nt = e;
				else if (fo) {
					int ctx = sos;
					for (size_t i = pr.first; i > 0; i--) { int x = strong(y[i - 1]); if (x >= 0) { ctx = x; break; } }
					nt = ctx == o ? o : e;
				} else continue;
				y[pr.first] = y[pr.second] = nt;
				// "original type NSM": before W1 (rule text) or before
				// overrides too (reference implementation)
				for (size_t w : {pr.first, pr.second})
					for (size_t i = w + 1; i < z && O[q[i]] == BC_NSM; i++) {
						if (pre[i] != BC_NSM && y[i] != nt) g_ambig |= 2;
						if (pre[i] == BC_NSM || (variant & 2)) y[i] = nt; else break;
					}
			}
		}
		// N1 N2
		auto ni = [](u8 x) { return x == BC_B || x == BC_S || x == BC_WS || x == BC_ON || b_init(x) || x == BC_PDI; };
		for (size_t i = 0; i < z;) {
			if (!ni(y[i])) { i++; continue; }
			size_t j = i; while (j < z && ni(y[j])) j++;
			u8 a = i ? y[i - 1] : sos, b = j < z ? y[j] : eos;
			if (a == BC_EN || a == BC_AN) a = BC_R;
			if (b == BC_EN || b == BC_AN) b = BC_R;
			u8 r = a == b ? a : (u8)(L % 2 ? BC_R : BC_L);
			for (size_t w = i; w < j; w++) y[w] = r;
			i = j;
		}
		// I1 I2
		for (size_t i = 0; i < z; i++) {
			int l = L;
			if (L % 2 == 0) { if (y[i] == BC_R) l += 1; else if (y[i] == BC_AN || y[i] == BC_EN) l += 2; }
			else if (y[i] == BC_L || y[i] == BC_EN || y[i] == BC_AN) l += 1;
			rlev[q[i]] = l;
		}
	}
	// L1 parts 1-3
	auto wsi = [&](size_t i) { return O[i] == BC_WS || b_init(O[i]) || O[i] == BC_PDI; };
	for (size_t i = 0; i < len; i++) {
		if (rlev[i] == -1) continue;
		if (O[i] == BC_S || O[i] == BC_B) {
			rlev[i] = P.level;
			for (size_t j = i; j > 0; j--) {
				if (rlev[j - 1] == -1) continue;
				if (!wsi(j - 1)) break;
				rlev[j - 1] = P.level;
			}
		}
	}
	P.levels = rlev;
	return P;
}

std::vector<int> bidi_line(const Para &p, size_t a, size_t b)
{
	std::vector<int> r(p.levels.begin() + a, p.levels.begin() + b);
	for (size_t j = b; j > a; j--) {
		size_t i = j - 1;
		if (r[i - a] == -1) continue;
		u8 o = p.orig[i];
		if (!(o == BC_WS || b_init(o) || o == BC_PDI)) break;
		r[i - a] = p.level;
	}
	return r;
}

std::vector<size_t> bidi_reorder(const std::vector<int> &lv)
{
	std::vector<size_t> v;
	int mx = 0, mo = 1000;
	for (size_t i = 0; i < lv.size(); i++) if (lv[i] != -1) {
		v.push_back(i);
		mx = std::max(mx, lv[i]);
		if (lv[i] % 2) mo = std::min(mo, lv[i]);
	}
	for (int l = mx; l >= mo; l--)
		for (size_t i = 0; i < v.size();) {
			if (lv[v[i]] < l) { i++; continue; }
			size_t j = i; while (j < v.size() && lv[v[j]] >= l) j++;
			std::reverse(v.begin() + i, v.begin() + j);
			i = j;
		}
	return v;
}

} // namespace model
