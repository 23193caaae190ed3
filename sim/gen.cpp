// Table generator world (C19, C20, C21, C22): each generator of /repo/gen runs
// as a complete process image on a simulated disk, heap and output device.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
int genmain_character(int, char **);
int genmain_word(int, char **);
int genmain_sentence(int, char **);
int genmain_line(int, char **);
int genmain_case(int, char **);
int genmain_bidirectional(int, char **);
int genmain_character_test(int, char **);
int genmain_word_test(int, char **);
int genmain_sentence_test(int, char **);
int genmain_line_test(int, char **);
int genmain_bidirectional_test(int, char **);
}
// property tables, then conformance test tables
enum Gen { G_CHAR, G_WORD, G_SENT, G_LINE, G_CASE, G_BIDI, NG, T_CHAR = NG, T_WORD, T_SENT, T_LINE, T_BIDI, NGA };
static const char *const gen_name[NGA] = {"character", "word", "sentence", "line", "case", "bidirectional", "character-test", "word-test", "sentence-test", "line-test", "bidirectional-test"};
static int (*const gen_main[NGA])(int, char **) = {genmain_character, genmain_word, genmain_sentence, genmain_line, genmain_case, genmain_bidirectional, genmain_character_test, genmain_word_test, genmain_sentence_test, genmain_line_test, genmain_bidirectional_test};

enum File { F_GCB, F_EMOJI, F_WB, F_SB, F_LB, F_EAW, F_DCP, F_UD, F_SC, F_BB, F_BC, F_BM, F_TC, F_TW, F_TS, F_TL, F_BT, F_BCT, NF };
static const char *const file_name[NF] = {"GraphemeBreakProperty.txt", "emoji-data.txt", "WordBreakProperty.txt", "SentenceBreakProperty.txt", "LineBreak.txt", "EastAsianWidth.txt", "DerivedCoreProperties.txt", "UnicodeData.txt", "SpecialCasing.txt", "BidiBrackets.txt", "DerivedBidiClass.txt", "BidiMirroring.txt", "GraphemeBreakTest.txt", "WordBreakTest.txt", "SentenceBreakTest.txt", "LineBreakTest.txt", "BidiTest.txt", "BidiCharacterTest.txt"};
static const std::vector<int> gen_files[NGA] = {{F_GCB, F_EMOJI}, {F_WB, F_EMOJI}, {F_SB}, {F_LB, F_EMOJI, F_EAW}, {F_DCP, F_UD, F_SC}, {F_BB, F_BC, F_BM, F_UD}, {F_TC}, {F_TW}, {F_TS}, {F_TL}, {F_BT, F_BCT}};

// property value names of the UCD files that carry one
static const std::vector<std::string> names[NF] = {
	{"Prepend", "CR", "LF", "Control", "Extend", "Regional_Indicator", "SpacingMark", "L", "V", "T", "LV", "LVT", "ZWJ"},
	{"Extended_Pictographic", "Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Modifier_Base", "Emoji_Component"},
	{"ALetter", "Double_Quote", "Single_Quote", "Hebrew_Letter", "CR", "LF", "Newline", "Extend", "Regional_Indicator", "Format", "Katakana", "MidLetter", "MidNum", "MidNumLet", "Numeric", "ExtendNumLet", "ZWJ", "WSegSpace"},
	{"CR", "LF", "Extend", "Sep", "Format", "Sp", "Lower", "Upper", "OLetter", "Numeric", "ATerm", "STerm", "Close", "SContinue"},
	{"AL", "AI", "B2", "BA", "BB", "BK", "CB", "CJ", "CL", "CM", "CP", "CR", "EB", "EM", "EX", "GL", "H2", "H3", "HL", "HY", "ID", "IN", "IS", "JL", "JT", "JV", "LF", "NL", "NS", "NU", "OP", "PO", "PR", "QU", "RI", "SA", "SG", "SP", "SY", "WJ", "XX", "ZW", "ZWJ"},
	{"H", "W", "F", "A", "N", "Na"},
	{"Cased", "Case_Ignorable", "Math", "Alphabetic", "Lowercase", "Uppercase", "ID_Start", "Grapheme_Extend", "Grapheme_Base", "Changes_When_Casefolded"},
	{}, {}, {},
	{"L", "AL", "AN", "B", "BN", "CS", "EN", "ES", "ET", "FSI", "LRE", "LRI", "LRO", "NSM", "ON", "PDF", "PDI", "R", "RLE", "RLI", "RLO", "S", "WS"},
	{}, {}, {}, {}, {}, {}, {}};
static const std::vector<std::string> gcs = {"Lo", "Mn", "Mc", "Cn", "Cf", "Po", "So", "Zs", "Nd", "Lu", "Ll", "Sm", "Co", "Cs"};
enum { GC_MN = 1, GC_MC = 2, GC_CN = 3 };
static int idx_of(const std::vector<std::string> &v, const std::string &s)
{
	for (size_t i = 0; i < v.size(); i++) if (v[i] == s) return (int)i;
	return -1;
}

// ---------------------------------------------------------------- facts
// What the character database says, independent of how it is written down.
struct Fact {
	int f = 0;
	u32 lo = 0, hi = 0;
	int cls = -1, gc = 0;
	i64 dec = -1, up = -1, low = -1, ti = -1; // UnicodeData
	int tag = 0;                              // decomposition: 1 = compatibility, 2 = longer than one
	Cps l[3];                                 // SpecialCasing: lower, title, upper; tests: codepoints, lengths or levels, order
	std::string text;                         // tests: comment
	int cond = 0;
	u32 pair = 0;                             // BidiBrackets, BidiMirroring
	char type = 'o';
};
typedef std::vector<Fact> Facts;
static const u32 NCP = 0x110000;
static const std::vector<std::string> blocks_of_bidi_default = {"Left_To_Right", "Right_To_Left", "Arabic_Letter", "European_Terminator"};

static std::string g_data;
static const std::string &real_bytes(int f)
{
	static std::string b[NF];
	static bool have[NF];
	if (!have[f]) {
		if (g_data.empty()) { const char *e = getenv("GSIM_DATA"); g_data = e ? e : "/repo/data"; }
		std::ifstream i(g_data + "/" + file_name[f], std::ios::binary);
		if (!i) { fprintf(stderr, "gsim: cannot read %s/%s\n", g_data.c_str(), file_name[f]); exit(3); }
		std::stringstream s;
		s << i.rdbuf();
		b[f] = s.str();
		have[f] = true;
	}
	return b[f];
}
static std::string trim(const std::string &s)
{
	size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
	return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
static Cps hexlist(const std::string &s)
{
	Cps o;
	std::istringstream is(s);
	std::string t;
	while (is >> t) o.push_back((u32)strtoul(t.c_str(), 0, 16));
	return o;
}
static const Facts &real_facts(int f)
{
	static Facts F[NF];
	static bool have[NF];
	if (have[f]) return F[f];
	have[f] = true;
	std::istringstream is(real_bytes(f));
	std::string line;
	while (std::getline(is, line)) {
		std::string com;
		size_t h = line.find('#');
		if (h != std::string::npos) { com = trim(line.substr(h + 1)); line = line.substr(0, h); }
		if (trim(line).empty()) continue;
		std::vector<std::string> q;
		size_t i = 0;
		for (;;) { size_t e = line.find(';', i); q.push_back(trim(line.substr(i, e == std::string::npos ? e : e - i))); if (e == std::string::npos) break; i = e + 1; }
		Fact x;
		x.f = f;
		size_t dd = q[0].find("..");
		x.lo = (u32)strtoul(q[0].c_str(), 0, 16);
		x.hi = dd == std::string::npos ? x.lo : (u32)strtoul(q[0].c_str() + dd + 2, 0, 16);
		q.resize(16);
		auto num = [](const std::string &s) { return s.empty() ? (i64)-1 : (i64)strtoul(s.c_str(), 0, 16); };
		switch (f) {
		case F_UD:
			x.gc = std::max(0, idx_of(gcs, q[2]));
			if (!q[5].empty()) {
				if (q[5][0] == '<') { x.tag = 1; size_t e = q[5].find('>'); x.dec = num(trim(q[5].substr(e + 1))); }
				else { x.dec = num(q[5]); if (q[5].find(' ') != std::string::npos) x.tag = 2; }
			}
			x.up = num(q[12]); x.low = num(q[13]); x.ti = num(q[14]);
			break;
		case F_SC:
			for (int k = 0; k < 3; k++) x.l[k] = hexlist(q[(size_t)k + 1]);
			x.cond = !q[4].empty();
			break;
		case F_BB: x.pair = (u32)num(q[1]); x.type = q[2].empty() ? '?' : q[2][0]; break;
		case F_BM: x.pair = (u32)num(q[1]); break;
		default: {
			x.cls = idx_of(names[f], q[1]);
			std::string g = com.substr(0, com.find(' '));
			x.gc = idx_of(gcs, g);
			if (x.gc < 0) x.gc = 0;
		}
		}
		F[f].push_back(x);
	}
	return F[f];
}
// defaults of Bidi_Class for codepoints the data does not list
static const std::vector<u8> &bidi_default()
{
	static std::vector<u8> d;
	if (!d.empty()) return d;
	d.assign(NCP, 0);
	std::istringstream is(real_bytes(F_BC));
	std::string line;
	while (std::getline(is, line)) {
		size_t m = line.find("@missing:");
		if (m == std::string::npos) continue;
		std::string r = line.substr(m + 9);
		size_t s = r.find(';'), dd = r.find("..");
		if (s == std::string::npos || dd == std::string::npos) continue;
		u32 lo = (u32)strtoul(r.c_str(), 0, 16), hi = (u32)strtoul(r.c_str() + dd + 2, 0, 16);
		std::string v = trim(r.substr(s + 1));
		v = v.substr(0, v.find_first_of(" \r"));
		const char *cl = v == "Left_To_Right" ? "L" : v == "Right_To_Left" ? "R" : v == "Arabic_Letter" ? "AL" : v == "European_Terminator" ? "ET" : nullptr;
		if (!cl) { fprintf(stderr, "gsim: unknown @missing value %s\n", v.c_str()); exit(3); }
		for (u32 c = lo; c <= hi && c < NCP; c++) d[c] = (u8)idx_of(names[F_BC], cl);
	}
	return d;
}

// ---------------------------------------------------------------- oracle
struct Truth {
	std::vector<std::string> cname;       // expected class names (enumerator suffixes)
	std::vector<u8> cls;                  // per codepoint index into cname
	struct Map { std::vector<int32_t> to; } map[3]; // case: upper, lower, title; bidi: [0] = mirror. value = codepoint or NCP + special index
	std::vector<Cps> spec[3];             // upper, lower, title lists
	std::vector<u8> btype;                // bidi: 0, 1 open, 2 close
	std::vector<u8> bpair;                // bidi: pair number of codepoint (with btype)
};
static std::string up(std::string s) { for (auto &c : s) c = (char)toupper(c); return s; }

static void truth(int g, const Facts &fs, Truth &t)
{
	t.cls.assign(NCP, 0);
	auto cid = [&](const std::string &n) { int i = idx_of(t.cname, n); if (i < 0) { t.cname.push_back(n); i = (int)t.cname.size() - 1; } return (u8)i; };
	auto paint = [&](const Fact &x, u8 v) { std::fill(t.cls.begin() + x.lo, t.cls.begin() + x.hi + 1, v); };
	switch (g) {
	case G_CHAR: {
		cid("OTHER");
		for (auto &x : fs) {
			if (x.f == F_GCB && x.cls >= 0) {
				std::string n = names[F_GCB][(size_t)x.cls];
				n = n == "L" || n == "V" || n == "T" || n == "LV" || n == "LVT" ? "HANGUL_" + n : up(n);
				paint(x, cid(n));
			} else if (x.f == F_EMOJI && x.cls == 0) paint(x, cid("EXTENDED_PICTOGRAPHIC"));
		}
		break;
	}
	case G_WORD: {
		cid("OTHER");
		u8 al = cid("ALETTER"), ep = cid("EXTENDED_PICTOGRAPHIC"), both = cid("BOTH_ALETTER_EXTPICT");
		for (auto &x : fs) if (x.f == F_WB && x.cls >= 0) paint(x, cid(up(names[F_WB][(size_t)x.cls])));
		for (auto &x : fs) if (x.f == F_EMOJI && x.cls == 0) for (u32 c = x.lo; c <= x.hi; c++) t.cls[c] = t.cls[c] == al ? both : ep;
		break;
	}
	case G_SENT:
		cid("OTHER");
		for (auto &x : fs) if (x.f == F_SB && x.cls >= 0) paint(x, cid(up(names[F_SB][(size_t)x.cls])));
		break;
	case G_LINE: {
		u8 AL = cid("AL"), CM = cid("CM"), NS = cid("NS"), both = cid("BOTH_CN_EXTPICT");
		u8 op0 = cid("OP_WITHOUT_EAW_HWF"), op1 = cid("OP_WITH_EAW_HWF"), cp0 = cid("CP_WITHOUT_EAW_HWF"), cp1 = cid("CP_WITH_EAW_HWF");
		std::vector<bool> cn(NCP, false);
		for (auto &x : fs) if (x.f == F_LB && x.cls >= 0) {
			std::string n = names[F_LB][(size_t)x.cls];
			u8 v;
			if (n == "AI" || n == "SG" || n == "XX") v = AL;
			else if (n == "SA") v = x.gc == GC_MN || x.gc == GC_MC ? CM : AL;
			else if (n == "CJ") v = NS;
			else if (n == "OP") v = op0;
			else if (n == "CP") v = cp0;
			else v = cid(n);
			paint(x, v);
			if (x.gc == GC_CN) std::fill(cn.begin() + x.lo, cn.begin() + x.hi + 1, true);
		}
		for (auto &x : fs) {
			if (x.f == F_EMOJI && x.cls == 0) for (u32 c = x.lo; c <= x.hi; c++) if (cn[c]) t.cls[c] = both;
			if (x.f == F_EAW && x.cls >= 0 && x.cls < 3) for (u32 c = x.lo; c <= x.hi; c++) t.cls[c] = t.cls[c] == op0 ? op1 : t.cls[c] == cp0 ? cp1 : t.cls[c];
		}
		break;
	}
	case G_CASE: {
		cid("OTHER");
		u8 ca = cid("CASED"), ci = cid("CASE_IGNORABLE"), both = cid("BOTH_CASED_CASE_IGNORABLE");
		for (auto &x : fs) if (x.f == F_DCP && (x.cls == 0 || x.cls == 1)) {
			u8 me = x.cls ? ci : ca;
			for (u32 c = x.lo; c <= x.hi; c++) t.cls[c] = t.cls[c] == 0 || t.cls[c] == me ? me : both;
		}
		for (auto &m : t.map) { m.to.resize(NCP); for (u32 c = 0; c < NCP; c++) m.to[c] = (int32_t)c; }
		for (auto &x : fs) if (x.f == F_UD) {
			if (x.up >= 0) t.map[0].to[x.lo] = (int32_t)x.up;
			if (x.low >= 0) t.map[1].to[x.lo] = (int32_t)x.low;
			// UAX #44: a null titlecase field means the simple uppercase mapping
			i64 ti = x.ti >= 0 ? x.ti : x.up;
			if (ti >= 0) t.map[2].to[x.lo] = (int32_t)ti;
		}
		for (auto &x : fs) if (x.f == F_SC && !x.cond) {
			static const int src[3] = {2, 0, 1};
			for (int k = 0; k < 3; k++) { t.map[k].to[x.lo] = (int32_t)(NCP + t.spec[k].size()); t.spec[k].push_back(x.l[src[k]]); }
		}
		break;
	}
	case G_BIDI: {
		for (auto &n : names[F_BC]) cid(n);
		t.cls = bidi_default();
		for (auto &x : fs) if (x.f == F_BC && x.cls >= 0) paint(x, (u8)x.cls);
		t.map[0].to.resize(NCP);
		for (u32 c = 0; c < NCP; c++) t.map[0].to[c] = (int32_t)c;
		for (auto &x : fs) if (x.f == F_BM) t.map[0].to[x.lo] = (int32_t)x.pair;
		t.btype.assign(NCP, 0);
		t.bpair.assign(NCP, 0);
		std::map<u32, u32> canon;
		for (auto &x : fs) if (x.f == F_UD && x.dec >= 0 && !x.tag) canon[x.lo] = (u32)x.dec;
		auto can = [&](u32 c) { auto i = canon.find(c); return i == canon.end() ? c : i->second; };
		std::map<u32, int> pairno; // by canonical opening bracket
		for (auto &x : fs) if (x.f == F_BB) {
			u32 o = can(x.type == 'o' ? x.lo : x.pair);
			auto it = pairno.insert({o, (int)pairno.size()}).first;
			t.btype[x.lo] = x.type == 'o' ? 1 : 2;
			t.bpair[x.lo] = (u8)it->second;
		}
		break;
	}
	}
}

// ---------------------------------------------------------------- decoding the emitted table
struct Table {
	bool ok = false;
	std::string type;
	std::vector<i64> v;
};
struct Emitted {
	const std::string &s;
	explicit Emitted(const std::string &x) : s(x) {}
	static bool idc(char c) { return isalnum((unsigned char)c) || c == '_'; }
	// initialiser of array `name`: position after '{', and its type words
	size_t find_array(const std::string &name, std::string *type, size_t *end) const
	{
		for (size_t p = 0; (p = s.find(name, p)) != std::string::npos; p += name.size()) {
			if (p && idc(s[p - 1])) continue;
			size_t q = p + name.size();
			while (q < s.size() && isspace((unsigned char)s[q])) q++;
			if (q >= s.size() || s[q] != '[') continue;
			size_t eq = s.find('=', q), semi = s.find(';', q);
			if (eq == std::string::npos || eq > semi) continue;
			size_t o = s.find('{', eq);
			if (o == std::string::npos) continue;
			if (type) {
				size_t a = s.find_last_of(";}\n", p);
				*type = s.substr(a == std::string::npos ? 0 : a + 1, p - (a == std::string::npos ? 0 : a + 1));
			}
			int d = 0;
			size_t e = o;
			for (; e < s.size(); e++) { if (s[e] == '{') d++; else if (s[e] == '}' && --d == 0) break; }
			*end = e;
			return o + 1;
		}
		return std::string::npos;
	}
	static void ints(const char *p, const char *e, std::vector<i64> &v)
	{
		while (p < e) {
			if (idc(*p) && !isdigit((unsigned char)*p)) { while (p < e && idc(*p)) p++; continue; }
			if (isdigit((unsigned char)*p)) {
				bool neg = false;
				const char *b = p;
				while (b[-1] == ' ') b--;
				if (b[-1] == '-') neg = true;
				char *x;
				long long k = strtoll(p, &x, 0);
				v.push_back(neg ? -k : k);
				p = x;
				while (p < e && idc(*p)) p++; // suffixes
				continue;
			}
			p++;
		}
	}
	Table array(const std::string &name) const
	{
		Table t;
		size_t e, p = find_array(name, &t.type, &e);
		if (p == std::string::npos) return t;
		t.ok = true;
		ints(s.data() + p, s.data() + e, t.v);
		return t;
	}
	std::vector<std::string> first_enum() const
	{
		std::vector<std::string> o;
		size_t p = s.find("enum ");
		if (p == std::string::npos) return o;
		size_t b = s.find('{', p), e = s.find('}', b);
		for (size_t i = b + 1; i < e;) {
			if (!idc(s[i])) { i++; continue; }
			size_t j = i;
			while (idc(s[j])) j++;
			o.push_back(s.substr(i, j - i));
			i = j;
		}
		return o;
	}
	// array of { .cp = {list}, .cplen = n }
	bool speclist(const std::string &name, std::vector<Cps> &out, std::vector<i64> &lens) const
	{
		size_t e, p = find_array(name, nullptr, &e);
		if (p == std::string::npos) return false;
		int d = 0;
		size_t start = 0;
		for (size_t i = p; i < e; i++) {
			if (s[i] == '{') {
				d++;
				if (d == 1) { out.push_back(Cps()); lens.push_back(-1); }
				if (d == 2) start = i + 1;
			} else if (s[i] == '}') {
				if (d == 2) {
					std::vector<i64> v;
					ints(s.data() + start, s.data() + i, v);
					for (i64 x : v) out.back().push_back((u32)x);
					start = i + 1;
				} else if (d == 1) {
					std::vector<i64> v;
					ints(s.data() + start, s.data() + i, v);
					if (v.size() == 1) lens.back() = v[0];
				}
				d--;
			}
		}
		return true;
	}
};
static bool fits(const std::string &type, i64 lo, i64 hi)
{
	bool uns = type.find("uint") != std::string::npos || type.find("unsigned") != std::string::npos || type.find("size_t") != std::string::npos;
	int bits = type.find("64") != std::string::npos || type.find("size_t") != std::string::npos || type.find("long") != std::string::npos ? 64 : type.find("32") != std::string::npos ? 32 : type.find("16") != std::string::npos || type.find("short") != std::string::npos ? 16 : type.find("8") != std::string::npos || type.find("char") != std::string::npos ? 8 : 32;
	if (uns) return lo >= 0 && (bits == 64 || hi < (i64)1 << bits);
	return bits == 64 || (lo >= -((i64)1 << (bits - 1)) && hi < (i64)1 << (bits - 1));
}
// expand a two-stage table to one value per codepoint
static std::vector<i64> expand(Ctx &c, const Emitted &e, const std::string &n)
{
	Table a = e.array(n + "_major"), b = e.array(n + "_minor");
	if (!a.ok || !b.ok) c.fail("table", "the output holds no tables %s_major and %s_minor", n.c_str(), n.c_str());
	if (a.v.size() < 0x1100) c.fail("table", "%s_major has %zu entries, 4352 are needed", n.c_str(), a.v.size());
	for (Table *t : {&a, &b}) {
		i64 lo = *std::min_element(t->v.begin(), t->v.end()), hi = t->v.empty() ? 0 : *std::max_element(t->v.begin(), t->v.end());
		if (!fits(t->type, lo, hi)) c.fail("type", "values %lld..%lld of %s_%s do not fit its type '%s'", (long long)lo, (long long)hi, n.c_str(), t == &a ? "major" : "minor", t->type.c_str());
	}
	std::vector<i64> o(NCP);
	for (u32 k = 0; k < 0x1100; k++) {
		i64 m = a.v[k];
		if (m < 0 || (u64)m + 256 > b.v.size()) c.fail("table", "%s_major[0x%X] = %lld points outside %s_minor (%zu entries)", n.c_str(), k, (long long)m, n.c_str(), b.v.size());
		memcpy(&o[k * 256], &b.v[(size_t)m], 256 * sizeof(i64));
	}
	return o;
}
static void compare(Ctx &c, int g, const std::string &out, const Truth &t)
{
	Emitted e(out);
	static const char *const pre[NG] = {"char_break", "word_break", "sentence_break", "line_break", "case", "bidi"};
	std::vector<std::string> en = e.first_enum();
	std::vector<i64> got = expand(c, e, pre[g]);
	// value -> expected class index
	std::map<i64, int> cl;
	for (size_t i = 0; i < en.size(); i++) {
		size_t p = en[i].find("PROP_");
		std::string n = p == std::string::npos ? en[i] : en[i].substr(p + 5);
		int k = idx_of(t.cname, n);
		if (k >= 0) cl[(i64)i] = k;
	}
	std::vector<Cps> dummy;
	std::vector<int> brk_type;
	std::vector<i64> brk_class;
	if (g == G_BIDI) {
		size_t end, p = e.find_array("bidi_bracket", nullptr, &end);
		if (p == std::string::npos) c.fail("table", "the output holds no table bidi_bracket");
		int d = 0;
		size_t st = 0;
		for (size_t i = p; i < end; i++) {
			if (out[i] == '{') { d++; st = i; }
			else if (out[i] == '}') {
				d--;
				std::string q = out.substr(st, i - st);
				brk_type.push_back(q.find("OPEN") != std::string::npos ? 1 : q.find("CLOSE") != std::string::npos ? 2 : q.find("NONE") != std::string::npos ? 0 : -1);
				std::vector<i64> v;
				Emitted::ints(q.data() + 1, q.data() + q.size(), v);
				brk_class.push_back(v.size() ? v.back() : -1);
				if (v.size() && (v.back() < 0 || v.back() > 255)) c.fail("type", "bracket class %lld does not fit its type", (long long)v.back());
			}
		}
	}
	std::map<int, i64> paircls;
	std::map<i64, int> clspair;
	std::map<int, i64> taken;
	i64 pv = -1;
	u8 pc = 0;
	for (u32 cp = 0; cp < NCP; cp++) {
		i64 v = got[cp];
		if (v == pv && t.cls[cp] == pc && !(g == G_BIDI && t.btype[cp])) continue; // as the one before
		pv = g == G_BIDI && t.btype[cp] ? -1 : v;
		pc = t.cls[cp];
		if (g == G_BIDI) {
			i64 bi = v >> 5;
			v &= 31;
			if (bi < 0 || (size_t)bi >= brk_type.size()) c.fail("table", "U+%04X has bracket index %lld of %zu", cp, (long long)bi, brk_type.size());
			if (brk_type[(size_t)bi] != t.btype[cp]) c.fail("bracket", "U+%04X: bracket type %d, the data says %d", cp, brk_type[(size_t)bi], t.btype[cp]);
			if (t.btype[cp]) {
				i64 k = brk_class[(size_t)bi];
				auto a = paircls.insert({t.bpair[cp], k}).first;
				auto b = clspair.insert({k, t.bpair[cp]}).first;
				if (a->second != k || b->second != t.bpair[cp]) c.fail("bracket", "U+%04X: bracket class %lld; the brackets of a pair and their canonical equivalents do not share one class of their own", cp, (long long)k);
			}
		}
		auto it = cl.find(v);
		if (it == cl.end()) { // unnamed value: must stand for one class
			auto x = taken.insert({(int)t.cls[cp], v}).first;
			if (x->second != v) c.fail("class", "U+%04X has the unknown property value %lld, the data says %s", cp, (long long)v, t.cname[t.cls[cp]].c_str());
			for (auto &y : cl) if (y.second == t.cls[cp]) c.fail("class", "U+%04X has the value %lld, the data says %s", cp, (long long)v, t.cname[t.cls[cp]].c_str());
			cl[v] = t.cls[cp];
			it = cl.find(v);
		}
		if (it->second != t.cls[cp]) c.fail("class", "U+%04X has class %s in the table, the data says %s", cp, t.cname[(size_t)it->second].c_str(), t.cname[t.cls[cp]].c_str());
	}
	c.count(S_CHECKS, NCP);
	if (g == G_CASE) {
		static const char *const mn[3] = {"upper", "lower", "title"};
		for (int k = 0; k < 3; k++) {
			std::vector<i64> m = expand(c, e, mn[k]);
			std::vector<Cps> sp;
			std::vector<i64> lens;
			if (!e.speclist(std::string(mn[k]) + "_special", sp, lens)) c.fail("table", "the output holds no table %s_special", mn[k]);
			for (u32 cp = 0; cp < NCP; cp++) {
				int32_t want = t.map[k].to[cp];
				if (want < (int32_t)NCP) {
					if (m[cp] >= (i64)NCP || (i64)cp + m[cp] != want) c.fail("mapping", "U+%04X: simple %s mapping is U+%04llX%s in the table, the data says U+%04X", cp, mn[k], (unsigned long long)((i64)cp + m[cp]), m[cp] >= (i64)NCP ? " (special)" : "", (unsigned)want);
				} else {
					size_t i = (size_t)(m[cp] - NCP);
					const Cps &w = t.spec[k][(size_t)want - NCP];
					if (m[cp] < (i64)NCP || i >= sp.size()) c.fail("mapping", "U+%04X: the special %s mapping is missing", cp, mn[k]);
					if (sp[i] != w || lens[i] != (i64)w.size()) c.fail("mapping", "U+%04X: special %s mapping is <%s> (length %lld), the data says <%s>", cp, mn[k], hex(sp[i]).c_str(), (long long)lens[i], hex(w).c_str());
				}
			}
			c.count(S_CHECKS, NCP);
		}
	}
	if (g == G_BIDI) {
		std::vector<i64> m = expand(c, e, "mirror");
		for (u32 cp = 0; cp < NCP; cp++)
			if ((i64)cp + m[cp] != t.map[0].to[cp]) c.fail("mirror", "U+%04X mirrors to U+%04llX in the table, the data says U+%04X", cp, (unsigned long long)((i64)cp + m[cp]), (unsigned)t.map[0].to[cp]);
		c.count(S_CHECKS, NCP);
	}
}

// ---------------------------------------------------------------- conformance tests
// the tests of a break test file, read independently
static Facts read_tests(int f, const std::string &bytes)
{
	Facts fs;
	std::istringstream is(bytes);
	std::string line;
	while (std::getline(is, line)) {
		if (line.empty() || line[0] == '#') continue;
		Fact x;
		x.f = f;
		size_t h = line.find('#');
		if (h != std::string::npos) { size_t b = line.find_first_not_of(' ', h + 1); if (b != std::string::npos) x.text = line.substr(b); line = line.substr(0, h); }
		std::istringstream ls(line);
		std::string t;
		u32 n = 0;
		while (ls >> t) {
			if (t == "\xC3\x97") continue;
			if (t == "\xC3\xB7") { if (n) x.l[1].push_back(n); n = 0; continue; }
			x.l[0].push_back((u32)strtoul(t.c_str(), 0, 16));
			n++;
		}
		if (n) x.l[1].push_back(n);
		fs.push_back(x);
	}
	return fs;
}
// value of a designated member of one entry
static std::string member(const std::string &e, const char *name)
{
	std::string n = std::string(".") + name;
	for (size_t p = 0; (p = e.find(n, p)) != std::string::npos; p++) {
		size_t q = p + n.size();
		if (Emitted::idc(e[q])) continue;
		q = e.find('=', q);
		if (q == std::string::npos) break;
		int d = 0;
		bool str = false;
		size_t b = q + 1;
		for (q = b; q < e.size(); q++) {
			if (e[q] == '"') str = !str;
			if (str) continue;
			if (e[q] == '(' || e[q] == '{' || e[q] == '[') d++;
			else if (e[q] == ')' || e[q] == '}' || e[q] == ']') d--;
			else if (e[q] == ',' && d == 0) break;
		}
		return e.substr(b, q - b);
	}
	return "";
}
static std::vector<i64> intlist(const std::string &s)
{
	std::string q = " " + s;
	std::vector<i64> v;
	Emitted::ints(q.data() + 1, q.data() + q.size(), v);
	return v;
}
static std::string showl(const std::vector<i64> &v)
{
	std::string s;
	for (size_t i = 0; i < v.size() && i < 40; i++) s += (i ? " " : "") + std::to_string(v[i]);
	return s;
}
static void compare_tests(Ctx &c, int g, const std::string &out, const Facts &fs)
{
	static const char *const an[] = {"character_break_test", "word_break_test", "sentence_break_test", "line_break_test", "bidirectional_test"};
	const char *name = an[g - NG];
	Emitted e(out);
	size_t end, p = e.find_array(name, nullptr, &end);
	if (p == std::string::npos) c.fail("table", "the output holds no table %s", name);
	std::vector<std::string> ent;
	int d = 0;
	bool str = false;
	size_t st = 0;
	for (size_t i = p; i < end; i++) {
		if (out[i] == '"') str = !str;
		if (str) continue;
		if (out[i] == '{' && d++ == 0) st = i + 1;
		else if (out[i] == '}' && --d == 0) ent.push_back(out.substr(st, i - st));
	}
	static std::vector<u8> bc; // classes of the real data, for the stand-in characters of BidiTest.txt
	if (g == T_BIDI && bc.empty()) {
		Truth *t = new Truth;
		Facts q = real_facts(F_BC);
		truth(G_BIDI, q, *t);
		bc = t->cls;
		delete t;
	}
	size_t n = 0;
	for (int f : gen_files[g])
		for (auto &x : fs) {
			if (x.f != f) continue;
			if (n >= ent.size()) c.fail("missing", "%s holds %zu entries; test %zu of the data is missing", name, ent.size(), n);
			const std::string &q = ent[n];
			auto same = [&](const char *m, const Cps &want) {
				std::vector<i64> w, v = intlist(member(q, m));
				for (u32 y : want) w.push_back(y == NCP ? -1 : (i64)y);
				if (v != w) c.fail("test", "test %zu: %s.%s is {%s}, the data says {%s}", n, name, m, showl(v).c_str(), showl(w).c_str());
			};
			auto len = [&](const char *m, size_t want) {
				std::vector<i64> v = intlist(member(q, m));
				if (v.size() != 1 || v[0] != (i64)want) c.fail("test", "test %zu: %s.%s is %s, the data says %zu", n, name, m, showl(v).c_str(), want);
			};
			if (f != F_BT) same("cp", x.l[0]);
			len("cplen", x.l[0].size());
			if (g == T_BIDI) {
				auto dirs = [&](const char *m, std::vector<std::string> w) {
					std::string v = member(q, m);
					std::vector<std::string> got;
					for (size_t i = 0; (i = v.find("DIRECTION_", i)) != std::string::npos; i += 10) { size_t j = i + 10; while (j < v.size() && Emitted::idc(v[j])) j++; got.push_back(v.substr(i + 10, j - i - 10)); }
					if (got != w) c.fail("test", "test %zu: %s.%s names %zu directions or other ones than the data (%zu)", n, name, m, got.size(), w.size());
				};
				std::vector<std::string> mode;
				if (f == F_BT) {
					if (x.gc & 1) mode.push_back("NEUTRAL");
					if (x.gc & 2) mode.push_back("LTR");
					if (x.gc & 4) mode.push_back("RTL");
					dirs("resolved", {"NEUTRAL"});
					std::vector<i64> v = intlist(member(q, "cp"));
					if (v.size() != x.l[0].size()) c.fail("test", "test %zu: %s.cp holds %zu codepoints for %zu classes", n, name, v.size(), x.l[0].size());
					for (size_t i = 0; i < v.size(); i++) if (v[i] < 0 || v[i] >= (i64)NCP || bc[(size_t)v[i]] != x.l[0][i]) c.fail("test", "test %zu: U+%04llX does not stand for the class %s", n, (unsigned long long)v[i], names[F_BC][x.l[0][i]].c_str());
				} else {
					mode.push_back(x.gc == 0 ? "LTR" : x.gc == 1 ? "RTL" : "NEUTRAL");
					dirs("resolved", {x.tag ? "RTL" : "LTR"});
				}
				dirs("mode", mode);
				len("modelen", mode.size());
				same("level", x.l[1]);
				same("reorder", x.l[2]);
				len("reorderlen", x.l[2].size());
			} else {
				same("len", x.l[1]);
				len("lenlen", x.l[1].size());
				if (x.text.size() && member(q, "descr").find("\"" + x.text + "\"") == std::string::npos) c.fail("test", "test %zu: the description is %s, the data says \"%s\"", n, member(q, "descr").c_str(), x.text.c_str());
			}
			n++;
			c.count(S_CHECKS);
		}
	if (n != ent.size()) c.fail("invented", "%s holds %zu entries, the data has %zu tests", name, ent.size(), n);
}

// ---------------------------------------------------------------- simulated machine
enum FaultKind { FK_OPEN, FK_READ, FK_CLOSE, FK_WRITE, FK_NOSPC, FK_OUTCLOSE, FK_ALLOC, FK_SHORTREAD, FK_SHORTWRITE, NFK };
static const char *const fk_name[NFK] = {"open failure", "read error", "close failure", "write error", "no space", "close of output fails", "allocation failure", "short reads", "short writes"};
static const Ctr fk_ctr[NFK] = {F_OPENFAIL, F_READERR, F_CLOSEFAIL, F_WRITEERR, F_NOSPC, F_CLOSEFAIL, F_MALLOCFAIL, F_SHORTREAD, F_SHORTWRITE};
struct Fault { int kind; u64 n; int err; bool persist; };
enum { OUTMAX = 48 << 20, NTRACE = 4096 };
struct Machine { // shared with the simulated process
	u64 n[NFK];         // operations of each kind so far (kinds that share a counter use the first)
	u64 opens, reads, closes, writes, allocs;
	u64 inbytes, outlen, hash, hit[NFK], heapbad, steps, overflow;
	u64 ntrace, nsites, nsited;
	struct { u8 op; u8 fault; u32 arg; u64 seq; } tr[NTRACE];
	u8 out[OUTMAX];
	u64 site_key[4096]; // call paths that allocate, in order of appearance
	uint16_t site_of[1 << 20];
};
static Machine *M;
struct Disk { std::map<std::string, std::string> f; };
// state of the simulated process (set before fork)
static const Disk *cur_disk;
static std::vector<Fault> cur_faults;
static u64 chunk_seed;
static u32 chunk_max, wchunk_max;

static void mev(u8 op, u8 fault, u64 arg, u64 seq)
{
	M->hash = mix64(M->hash ^ (op * 0x100ull + fault) ^ arg << 16) + seq;
	if (M->ntrace < NTRACE) { auto &t = M->tr[M->ntrace]; t.op = op; t.fault = fault; t.arg = (u32)arg; t.seq = seq; }
	M->ntrace++;
}
static const Fault *due(int kind, u64 n)
{
	for (auto &f : cur_faults)
		if (f.kind == kind && (n == f.n || (f.persist && n > f.n))) { M->hit[kind]++; return &f; }
	return nullptr;
}
struct Open { const std::string *s; size_t off; };
static ssize_t in_read(void *ck, char *buf, size_t n)
{
	Open *o = (Open *)ck;
	u64 k = M->reads++;
	if (const Fault *f = due(FK_READ, k)) { mev(2, 1, n, k); errno = f->err; return -1; }
	size_t left = o->s->size() - o->off, m = std::min(n, left);
	if (chunk_max && m > 1) {
		size_t lim = 1 + (size_t)(mix64(chunk_seed + k) % chunk_max);
		if (lim < m) { m = lim; M->hit[FK_SHORTREAD]++; }
	}
	memcpy(buf, o->s->data() + o->off, m);
	o->off += m;
	M->inbytes += m;
	mev(2, 0, m, k);
	return (ssize_t)m;
}
static int in_close(void *ck)
{
	delete (Open *)ck;
	u64 k = M->closes++;
	if (const Fault *f = due(FK_CLOSE, k)) { mev(3, 1, 0, k); errno = f->err; return -1; }
	mev(3, 0, 0, k);
	return 0;
}
static ssize_t out_write(void *, const char *buf, size_t n)
{
	// the device below stdio: accepts pieces, as write(2) may; the C library
	// retries short writes
	size_t done = 0;
	while (done < n) {
		u64 k = M->writes++;
		size_t m = n - done;
		if (const Fault *f = due(FK_WRITE, k)) { mev(4, 1, m, k); errno = f->err; return (ssize_t)(done ? done : 0); }
		for (auto &f : cur_faults)
			if (f.kind == FK_NOSPC && M->outlen + m > f.n) {
				m = M->outlen < f.n ? (size_t)(f.n - M->outlen) : 0;
				if (!m) { M->hit[FK_NOSPC]++; mev(4, 2, n - done, k); errno = f.err; return (ssize_t)done; }
			}
		if (wchunk_max && m > 1) {
			size_t lim = 1 + (size_t)(mix64(~chunk_seed + k) % wchunk_max);
			if (lim < m) { m = lim; M->hit[FK_SHORTWRITE]++; }
		}
		if (M->outlen + m > OUTMAX) { M->overflow = 1; errno = EFBIG; return 0; }
		memcpy(M->out + M->outlen, buf + done, m);
		M->outlen += m;
		done += m;
		mev(4, 0, m, k);
	}
	return (ssize_t)n;
}
static int out_close(void *)
{
	if (const Fault *f = due(FK_OUTCLOSE, 0)) { mev(5, 1, 0, 0); errno = f->err; return -1; }
	mev(5, 0, 0, 0);
	return 0;
}
static ssize_t err_write(void *, const char *, size_t n) { return (ssize_t)n; }

// heap stand-in: small blocks between guards in a bump arena that is never
// reused; large blocks get their own pages with an inaccessible page behind
struct Hdr { u64 size, magic; u8 *map; u64 maplen; };
enum { BIG = 1 << 16 };
static const u64 MAGIC = 0x6773696D68656170ull, DEAD = 0x64656164686561Full;
static u8 *heap_base, *heap_top, *heap_end;
static std::vector<Hdr *> *heap_all;
static int heap_fill = 0xCD; // what fresh memory holds, another value in another run
static bool in_heap(const void *p) { return p && (((Hdr *)p)[-1].magic == MAGIC || ((Hdr *)p)[-1].magic == DEAD); }
static void heap_bad(u64 why) { M->heapbad = why; }
static bool guard_ok(Hdr *h)
{
	u8 *e = (u8 *)(h + 1) + h->size;
	for (int i = 0; i < 16; i++) if (e[i] != 0xFD) return false;
	return true;
}
static void *heap_alloc(size_t n, int fill)
{
	Hdr *h;
	if (n > (size_t)1 << 36) { errno = ENOMEM; return nullptr; }
	if (n >= BIG) {
		size_t need = n + sizeof(Hdr) + 16, len = (need + 4095) & ~(size_t)4095;
		u8 *m = (u8 *)mmap(0, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) _exit(97);
		mprotect(m + len, 4096, PROT_NONE);
		h = (Hdr *)(m + ((len - need) & ~(size_t)15));
		h->map = m;
		h->maplen = len + 4096;
	} else {
		size_t len = (sizeof(Hdr) + n + 16 + 31) & ~(size_t)15;
		if (heap_top + len > heap_end) _exit(97);
		h = (Hdr *)heap_top;
		heap_top += len;
		h->map = nullptr;
	}
	h->size = n;
	h->magic = MAGIC;
	if (fill >= 0 && !(fill == 0 && h->map)) memset(h + 1, fill, n);
	memset((u8 *)(h + 1) + n, 0xFD, 16);
	heap_all->push_back(h);
	return h + 1;
}
static void heap_free(void *p)
{
	Hdr *h = (Hdr *)p - 1;
	if (h->magic == DEAD) { heap_bad(2); return; }
	if (!guard_ok(h)) heap_bad(1);
	h->magic = DEAD;
	if (h->map) {
		heap_all->erase(std::remove(heap_all->begin(), heap_all->end(), h), heap_all->end());
		munmap(h->map, h->maplen);
	} else memset(p, 0xDD, h->size);
}
static bool alloc_fails(size_t n, u64 site)
{
	u64 k = M->allocs++;
	if (k < sizeof M->site_of / sizeof *M->site_of) {
		u64 i = 0;
		while (i < M->nsites && M->site_key[i] != site) i++;
		if (i == M->nsites && i < sizeof M->site_key / sizeof *M->site_key) M->site_key[M->nsites++] = site;
		M->site_of[k] = (uint16_t)i;
		M->nsited = k + 1;
	}
	if (const Fault *f = due(FK_ALLOC, k)) { mev(6, 1, n, k); errno = f->err; return true; }
	mev(6, 0, n, k);
	return false;
}
// a call path: the generators and this file keep frame pointers
#pragma clang diagnostic ignored "-Wframe-address"
#define SITE ((u64)__builtin_return_address(0) ^ (u64)__builtin_return_address(1) << 20 ^ (u64)__builtin_return_address(2) << 40)
extern "C" {
void *gsim_malloc(size_t n) { return alloc_fails(n, SITE) ? nullptr : heap_alloc(n, heap_fill); }
void *gsim_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	return alloc_fails(n, SITE) ? nullptr : heap_alloc(n, 0);
}
void gsim_free(void *p)
{
	if (!p) return;
	if (!in_heap(p)) { free(p); return; } // obtained from the C library itself
	heap_free(p);
}
static void *realloc_at(void *p, size_t n, u64 site)
{
	if (p && !in_heap(p)) return realloc(p, n);
	if (alloc_fails(n, site)) return nullptr;
	void *q = heap_alloc(n, heap_fill);
	if (p) {
		memcpy(q, p, std::min<size_t>(n, ((Hdr *)p)[-1].size));
		heap_free(p);
	}
	return q;
}
void *gsim_realloc(void *p, size_t n) { return realloc_at(p, n, SITE); }
void *gsim_reallocarray(void *p, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	return realloc_at(p, n, SITE);
}
char *gsim_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = alloc_fails(n, SITE) ? nullptr : (char *)heap_alloc(n, heap_fill);
	if (p) memcpy(p, s, n);
	return p;
}
char *gsim_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = alloc_fails(n + 1, SITE) ? nullptr : (char *)heap_alloc(n + 1, heap_fill);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}
static ssize_t line_at(char **lp, size_t *cap, int d, FILE *fp, u64 site)
{
	size_t n = 0;
	if (!*lp) *cap = 0;
	for (int ch;;) {
		if ((ch = getc(fp)) == EOF && (n == 0 || ferror(fp))) return -1;
		if (n + 2 > *cap) {
			size_t want = *cap ? *cap * 2 : 120;
			char *q = (char *)realloc_at(*lp, want, site);
			if (!q) return -1;
			*lp = q; *cap = want;
		}
		if (ch != EOF) (*lp)[n++] = (char)ch;
		if (ch == EOF || ch == d) { (*lp)[n] = 0; return (ssize_t)n; }
	}
}
ssize_t gsim_getdelim(char **lp, size_t *cap, int d, FILE *fp) { return line_at(lp, cap, d, fp, SITE); }
ssize_t gsim_getline(char **lp, size_t *cap, FILE *fp) { return line_at(lp, cap, '\n', fp, SITE); }
FILE *gsim_fopen(const char *name, const char *mode)
{
	u64 k = M->opens++;
	if (const Fault *f = due(FK_OPEN, k)) { mev(1, 1, 0, k); errno = f->err; return nullptr; }
	const char *b = strrchr(name, '/');
	auto it = cur_disk->f.find(b ? b + 1 : name);
	if (it == cur_disk->f.end() || mode[0] != 'r') { mev(1, 2, 0, k); errno = ENOENT; return nullptr; }
	mev(1, 0, it->second.size(), k);
	cookie_io_functions_t io = {in_read, nullptr, nullptr, in_close};
	FILE *fp = fopencookie(new Open{&it->second, 0}, "r", io);
	return fp;
}
}

struct Result {
	bool exited = false, runaway = false;
	int status = 0, sig = 0;
	std::string out;
	u64 hash = 0, opens = 0, reads = 0, closes = 0, writes = 0, allocs = 0, hit[NFK] = {}, heapbad = 0;
	std::string str() const
	{
		char b[64];
		if (exited) snprintf(b, sizeof b, "exit status %d", status);
		else snprintf(b, sizeof b, "death by signal %d", sig);
		return b;
	}
};
static const u64 STEPS = 6000000000ull;
static __attribute__((noinline)) void dirty_stack(int v)
{
	volatile u8 a[200000];
	for (size_t i = 0; i < sizeof a; i++) a[i] = (u8)v;
}
static Result run_gen(Ctx &c, int g, const Disk &d, const std::vector<Fault> &faults, u64 chunk, u32 cmax, u32 wmax, int bufmode)
{
	if (!M) {
		M = (Machine *)mmap(0, sizeof(Machine), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (M == MAP_FAILED) { perror("mmap"); exit(3); }
	}
	memset((void *)M, 0, offsetof(Machine, tr));
	M->hash = 1;
	cur_disk = &d;
	cur_faults = faults;
	chunk_seed = chunk;
	chunk_max = cmax;
	wchunk_max = wmax;
	if (c.st) c.st->beat++;
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (!pid) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct rlimit rl = {120, 120};
		setrlimit(RLIMIT_CPU, &rl);
		heap_base = (u8 *)mmap(0, (size_t)4 << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (heap_base == MAP_FAILED) _exit(97);
		heap_top = heap_base;
		heap_end = heap_base + ((size_t)4 << 30);
		heap_all = new std::vector<Hdr *>;
		cookie_io_functions_t wo = {nullptr, out_write, nullptr, out_close}, we = {nullptr, err_write, nullptr, nullptr};
		stdout = fopencookie(nullptr, "w", wo);
		stderr = fopencookie(nullptr, "w", we);
		static char big[1 << 16];
		switch (bufmode) {
		case 1: setvbuf(stdout, big, _IOFBF, 64); break;
		case 2: setvbuf(stdout, big, _IOLBF, 1024); break;
		case 3: setvbuf(stdout, big, _IOFBF, sizeof big); break;
		default: setvbuf(stdout, big, _IOFBF, 4096); break;
		}
		setvbuf(stderr, nullptr, _IONBF, 0);
		char a0[64];
		snprintf(a0, sizeof a0, "gen/%s", gen_name[g]);
		char *av[2] = {a0, nullptr};
		g_steps = 0;
		g_step_limit = STEPS;
		if (_setjmp(g_step_jmp)) _exit(98);
		errno = 0;
		static auto at_end = +[]() { for (Hdr *h : *heap_all) if (h->magic == MAGIC && !guard_ok(h)) heap_bad(1); };
		atexit(at_end);
		static const u8 fills[] = {0xCD, 0, 0xFF, 0x20, 0x41, 0x0A, 1, 0x80};
		if (chunk) heap_fill = fills[mix64(chunk ^ 0x66696C6C) % 8];
		dirty_stack(chunk ? fills[mix64(chunk ^ 0x73746B) % 8] : 0);
		exit(gen_main[g](1, av));
	}
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (c.st) c.st->beat++;
	Result r;
	r.exited = WIFEXITED(st);
	if (r.exited) r.status = WEXITSTATUS(st); else r.sig = WTERMSIG(st);
	if (r.exited && r.status == 97) { fprintf(stderr, "gsim: simulated heap exhausted\n"); exit(3); }
	if ((r.exited && r.status == 98) || (!r.exited && (r.sig == SIGXCPU || r.sig == SIGKILL))) r.runaway = true;
	r.out.assign((char *)M->out, M->outlen);
	r.hash = M->hash;
	r.opens = M->opens; r.reads = M->reads; r.closes = M->closes; r.writes = M->writes; r.allocs = M->allocs;
	r.heapbad = M->heapbad;
	for (int k = 0; k < NFK; k++) { r.hit[k] = M->hit[k]; c.count(fk_ctr[k], M->hit[k]); }
	if (M->overflow) { fprintf(stderr, "gsim: output larger than the simulated device\n"); exit(3); }
	c.count(S_CALLS);
	u64 us = M->opens * 80 + M->reads * 40 + M->writes * 60 + M->allocs;
	c.now += us;
	c.count(S_SIMTIME_US, us);
	c.ev(r.hash);
	c.ev((u64)st);
	for (size_t i = 0; i + 8 <= r.out.size(); i += 8) { u64 x; memcpy(&x, &r.out[i], 8); c.ev(x); }
	if (c.trace) {
		static const char *const on[] = {"", "open", "read", "close", "write", "close output", "allocate"};
		for (u64 i = 0; i < std::min<u64>(M->ntrace, NTRACE); i++)
			if (M->ntrace < 200 || i < 40 || M->tr[i].fault) c.log("%s #%llu (%u bytes)%s", on[M->tr[i].op], (unsigned long long)M->tr[i].seq, M->tr[i].arg, M->tr[i].fault ? " FAILS" : "");
		c.log("%s: %s, %zu bytes of output, %llu operations", gen_name[g], r.str().c_str(), r.out.size(), (unsigned long long)M->ntrace);
	}
	return r;
}

// ---------------------------------------------------------------- rendering facts as files
struct Style {
	u64 seed;
	unsigned flags; // 1 pad, 2 long comments, 4 odd comments, 8 interleaved comments, 16 no final newline, 32 shuffle, 64 split ranges, 128 no comments, 256 wide hex
};
static std::string hx(u32 c, bool wide)
{
	char b[16];
	snprintf(b, sizeof b, wide ? "%06X" : "%04X", c);
	return b;
}
static std::string render(int f, const Facts &fs, const Style &st)
{
	Rng r(mix64(st.seed * 16 + (u64)f + 1));
	std::vector<std::string> lines;
	std::string last[2] = {"-", ""};
	auto H = [&](u32 c) { return hx(c, (st.flags & 256) && r.pct(30)); };
	auto semi = [&]() -> std::string {
		if (!(st.flags & 1)) return f == F_UD ? ";" : "; ";
		if (f == F_UD) return ";";
		return std::string(r.below(10), ' ') + ";" + std::string(r.below(5), ' ');
	};
	auto comment = [&](int gc, bool must) -> std::string {
		if (f == F_UD) return "";
		if ((st.flags & 128) && !must && r.pct(50)) return r.pct(50) ? "" : "   ";
		std::string s = std::string(r.below(3), ' ') + "#" + std::string(must ? 1 : r.below(3), ' ') + gcs[(size_t)gc] + " ";
		if (r.pct(50)) s += "      NAME OF CHARACTER";
		if ((st.flags & 4) && r.pct(30)) { static const char *const odd[] = {"  [6] A; B # C..D", " 0041..005A    ; Extend # L&", " # # ;;;", " \xC3\x97 \xF0\x9F\x98\x80", " ", " L R AL"}; s += odd[r.below(6)]; }
		if ((st.flags & 2) && r.pct(15)) { static const int L[] = {400, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 600, 1000, 1020, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8191, 8192, 8193, 8200, 16400, 65600}; size_t want = (size_t)L[r.below(r.pct(99) ? 31 : 32)]; while (s.size() < want) s += (char)('A' + (s.size() % 26)); }
		return s;
	};
	for (auto &x : fs) {
		if (x.f != f) continue;
		switch (f) {
		case F_UD: {
			std::string s = H(x.lo) + ";NAME OF " + hx(x.lo, false) + ((st.flags & 2) && r.pct(5) ? std::string(r.pct(90) ? 400 + r.below(1700) : r.pct(90) ? 4000 + r.below(9000) : 65400 + r.below(300), 'N') : "") + ";" + gcs[(size_t)x.gc] + ";0;L;";
			if (x.dec >= 0) { if (x.tag == 1) s += r.pct(50) ? "<compat> " : "<super> "; s += hx((u32)x.dec, false); if (x.tag == 2) s += " 0301"; }
			s += ";;;;N;;;";
			if (x.up >= 0) s += H((u32)x.up);
			s += ";";
			if (x.low >= 0) s += H((u32)x.low);
			s += ";";
			if (x.ti >= 0) s += H((u32)x.ti);
			lines.push_back(s);
			break;
		}
		case F_SC: {
			std::string s = H(x.lo);
			for (int k = 0; k < 3; k++) { s += semi(); for (size_t i = 0; i < x.l[k].size(); i++) s += (i ? " " : "") + H(x.l[k][i]); }
			if (x.cond) { static const char *const cn[] = {"Final_Sigma", "tr", "lt More_Above", "az Not_Before_Dot"}; s += semi() + cn[r.below(4)]; }
			s += ";" + std::string(r.below(2), ' ') + comment(0, false);
			lines.push_back(s);
			break;
		}
		case F_BB: lines.push_back(H(x.lo) + semi() + H(x.pair) + semi() + std::string(1, x.type) + comment(0, false)); break;
		case F_BM: lines.push_back(H(x.lo) + semi() + H(x.pair) + comment(0, false)); break;
		case F_TC: case F_TW: case F_TS: case F_TL: {
			auto gap = [&]() { return std::string((st.flags & 1) && r.pct(20) ? 1 + r.below(3) : 1, ' '); };
			std::string s = x.cond ? "\xC3\x97" : "\xC3\xB7";
			size_t at = 0, seg = 0;
			for (u32 v : x.l[0]) { s += gap() + H(v) + gap(); if (++at == x.l[1][seg]) { s += seg + 1 == x.l[1].size() && x.tag ? "" : "\xC3\xB7"; at = 0; seg++; } else s += "\xC3\x97"; }
			if (x.text.size()) s += (r.pct(70) && !x.tag ? "\t#" : " #") + std::string(r.below(3), ' ') + x.text;
			lines.push_back(s);
			break;
		}
		case F_BT: case F_BCT: {
			std::string lv, ro, cl;
			for (u32 v : x.l[1]) lv += (lv.empty() ? "" : " ") + (v == NCP ? "x" : std::to_string(v));
			for (u32 v : x.l[2]) ro += (ro.empty() ? "" : " ") + std::to_string(v);
			for (u32 v : x.l[0]) cl += (cl.empty() ? "" : " ") + (f == F_BT ? names[F_BC][v] : H(v));
			if (f == F_BCT) { lines.push_back(cl + ";" + std::to_string(x.gc) + ";" + std::to_string(x.tag) + ";" + lv + ";" + ro); break; }
			if (lv != last[0] || r.pct(10)) lines.push_back("@Levels:" + std::string(r.pct(50) ? "\t" : " ") + lv);
			if (ro != last[1] || r.pct(10)) lines.push_back("@Reorder:" + std::string(r.pct(50) ? "\t" : " ") + ro);
			last[0] = lv; last[1] = ro;
			lines.push_back(cl + "; " + std::to_string(x.gc));
			break;
		}
		default: {
			if (x.cls < 0) break;
			u32 a = x.lo;
			for (;;) {
				u32 b = x.hi;
				if ((st.flags & 64) && a < b && r.pct(50)) b = a + (u32)r.below(std::min<u32>(b - a + 1, r.pct(50) ? 4 : 0x110000));
				std::string s = H(a);
				if (b != a || ((st.flags & 64) && r.pct(5))) s += ".." + H(b);
				std::string cm = comment(x.gc, f == F_LB);
				lines.push_back(s + semi() + names[f][(size_t)x.cls] + (cm.empty() || cm[0] == ' ' || !r.pct(30) ? cm : " " + cm));
				if (b == x.hi) break;
				a = b + 1;
			}
		}
		}
	}
	if ((st.flags & 32) && f < F_TC) for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[r.below(i)]);
	std::string o;
	if (f != F_UD && r.pct(50)) o += "# SyntheticData-15.0.0.txt\n#\n\n";
	for (auto &l : lines) {
		if (f != F_UD && (st.flags & 8) && r.pct(20)) { static const char *const nz[] = {"\n", "\n\n", "# Total code points: 12\n", "# @missing: 0000..10FFFF; Other\n", "#\n", "#0041; CR\n"}; o += nz[r.below(6)]; }
		o += l + "\n";
	}
	if ((st.flags & 16) && o.size() && r.pct(80)) o.pop_back();
	return o;
}

// ---------------------------------------------------------------- plan -> database
// OP_MODE a = {generator, base (0 synthetic, 1 real files as they are, 2 facts of the real files rewritten), style seed, style flags, chunk seed, read chunk, write chunk, buffering, subset per mille}
// OP_FILE a = {file, lo, hi, cls, gc, kind/extra..., stride count, stride}; t = lists
// OP_FAULT a = {kind, mode, n, errno index, persistent}
static int errno_of(int kind, i64 i)
{
	static const int E[NFK][4] = {{ENOENT, EMFILE, EACCES, EIO}, {EIO, EINTR, ESTALE, EIO}, {EIO, EDQUOT, EIO, EINTR}, {EIO, EPIPE, EINTR, EFBIG}, {ENOSPC, EDQUOT, ENOSPC, EFBIG}, {EIO, ENOSPC, EDQUOT, EIO}, {ENOMEM, ENOMEM, ENOMEM, ENOMEM}, {0}, {0}};
	return E[kind][(size_t)(i & 3)];
}
static bool overlaps(const Facts &fs, const Fact &x, bool (*same)(const Fact &, const Fact &))
{
	for (auto &y : fs) if (same(x, y) && x.lo <= y.hi && y.lo <= x.hi) return true;
	return false;
}
static int lbc(const char *n) { return idx_of(names[F_LB], n); }
static Facts facts_of(const Plan &p, int g)
{
	Facts fs;
	size_t npair = 0;
	std::set<u32> brk;
	for (auto &o : p.ops) {
		if (o.k != OP_FILE) continue;
		int f = (int)o.arg(0);
		if (std::find(gen_files[g].begin(), gen_files[g].end(), f) == gen_files[g].end()) continue;
		auto cp = [](i64 v) { return (u32)std::min<i64>(std::max<i64>(v, 0), 0x10FFFF); };
		auto opt = [](i64 v) { return v < 0 || v > 0x10FFFF ? (i64)-1 : v; };
		i64 reps = 1, step = 0;
		if (f == F_UD) { reps = std::max<i64>(1, std::min<i64>(o.arg(8, 1), 4000)); step = std::max<i64>(1, o.arg(9, 1)); }
		if (names[f].size()) { reps = std::max<i64>(1, std::min<i64>(o.arg(5, 1), 5000)); step = std::max<i64>(1, o.arg(6, 1)); }
		for (i64 k = 0; k < reps; k++) {
			Fact x;
			x.f = f;
			x.lo = cp(o.arg(1));
			switch (f) {
			case F_UD:
				if ((u64)x.lo + (u64)k * (u64)step > 0x10FFFF) break;
				x.lo += (u32)(k * step); // a series of characters: mappings drift by arg(10) each
				x.hi = x.lo;
				x.gc = (int)(o.arg(2) % (i64)gcs.size());
				x.dec = opt(o.arg(3, -1)); x.tag = (int)o.arg(4) % 3; x.up = opt(o.arg(5, -1)); x.low = opt(o.arg(6, -1)); x.ti = opt(o.arg(7, -1));
				if (k) for (i64 *v : {&x.up, &x.low, &x.ti}) if (*v >= 0) *v = opt(*v + k * (step + o.arg(10)));
				if (g == G_BIDI && (brk.count(x.lo))) continue; // brackets bring their own line
				if (!overlaps(fs, x, +[](const Fact &a, const Fact &b) { return b.f == a.f; })) fs.push_back(x);
				break;
			case F_SC: {
				x.hi = x.lo;
				x.cond = o.arg(2) != 0;
				size_t n1 = std::min<size_t>(o.t.size(), (size_t)std::max<i64>(0, o.arg(3))), n2 = std::min<size_t>(o.t.size() - n1, (size_t)std::max<i64>(0, o.arg(4)));
				x.l[0].assign(o.t.begin(), o.t.begin() + (long)n1);
				x.l[1].assign(o.t.begin() + (long)n1, o.t.begin() + (long)(n1 + n2));
				x.l[2].assign(o.t.begin() + (long)(n1 + n2), o.t.end());
				for (auto &l : x.l) for (auto &v : l) v = cp(v);
				if (!x.cond && (x.l[0].empty() || x.l[1].empty() || x.l[2].empty())) break;
				if (x.cond || !overlaps(fs, x, +[](const Fact &a, const Fact &b) { return b.f == a.f && !b.cond; })) fs.push_back(x);
				break;
			}
			case F_BM:
				x.hi = x.lo;
				x.pair = cp(o.arg(2));
				if (!overlaps(fs, x, +[](const Fact &a, const Fact &b) { return b.f == a.f; })) fs.push_back(x);
				break;
			case F_BB: {
				if (npair >= 60) break;
				Cps m = {x.lo, cp(o.arg(2))};
				for (size_t i = 0; i + 1 < o.t.size() && i < 36; i += 2) { m.push_back(cp(o.t[i])); m.push_back(cp(o.t[i + 1])); }
				std::set<u32> u(m.begin(), m.end());
				bool bad = u.size() != m.size();
				for (u32 v : m) bad |= brk.count(v) != 0 || v == 0; // U+0000 is a control for good
				if (bad) break;
				for (auto &y : fs) if (y.f == F_UD && u.count(y.lo)) bad = true;
				if (bad) break;
				npair++;
				for (u32 v : m) brk.insert(v);
				// o.arg(3): bit i set - list the alias pair i before the canonical pair
				std::vector<size_t> order;
				for (size_t i = 0; i < m.size(); i += 2) if (i && (o.arg(3) >> (i / 2) & 1)) order.insert(order.begin(), i); else order.push_back(i);
				for (size_t i : order)
					for (int side = 0; side < 2; side++) {
						Fact y;
						y.f = F_BB;
						y.lo = y.hi = m[i + (size_t)side];
						y.pair = m[i + (size_t)!side];
						y.type = side ? 'c' : 'o';
						fs.push_back(y);
						Fact z; // every bracket is a character of the database
						z.f = F_UD;
						z.lo = z.hi = y.lo;
						z.gc = 5;
						if (i) z.dec = m[(size_t)side];
						else if (o.arg(4) & 1) { z.dec = 'a'; z.tag = 1; }
						fs.push_back(z);
					}
				break;
			}
			case F_TC: case F_TW: case F_TS: case F_TL: {
				// a = {file, comment and first mark, segment lengths...}
				for (u32 v : o.t) x.l[0].push_back(std::min<u32>(v, 0x10FFFF));
				if (x.l[0].empty()) break;
				size_t left = x.l[0].size();
				for (size_t i = 2; i < o.a.size() && left; i++) { size_t m = (size_t)std::min<i64>(std::max<i64>(1, o.a[i]), (i64)left); x.l[1].push_back((u32)m); left -= m; }
				if (left) x.l[1].push_back((u32)left);
				x.cond = (int)(o.arg(1) & 1);
				x.tag = (o.arg(1) & 31) == 2; // nothing behind the last codepoint
				Rng q(mix64((u64)o.arg(1)));
				if (q.pct(80)) {
					x.text = q.pct(50) ? "\xC3\xB7 [0.2] SPACE (Other) \xC3\x97 [4.0] " : "NUMBER SIGN (AL)";
					if (q.pct(20)) { static const char *const odd[] = {"# x ; y", "100%d %s", "  ;", "<LINE FEED (LF)> (LF)", "0041 \xC3\xB7"}; x.text += odd[q.below(5)]; }
					if (q.pct(8)) x.text += std::string(300 + q.below(1600), 'C');
					else if (q.pct(3)) { static const u32 L[] = {512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}; x.text += std::string(L[q.below(8)] - 60 + q.below(80), 'D'); }
					x.text += ".";
				}
				fs.push_back(x);
				break;
			}
			case F_BT: case F_BCT: {
				// a = {file, direction(s), seed of levels and order}; t = classes or codepoints
				for (u32 v : o.t) x.l[0].push_back(f == F_BT ? v % (u32)names[F_BC].size() : std::min<u32>(v, 0x10FFFF));
				if (x.l[0].size() > 900) x.l[0].resize(900);
				if (x.l[0].empty()) break;
				static const int bits[] = {2, 3, 4, 5, 7};
				x.gc = f == F_BT ? bits[(u64)o.arg(1) % 5] : (int)((u64)o.arg(1) % 3);
				x.tag = (int)((u64)o.arg(1) / 8 & 1);
				Rng q(mix64((u64)o.arg(2)));
				unsigned top = q.pct(60) ? 3 : q.pct(50) ? 12 : 128;
				for (size_t i = 0; i < x.l[0].size(); i++) {
					bool drop = q.pct(12) && !(f == F_BCT && i == 0);
					x.l[1].push_back(drop ? NCP : (u32)q.below(top));
					if (!drop) x.l[2].push_back((u32)i);
				}
				for (size_t i = x.l[2].size(); i > 1; i--) std::swap(x.l[2][i - 1], x.l[2][q.below(i)]);
				fs.push_back(x);
				break;
			}
			default: {
				u32 w = (u32)std::max<i64>(0, o.arg(2) - o.arg(1));
				if ((u64)x.lo + (u64)k * (u64)step > 0x10FFFF) break;
				x.lo = x.lo + (u32)(k * step);
				x.hi = (u32)std::min<u64>((u64)x.lo + w, 0x10FFFF);
				x.cls = (int)((u64)o.arg(3) % names[f].size());
				x.gc = (int)((u64)o.arg(4) % gcs.size());
				if (f == F_LB) { // unassigned codepoints are only listed as ID, or PR in the currency block
					if (x.gc == GC_CN) {
						bool cur = x.lo >= 0x20A0 && x.hi <= 0x20CF, touch = x.lo <= 0x20CF && x.hi >= 0x20A0;
						if (cur) x.cls = lbc("PR"); else if (touch) x.gc = 0; else x.cls = lbc("ID");
					}
					if (x.cls == lbc("XX")) x.gc = idx_of(gcs, "Co"); // private use, UAX #14
					if (x.cls == lbc("SG")) x.gc = idx_of(gcs, "Cs"); // surrogates
				} else if (x.gc == GC_CN) x.gc = 0;
				bool clash;
				if (f == F_DCP || f == F_EMOJI) clash = overlaps(fs, x, +[](const Fact &a, const Fact &b) { return b.f == a.f && b.cls == a.cls; });
				else clash = overlaps(fs, x, +[](const Fact &a, const Fact &b) { return b.f == a.f; });
				// properties that the database keeps apart
				if (g == G_CHAR && x.cls == 0 && f == F_EMOJI) clash |= overlaps(fs, x, +[](const Fact &, const Fact &b) { return b.f == F_GCB; });
				if (g == G_CHAR && f == F_GCB) clash |= overlaps(fs, x, +[](const Fact &, const Fact &b) { return b.f == F_EMOJI && b.cls == 0; });
				if (g == G_WORD && x.cls == 0 && f == F_EMOJI) clash |= overlaps(fs, x, +[](const Fact &, const Fact &b) { return b.f == F_WB && b.cls != 0; });
				if (g == G_WORD && f == F_WB && x.cls != 0) clash |= overlaps(fs, x, +[](const Fact &, const Fact &b) { return b.f == F_EMOJI && b.cls == 0; });
				if (g == G_LINE && x.cls == 0 && f == F_EMOJI) clash |= overlaps(fs, x, +[](const Fact &, const Fact &b) { return b.f == F_LB && b.cls == lbc("SA"); });
				if (g == G_LINE && f == F_LB && x.cls == lbc("SA")) clash |= overlaps(fs, x, +[](const Fact &, const Fact &b) { return b.f == F_EMOJI && b.cls == 0; });
				if (!clash) fs.push_back(x);
			}
			}
		}
	}
	return fs;
}
// facts of the real files, a subset chosen by hash
static Facts real_subset(int g, u64 seed, unsigned permille)
{
	Facts fs;
	std::set<u32> need; // brackets kept: their pair, canonical forms and UnicodeData lines stay
	if (g == G_BIDI) {
		std::map<u32, u32> canon;
		for (auto &x : real_facts(F_UD)) if (x.dec >= 0 && !x.tag) canon[x.lo] = (u32)x.dec;
		auto can = [&](u32 c) { auto i = canon.find(c); return i == canon.end() ? c : i->second; };
		for (auto &x : real_facts(F_BB)) {
			u32 o = can(x.type == 'o' ? x.lo : x.pair);
			if (mix64(seed ^ o) % 1000 < permille) { fs.push_back(x); need.insert(x.lo); }
		}
	}
	for (int f : gen_files[g]) {
		if (f == F_BB) continue;
		u64 i = 0;
		for (auto &x : real_facts(f)) {
			i++;
			if (mix64(mix64(seed + (u64)f) + i) % 1000 < permille || (f == F_UD && need.count(x.lo))) fs.push_back(x);
		}
	}
	return fs;
}

struct Setup {
	int g, base, bufmode;
	u64 chunk;
	u32 cmax, wmax;
	Style st;
	Facts fs;
	Disk disk;
};
static void setup(const Plan &p, Setup &s)
{
	Op mode;
	for (auto &o : p.ops) if (o.k == OP_MODE) mode = o;
	s.g = (int)((u64)mode.arg(0) % NGA);
	s.base = (int)((u64)mode.arg(1) % 3);
	s.st = Style{(u64)mode.arg(2), (unsigned)mode.arg(3)};
	s.chunk = (u64)mode.arg(4);
	s.cmax = (u32)mode.arg(5);
	s.wmax = (u32)mode.arg(6);
	s.bufmode = (int)mode.arg(7);
	if (s.base == 0) s.fs = facts_of(p, s.g);
	else if (s.g < NG) s.fs = real_subset(s.g, (u64)mode.arg(2), s.base == 1 ? 1000 : (unsigned)std::max<i64>(1, std::min<i64>(1000, mode.arg(8, 100))));
	if (s.g >= NG) { // the bidirectional test files are not shipped
		if (s.g == T_BIDI) s.base = 0;
		if (s.base) { s.base = 1; int f = gen_files[s.g][0]; s.fs = read_tests(f, real_bytes(f)); }
	}
	for (int f : gen_files[s.g]) s.disk.f[file_name[f]] = s.base == 1 ? real_bytes(f) : render(f, s.fs, s.st);
	if (s.base == 1) s.disk.f = [&] { std::map<std::string, std::string> m; for (int f : gen_files[s.g]) m[file_name[f]] = real_bytes(f); return m; }();
}
static std::string disk_key(const Setup &s)
{
	u64 h = (u64)s.g + 77;
	for (auto &f : s.disk.f) for (char ch : f.second) h = (h ^ (u8)ch) * 0x100000001B3ull;
	return std::to_string(h) + "/" + std::to_string(s.g);
}

// ---------------------------------------------------------------- C20
static void exec_c20(const Plan &p, Ctx &c)
{
	Setup s;
	setup(p, s);
	Result r = run_gen(c, s.g, s.disk, {}, s.chunk, s.cmax, s.wmax, s.bufmode);
	if (r.runaway) c.fail("runaway", "generator %s does not finish", gen_name[s.g]);
	if (!r.exited || r.status) c.fail("exit", "generator %s ends with %s on a well-formed database and no fault", gen_name[s.g], r.str().c_str());
	if (r.heapbad) c.fail("heap", "generator %s damages its heap", gen_name[s.g]);
	auto t = std::make_unique<Truth>();
	truth(s.g, s.fs, *t);
	compare(c, s.g, r.out, *t);
	c.count(P_BREAKS);
	// states: generator, class, and where its ranges lie in the blocks
	for (auto &x : s.fs) {
		u32 n = x.hi - x.lo;
		c.state(mix64((u64)s.g << 32 | (u64)(x.cls + 1) << 20 | (u64)x.f << 12 | ((x.lo & 255) == 0) << 1 | ((x.hi & 255) == 255) << 2 | (n == 0) << 3 | (n > 255) << 4 | (x.lo == 0) << 5 | (x.hi == 0x10FFFF) << 6 | (u64)s.base << 8 | (s.st.flags & 96) << 24));
	}
}

// ---------------------------------------------------------------- C21
static void exec_c21(const Plan &p, Ctx &c)
{
	Setup s;
	setup(p, s);
	if (s.g < NG) return;
	Result r = run_gen(c, s.g, s.disk, {}, s.chunk, s.cmax, s.wmax, s.bufmode);
	if (r.runaway) c.fail("runaway", "generator %s does not finish", gen_name[s.g]);
	if (!r.exited || r.status) c.fail("exit", "generator %s ends with %s on well-formed tests and no fault", gen_name[s.g], r.str().c_str());
	if (r.heapbad) c.fail("heap", "generator %s damages its heap", gen_name[s.g]);
	compare_tests(c, s.g, r.out, s.fs);
	for (auto &x : s.fs) c.state(mix64((u64)s.g << 48 | (u64)std::min<size_t>(x.l[0].size(), 60) << 40 | (u64)std::min<size_t>(x.l[1].size(), 60) << 32 | (x.l[1].size() && x.l[1][0] == x.l[0].size()) << 1 | (u64)std::min<size_t>(x.text.size() / 64, 31) << 8 | (u64)s.base << 4 | (u64)x.cond | (u64)x.gc << 16 | (u64)(s.st.flags & 3) << 24));
	c.count(P_BREAKS);
}

// ---------------------------------------------------------------- C22
// Damage to the stored data. A spot is a codepoint, range or list that the
// generator needs: [b, e) in its line.
struct Spot { size_t line, b, e; bool range, list, must; };
struct Page { // a data file as lines
	std::vector<std::string> l;
	explicit Page(const std::string &s)
	{
		size_t i = 0;
		while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); l.push_back(s.substr(i, j - i)); i = j + 1; }
	}
	std::string join() const { std::string o; for (auto &x : l) o += x + "\n"; return o; }
};
struct Field { size_t b, e; };
static std::vector<Field> fields_of(const std::string &l)
{
	std::vector<Field> v;
	size_t end = std::min(l.find('#'), l.size()), i = 0;
	for (;;) {
		size_t j = std::min(l.find(';', i), end), b = i, e = j;
		while (b < e && l[b] == ' ') b++;
		while (e > b && l[e - 1] == ' ') e--;
		v.push_back({b, e});
		if (j >= end) break;
		i = j + 1;
	}
	return v;
}
static void spots_of(int g, int f, const Page &pg, std::vector<Spot> &out)
{
	for (size_t k = 0; k < pg.l.size(); k++) {
		const std::string &l = pg.l[k];
		if (l.empty() || l[0] == '#') continue;
		std::vector<Field> q = fields_of(l);
		auto add = [&](size_t i, bool range, bool list, bool must) { if (i < q.size() && q[i].b < q[i].e) out.push_back({k, q[i].b, q[i].e, range, list, must}); };
		switch (f) {
		case F_UD:
			add(0, false, false, true);
			if (g == G_CASE) for (size_t i = 12; i < 15; i++) add(i, false, false, false);
			break;
		case F_SC:
			if (q.size() > 4 && q[4].b < q[4].e) break;
			add(0, false, false, true);
			for (size_t i = 1; i < 4; i++) add(i, false, true, false);
			break;
		case F_BB: add(0, false, false, true); add(1, false, false, true); break;
		case F_BM: add(0, false, false, true); add(1, false, false, false); break;
		case F_TC: case F_TW: case F_TS: case F_TL:
			for (size_t i = q[0].b; i < q[0].e;) {
				size_t j = i;
				while (j < q[0].e && l[j] != ' ' && l[j] != '\t') j++;
				if (j > i && isxdigit((unsigned char)l[i])) out.push_back({k, i, j, false, false, false});
				i = j + 1;
			}
			break;
		default: {
			if (q.size() < 2) break;
			std::string n = l.substr(q[1].b, q[1].e - q[1].b);
			bool used = f == F_EMOJI ? n == "Extended_Pictographic" : f == F_EAW ? n == "H" || n == "W" || n == "F" : f == F_DCP ? n == "Cased" || n == "Case_Ignorable" : f == F_LB ? n != "SG" && n != "XX" : true;
			if (used) add(0, true, false, true);
		}
		}
	}
}
enum { DM_DIGIT, DM_LONG, DM_LARGE, DM_EMPTY, DM_REVERSE, DM_FIELDS, DM_TYPE, DM_MARK, DM_CLASH, DM_NOISE, NDM };
static const char *const dm_name[NDM] = {"a digit that is none", "too many digits", "a value above 10FFFF", "an empty codepoint", "a reversed range", "missing fields", "an unknown bracket type", "an unknown mark", "another line claims a different class", "noise"};
// apply one damage; returns what was done, or nothing
static std::string damage(Setup &s, const Op &o)
{
	auto A = [&](size_t i) { return (u64)std::max<i64>(0, o.arg(i)); };
	const std::vector<int> &fl = gen_files[s.g];
	int f = fl[A(0) % fl.size()], kind = (int)(A(3) % NDM);
	std::string &bytes = s.disk.f[file_name[f]];
	if (kind == DM_NOISE) {
		if (bytes.empty()) return "";
		size_t at = (size_t)(mix64(A(1)) % bytes.size());
		bytes[at] = (char)(A(5) & 255);
		return "noise";
	}
	if (f == F_UD && s.g == G_BIDI) { // only read for the brackets
		Page bb(s.disk.f[file_name[F_BB]]);
		std::vector<Spot> sp;
		spots_of(s.g, F_BB, bb, sp);
		if (sp.empty()) return "";
	}
	Page pg(bytes);
	std::vector<Spot> sp;
	spots_of(s.g, f, pg, sp);
	if (sp.empty()) return "";
	Spot x = sp[A(1) % sp.size()];
	std::string &l = pg.l[x.line];
	std::string before = l;
	// the codepoint within the spot
	struct { size_t b, e; } cp = {x.b, x.e};
	std::string t = l.substr(x.b, x.e - x.b);
	size_t dd = x.range ? t.find("..") : std::string::npos;
	if (dd != std::string::npos) { if (A(2) & 1) cp.b = x.b + dd + 2; else cp.e = x.b + dd; }
	if (x.list) {
		std::vector<size_t> sep = {x.b};
		for (size_t i = x.b; i < x.e; i++) if (l[i] == ' ') sep.push_back(i + 1);
		size_t k = A(2) % sep.size();
		cp.b = sep[k];
		cp.e = k + 1 < sep.size() ? sep[k + 1] - 1 : x.e;
	}
	auto put = [&](size_t b, size_t e, const std::string &n) { l = l.substr(0, b) + n + l.substr(e); };
	static const char none[] = "GZgzOolx_-+*,:/@?!`'\"\\\x01\x7F\x80\xC3\xFF|~^[]()=";
	char b[24];
	switch (kind) {
	case DM_DIGIT:
		if (mix64(A(4)) % 4 == 0) { put(cp.b, cp.e, std::string(1, none[A(5) % (sizeof none - 1)])); break; } // nothing but it
		put(cp.b + A(4) % (cp.e - cp.b), cp.b + A(4) % (cp.e - cp.b) + 1, std::string(1, none[A(5) % (sizeof none - 1)])); break;
	case DM_LONG: {
		static const char *const L[] = {"1", "10", "100", "1000", "100000", "10000000000"};
		std::string v = l.substr(cp.b, cp.e - cp.b);
		while (v.size() < 6) v = "0" + v;
		put(cp.b, cp.e, L[A(4) % 6] + v);
		break;
	}
	case DM_LARGE: snprintf(b, sizeof b, A(5) & 1 ? "%06X" : "%06x", 0x110000 + (u32)(A(4) % 3 == 0 ? 0 : mix64(A(4)) % (0x1000000 - 0x110000))); put(cp.b, cp.e, b); break;
	case DM_EMPTY: if (!x.must) return ""; put(cp.b, cp.e, ""); break;
	case DM_REVERSE: {
		if (dd == std::string::npos) return "";
		std::string lo = t.substr(0, dd), hi = t.substr(dd + 2);
		if (strtoul(lo.c_str(), 0, 16) == strtoul(hi.c_str(), 0, 16)) return "";
		put(x.b, x.e, hi + ".." + lo);
		break;
	}
	case DM_FIELDS: { // the line ends too early
		size_t need = f == F_UD ? (s.g == G_CASE ? 14 : 1) : f == F_SC ? 4 : f == F_BB || f == F_BM || f >= F_TC ? 1 : 2;
		std::vector<Field> q = fields_of(l);
		if (need < 2 || q.size() < need) return "";
		size_t k = A(5) & 1 ? need - 1 : 1 + A(4) % (need - 1);
		l = l.substr(0, q[k - 1].e);
		break;
	}
	case DM_TYPE: {
		std::vector<Field> q = fields_of(l);
		if (f != F_BB || q.size() < 3) return "";
		static const char *const T[] = {"x", "n", "oc", "O", "0", "co", "\xC3\xB7"};
		put(q[2].b, q[2].e, T[A(4) % 7]);
		break;
	}
	case DM_MARK: { // the mark behind the codepoint
		if (f < F_TC) return "";
		size_t i = x.e;
		while (i < l.size() && l[i] == ' ') i++;
		if (i + 1 >= l.size() || (u8)l[i] != 0xC3) return "";
		static const char *const T[] = {"+", "x", "\xC3\x98", "\xC3", "0020", "|", "/", "\xC2\xB7"};
		put(i, i + 2, T[A(4) % 8]);
		break;
	}
	case DM_CLASH: { // a second line puts one of the codepoints into another class
		if (f != F_GCB && f != F_WB && f != F_SB && f != F_LB && f != F_BC) return "";
		std::vector<Field> q = fields_of(l);
		if (q.size() < 2) return "";
		size_t hash = l.find('#');
		std::string old = l.substr(q[1].b, q[1].e - q[1].b), gc = hash == std::string::npos ? "" : l.substr(hash + 1, 4), lo = t.substr(0, dd);
		auto odd = [](const std::string &n) { return n == "SA" || n == "SG" || n == "XX"; };
		if (f == F_LB && (odd(old) || gc.find("Cn") != std::string::npos || gc.find("Mn") != std::string::npos || gc.find("Mc") != std::string::npos)) return "";
		const std::string &other = names[f][A(4) % names[f].size()];
		if (other == old || (f == F_LB && odd(other))) return "";
		if (std::find(names[f].begin(), names[f].end(), old) == names[f].end()) return "";
		u64 a = strtoul(lo.c_str(), 0, 16), z = dd == std::string::npos ? a : strtoul(t.substr(dd + 2).c_str(), 0, 16), at = a + mix64(A(5)) % (z - a + 1);
		snprintf(b, sizeof b, "%04llX ; ", (unsigned long long)at);
		std::string line = b + other + " # Lo X", what = std::string(file_name[f]) + ": \"" + before.substr(0, 60) + "\" is followed by \"" + line + "\" (" + dm_name[kind] + ")";
		size_t where = A(2) & 1 ? x.line + (A(2) >> 1 & 1) : mix64(A(5) + 7) % (pg.l.size() + 1);
		pg.l.insert(pg.l.begin() + (long)where, line);
		bytes = pg.join();
		return what;
	}
	}
	std::string what = std::string(file_name[f]) + ": \"" + before.substr(0, 60) + "\" became \"" + l.substr(0, 60) + "\" (" + dm_name[kind] + ")";
	bytes = pg.join();
	return what;
}
static void exec_c22(const Plan &p, Ctx &c)
{
	Setup s;
	setup(p, s);
	if (s.g == T_BIDI) return; // not part of the property
	std::string what;
	bool noise = false;
	int kind = -1;
	for (auto &o : p.ops) {
		if (o.k != OP_FAULT) continue;
		std::string w = damage(s, o);
		if (w.empty()) continue;
		if (w == "noise") noise = true;
		else { what = w; kind = (int)o.arg(3); break; } // later damage could undo it
		c.count(F_CORRUPT);
	}
	if (what.empty() && !noise) return;
	if (what.size()) { c.count(F_CORRUPT); c.log("%s", what.c_str()); }
	Result r = run_gen(c, s.g, s.disk, {}, s.chunk, s.cmax, s.wmax, s.bufmode);
	c.count(S_CHECKS);
	if (r.runaway) c.fail("runaway", "generator %s does not finish on damaged data: %s", gen_name[s.g], what.c_str());
	if (r.heapbad) c.fail("heap", "generator %s damages its heap on damaged data: %s", gen_name[s.g], what.c_str());
	if (!r.exited && r.sig != SIGABRT) c.fail("crash", "generator %s ends with %s on damaged data: %s", gen_name[s.g], r.str().c_str(), what.c_str());
	if (what.size() && !noise && r.exited && !r.status) c.fail("accepted", "generator %s exits successfully although %s", gen_name[s.g], what.c_str());
	c.state(mix64((u64)s.g << 40 | (u64)(kind + 1) << 32 | (u64)noise << 50 | (u64)r.exited << 8 | (u64)r.status << 9 | (u64)s.base << 20 | mix64(std::hash<std::string>()(what.substr(0, 20)) & 1023) << 52));
}

// ---------------------------------------------------------------- C19
struct Ref { std::string out; u64 cnt[NFK]; std::vector<std::vector<u64>> site; };
static void exec_c19(const Plan &p, Ctx &c)
{
	Setup s;
	setup(p, s);
	static std::map<std::string, std::shared_ptr<Ref>> cache;
	std::string key = disk_key(s);
	std::shared_ptr<Ref> ref;
	auto it = cache.find(key);
	if (it != cache.end()) ref = it->second;
	else {
		Ctx quiet; // the undisturbed run: contiguous reads, default buffering
		quiet.st = c.st;
		Result r = run_gen(quiet, s.g, s.disk, {}, 0, 0, 0, 0);
		if (r.runaway) c.fail("runaway", "generator %s does not finish", gen_name[s.g]);
		if (!r.exited || r.status) c.fail("exit", "generator %s ends with %s although nothing fails", gen_name[s.g], r.str().c_str());
		if (r.heapbad) c.fail("heap", "generator %s damages its heap", gen_name[s.g]);
		ref = std::make_shared<Ref>();
		ref->out = r.out;
		u64 cnt[NFK] = {r.opens, r.reads, r.closes, r.writes, r.out.size(), 1, r.allocs, 0, 0};
		memcpy(ref->cnt, cnt, sizeof cnt);
		ref->site.resize(M->nsites);
		for (u64 k = 0; k < M->nsited; k++) if (M->site_of[k] < ref->site.size()) ref->site[M->site_of[k]].push_back(k);
		if (cache.size() > 40) cache.clear();
		cache[key] = ref;
	}
	for (char ch : ref->out.substr(0, 64)) c.ev((u8)ch);
	std::vector<Fault> fl;
	for (auto &o : p.ops) {
		if (o.k != OP_FAULT) continue;
		Fault f;
		f.kind = (int)((u64)o.arg(0) % NFK);
		if (f.kind >= FK_SHORTREAD) continue;
		u64 cnt = ref->cnt[f.kind];
		// the operation counts of the undisturbed run scale with the delivery
		if (f.kind == FK_READ && s.cmax) cnt = std::max<u64>(cnt, (u64)(2 * s.disk.f.begin()->second.size() / (s.cmax + 1)));
		if (f.kind == FK_WRITE && (s.wmax || s.bufmode == 1)) cnt = std::max<u64>(cnt, ref->out.size() / (s.wmax ? (s.wmax + 1) / 2 + 1 : 64));
		u64 n = (u64)std::max<i64>(0, o.arg(2));
		switch (o.arg(1) & 3) {
		case 3: { // the n-th allocating call path: its first, last or some other allocation
			if (ref->site.empty()) { f.n = n; break; }
			auto &q = ref->site[n % ref->site.size()];
			u64 w = (u64)std::max<i64>(0, o.arg(5));
			f.n = w == 0 ? q.front() : w == 1 ? q.back() : q[w % q.size()];
			break;
		}
		case 0: f.n = n; break;
		case 1: f.n = cnt * (n % 1001) / 1000; break;
		default: f.n = cnt > n ? cnt - 1 - n : 0; break;
		}
		f.err = errno_of(f.kind, o.arg(3));
		f.persist = o.arg(4) != 0;
		fl.push_back(f);
	}
	Result r = run_gen(c, s.g, s.disk, fl, s.chunk, s.cmax, s.wmax, s.bufmode);
	c.count(S_CHECKS);
	std::string what;
	int worst = -1;
	for (int k = 0; k < FK_SHORTREAD; k++) if (r.hit[k]) { what += (what.empty() ? "" : ", ") + std::string(fk_name[k]); if (k != FK_CLOSE) worst = k; }
	if (r.runaway) c.fail("runaway", "generator %s does not finish after: %s", gen_name[s.g], what.empty() ? "short transfers" : what.c_str());
	bool ok = r.exited && r.status == 0;
	bool same = r.out == ref->out;
	if (worst >= 0 && ok && s.g == T_BIDI && !r.hit[FK_OPEN] && !r.hit[FK_READ] && !r.hit[FK_ALLOC]) { // listed finding C19-K1: only the writing failed
		c.known.push_back("C19-K1");
		c.count(P_KNOWN);
		return;
	}
	if (worst >= 0 && ok) c.fail("silent", "generator %s exits successfully although this happened: %s; its output is %s (%zu of %zu bytes)", gen_name[s.g], what.c_str(), same ? "complete" : "damaged", r.out.size(), ref->out.size());
	if (ok && !same) {
		size_t d = 0;
		while (d < r.out.size() && d < ref->out.size() && r.out[d] == ref->out[d]) d++;
		c.fail("differs", "generator %s exits successfully with different output (first difference at byte %zu, %zu of %zu bytes)%s%s", gen_name[s.g], d, r.out.size(), ref->out.size(), what.empty() ? "" : " after: ", what.c_str());
	}
	if (what.empty() && !ok) c.fail("exit", "generator %s ends with %s although only transfers were short", gen_name[s.g], r.str().c_str());
	if (r.heapbad && (ok || what.empty())) c.fail("heap", "generator %s damages its heap", gen_name[s.g]);
	for (auto &f : fl) {
		u64 cnt = std::max<u64>(1, ref->cnt[f.kind]);
		c.state(mix64((u64)s.g << 40 | (u64)f.kind << 32 | (u64)std::min<u64>(63, f.n * 64 / cnt) << 16 | (f.n < 40 ? f.n : 40) << 24 | (u64)f.err << 8 | (u64)f.persist << 4 | (u64)r.exited << 2 | ok));
	}
	c.state(mix64((u64)s.g << 40 | 1ull << 60 | (u64)s.cmax << 8 | (u64)s.bufmode << 2 | (s.wmax != 0)));
}

// ---------------------------------------------------------------- plan generators
struct Ranges { // disjoint random ranges
	Rng &r;
	std::vector<std::pair<u32, u32>> used;
	explicit Ranges(Rng &x) : r(x) {}
	std::pair<u32, u32> pick(u32 zone)
	{
		u32 a, n;
		switch (r.below(12)) {
		case 0: a = (u32)r.below(NCP) & ~255u; n = 255; break;
		case 1: a = (u32)r.below(NCP) & ~255u; n = 256 * (u32)r.below(8) + 255; break;
		case 2: a = ((u32)r.below(NCP) & ~255u) + 255; n = (u32)r.below(3); break;
		case 3: a = ((u32)r.below(NCP) & ~255u) + 1; n = (u32)r.below(600); break;
		case 4: a = r.pct(50) ? 0 : (u32)r.below(4); n = (u32)r.below(5); break;
		case 5: n = (u32)r.below(r.pct(50) ? 3 : 700); a = 0x10FFFF - n; break;
		case 6: a = (u32)r.below(NCP); n = (u32)r.below(0x30000); break;
		case 7: case 8: a = (u32)r.below(NCP); n = 0; break;
		default: a = zone + (u32)r.below(0x800); n = (u32)r.below(r.pct(50) ? 3 : 300); break;
		}
		if (a > 0x10FFFF) a = 0x10FFFF;
		return {a, std::min<u32>(a + n, 0x10FFFF)};
	}
};
static void add_classes(Rng &r, Plan &p, int f, u32 zone, unsigned n, int bias, unsigned biaspct, unsigned gcpct)
{
	Ranges R(r);
	for (unsigned i = 0; i < n; i++) {
		auto q = R.pick(zone);
		i64 cls = r.pct(biaspct) ? bias : (i64)r.below(names[f].size());
		i64 gc = r.pct(gcpct) ? 1 + (i64)r.below(3) : (i64)r.below(gcs.size());
		if (f == F_LB && r.pct(8)) { static const u32 E[] = {0x209F, 0x20A0, 0x20CF, 0x20D0}; bool e = r.pct(40); q.first = e ? E[r.below(4)] : 0x209C + (u32)r.below(0x38); q.second = q.first + (e ? 0 : (u32)r.below(3)); if (r.pct(70)) gc = GC_CN; }
		std::vector<i64> a = {f, (i64)q.first, (i64)q.second, cls, gc};
		if (r.pct(6)) { static const i64 S[] = {255, 256, 257, 511, 512, 513, 2, 3, 128, 64, 1024}; a.push_back(2 + (i64)r.below(r.pct(80) ? 20 : 300)); a.push_back(S[r.below(11)]); a[2] = a[1] + (i64)r.below(2); }
		p.ops.push_back(Op(OP_FILE, a));
	}
}
static void make_db(Rng &r, Plan &p, int g, unsigned size)
{
	u32 zone = (u32)r.below(NCP - 0x1000);
	unsigned n = 1 + (unsigned)r.below(size);
	auto cpz = [&]() -> i64 { return r.pct(50) ? (i64)(zone + r.below(0x300)) : r.pct(30) ? (i64)r.below(0x250) : (i64)r.below(NCP); };
	switch (g) {
	case G_CHAR: add_classes(r, p, F_GCB, zone, n, 0, 0, 10); add_classes(r, p, F_EMOJI, zone, 1 + n / 2, 0, 60, 0); break;
	case G_WORD: add_classes(r, p, F_WB, zone, n, 0, 40, 10); add_classes(r, p, F_EMOJI, zone, 1 + n / 2, 0, 60, 0); break;
	case G_SENT: add_classes(r, p, F_SB, zone, n, 0, 0, 10); break;
	case G_LINE: {
		static const char *const b[] = {"SA", "OP", "CP", "ID", "CJ", "AI", "SG", "XX"};
		add_classes(r, p, F_LB, zone, n, lbc(b[r.below(8)]), 40, 40);
		add_classes(r, p, F_LB, zone, n / 3, lbc("SA"), 90, 60);
		add_classes(r, p, F_EMOJI, zone, 1 + n / 2, 0, 60, 0);
		add_classes(r, p, F_EAW, zone, 1 + n / 2, (int)r.below(3), 60, 0);
		break;
	}
	case G_CASE: {
		add_classes(r, p, F_DCP, zone, n, (int)r.below(2), 60, 0);
		unsigned m = 1 + (unsigned)r.below(size);
		static const i64 D[] = {1, -1, 32, -32, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 38864, 42561};
		i64 d = D[r.below(16)];
		for (unsigned i = 0; i < m; i++) {
			i64 c = cpz();
			auto to = [&]() -> i64 { if (r.pct(35)) return -1; i64 v = r.pct(50) ? c + d : r.pct(50) ? c + D[r.below(16)] : cpz(); return v < 0 || v > 0x10FFFF ? -1 : v; };
			p.ops.push_back(Op(OP_FILE, {F_UD, c, (i64)r.below(gcs.size()), r.pct(20) ? cpz() : -1, (i64)r.below(3), to(), to(), to()}));
		}
		unsigned k = (unsigned)r.below(1 + size / 2);
		for (unsigned i = 0; i < k; i++) {
			Cps t;
			i64 l[3];
			for (auto &x : l) { x = 1 + (i64)r.below(3); for (i64 j = 0; j < x; j++) t.push_back((u32)cpz()); }
			p.ops.push_back(Op(OP_FILE, {F_SC, cpz(), r.pct(25), l[0], l[1]}, t));
		}
		break;
	}
	case T_CHAR: case T_WORD: case T_SENT: case T_LINE: case T_BIDI: {
		unsigned m = 1 + (unsigned)r.below(size);
		for (unsigned i = 0; i < m; i++) {
			size_t len = 1 + r.below(r.pct(80) ? 6 : r.pct(80) ? 40 : r.pct(98) ? 400 : 3000);
			Cps t;
			for (size_t j = 0; j < len; j++) t.push_back((u32)cpz());
			if (p.ops.size() > 1 && r.pct(15)) { // like an earlier test
				t = p.ops[r.pct(70) ? p.ops.size() - 1 : 1 + r.below(p.ops.size() - 1)].t;
				if (r.pct(30) && t.size() > 1) t.pop_back();
				len = t.size();
			}
			if (g == T_BIDI) { p.ops.push_back(Op(OP_FILE, {r.pct(50) ? F_BT : F_BCT, (i64)r.below(30), (i64)(r.pct(30) ? 7 : r.below(1u << 20))}, t)); continue; }
			std::vector<i64> a = {gen_files[g][0], (i64)r.below(1u << 20)};
			while (len > 0 && r.pct(95)) { i64 x = 1 + (i64)r.below(r.pct(70) ? 2 : 12); a.push_back(x); if ((size_t)x >= len) break; len -= (size_t)x; }
			p.ops.push_back(Op(OP_FILE, a, t));
		}
		break;
	}
	default: {
		add_classes(r, p, F_BC, zone, n, 0, 10, 5);
		unsigned k = (unsigned)r.below(1 + std::min(size / 3, 7u));
		if (r.pct(8)) k = 8 + (unsigned)r.below(52);
		for (unsigned i = 0; i < k; i++) {
			Cps t;
			if (r.pct(40)) { unsigned na = 1 + (unsigned)r.below(r.pct(90) ? 2 : 18); for (unsigned j = 0; j < 2 * na; j++) t.push_back((u32)cpz()); }
			i64 c = cpz();
			p.ops.push_back(Op(OP_FILE, {F_BB, c, r.pct(50) ? c + 1 : cpz(), (i64)r.below(8), (i64)r.below(4)}, t));
		}
		unsigned m = (unsigned)r.below(size);
		for (unsigned i = 0; i < m; i++) { i64 c = cpz(); p.ops.push_back(Op(OP_FILE, {F_BM, c, r.pct(50) ? c + 1 : cpz()})); }
		for (unsigned i = 0; i < n / 2; i++) p.ops.push_back(Op(OP_FILE, {F_UD, cpz(), 0, r.pct(50) ? cpz() : -1, (i64)r.below(3), -1, -1, -1}));
	}
	}
}
static u32 pick_chunk(Rng &r)
{
	static const u32 C[] = {0, 0, 1, 2, 7, 16, 63, 256, 511, 512, 513, 1000, 4095};
	return C[r.below(13)];
}
static Plan make_c20(u64 seed, u64 index, Rng &r)
{
	Plan p;
	p.prop = "C20";
	p.seed = seed;
	if (index < NG) { // the real database, complete, for every generator
		static const int order[NG] = {G_BIDI, G_CASE, G_LINE, G_WORD, G_CHAR, G_SENT};
		p.ops.push_back(Op(OP_MODE, {order[index], 1, 0, 0, (i64)r.below(1u << 30), pick_chunk(r) | 512, 0, 0}));
		return p;
	}
	static const int w[] = {G_CHAR, G_WORD, G_SENT, G_LINE, G_LINE, G_LINE, G_CASE, G_CASE, G_BIDI, G_BIDI, G_BIDI, G_WORD};
	int g = w[r.below(12)];
	bool real = r.pct(5);
	i64 permille = (i64)(g == G_BIDI ? 5 + r.below(60) : 20 + r.below(r.pct(10) ? 900 : 120));
	p.ops.push_back(Op(OP_MODE, {g, real ? 2 : 0, (i64)r.below(1u << 30), (i64)r.below(512), (i64)r.below(1u << 30), pick_chunk(r), r.pct(20) ? 1 + (i64)r.below(5000) : 0, (i64)r.below(4), permille}));
	if (!real) {
		make_db(r, p, g, r.pct(70) ? 8 : r.pct(80) ? 30 : 100);
		if (r.pct(3) && g == G_CASE) { // more distinct mappings than an 8- or 10-bit index reaches
			i64 z = (i64)r.below(0x10000), up = r.pct(50) ? (i64)r.below(NCP - 1) : -1;
			p.ops.push_back(Op(OP_FILE, {F_UD, z, 0, -1, 0, up, up < 0 || r.pct(50) ? (i64)r.below(0x8000) : -1, r.pct(50) ? (i64)r.below(0x8000) : -1, 260 + (i64)r.below(r.pct(50) ? 900 : 2500), 1 + (i64)r.below(4), 1 + (i64)r.below(300)}));
		}
		if (r.pct(5) && g == G_CASE) { // small distances in many blocks, large ones only behind them
			for (i64 b = 0, nb = 4 + (i64)r.below(60); b < nb; b++) {
				i64 z = b * 256 + (i64)r.below(100);
				p.ops.push_back(Op(OP_FILE, {F_UD, z, 0, -1, 0, z + (i64)r.below(100), r.pct(50) ? z + (i64)r.below(100) : -1, -1}));
			}
			i64 z = 0x5000 + (i64)r.below(0x100000), far = z > 0x8000 && r.pct(50) ? z - (i64)r.below(0x8000) - 200 : std::min<i64>(NCP - 1, z + 200 + (i64)r.below(r.pct(50) ? 300 : 70000));
			p.ops.push_back(Op(OP_FILE, {F_UD, z, 0, -1, 0, far, r.pct(50) ? far : -1, -1}));
		}
		if (r.pct(2) && g != G_CASE && g != G_BIDI) { // more distinct blocks than a 16-bit index reaches
			int f = gen_files[g][0];
			i64 z = (i64)r.below(0x1000);
			p.ops.push_back(Op(OP_FILE, {f, z, z, 1 + (i64)r.below(5), 0, 700 + (i64)r.below(500), 257}));
			p.ops.push_back(Op(OP_FILE, {f, z + 1, z + 1, 3, 0, 700 + (i64)r.below(500), 259}));
		}
	}
	return p;
}
static Plan make_c19(u64 seed, u64 index, Rng &r)
{
	Plan p;
	p.prop = "C19";
	p.seed = seed;
	int g = (int)(index % NGA);
	bool full = index / NGA % 97 == 40 && g != G_BIDI;
	if (index < (u64)NGA * FK_SHORTREAD * 12) { // first and last operations of every kind
		int kind = (int)(index / NGA % FK_SHORTREAD), pos = (int)(index / NGA / FK_SHORTREAD);
		p.ops.push_back(Op(OP_MODE, {g, 0, 0, 0, (i64)r.below(1u << 30), pos & 1 ? 0 : 64, 0, (i64)(pos & 3), 1000}));
		Rng d(mix64((u64)g + 1));
		make_db(d, p, g, 6);
		p.ops.push_back(Op(OP_FAULT, {kind, pos < 8 ? 0 : 2, pos < 8 ? pos : pos - 8, (i64)r.below(4), (i64)r.below(2)}));
		return p;
	}
	if (r.pct(35)) { // one allocation of one call path
		u64 db = r.below(3);
		p.ops.push_back(Op(OP_MODE, {g, 0, (i64)db, (i64)(db * 37 % 512), (i64)r.below(1u << 30), 0, 0, 0, 1000}));
		Rng d(mix64(db * NGA + (u64)g + 1));
		make_db(d, p, g, 6 + 6 * (unsigned)(db % 3));
		p.ops.push_back(Op(OP_FAULT, {FK_ALLOC, 3, (i64)(index / NGA), 0, r.pct(15), (i64)(r.pct(60) ? r.below(2) : r.below(1000))}));
		return p;
	}
	// few databases per generator, so that the undisturbed run is shared
	u64 db = r.below(3);
	if (r.pct(5)) db = 3 + r.below(1000000);
	p.ops.push_back(Op(OP_MODE, {g, full ? 1 : 0, (i64)db, (i64)(db * 37 % 512), (i64)r.below(1u << 30), r.pct(50) ? 0 : pick_chunk(r), r.pct(25) ? 1 + (i64)r.below(3000) : 0, (i64)r.below(4), 1000}));
	if (!full) {
		Rng d(mix64(db * NGA + (u64)g + 1));
		make_db(d, p, g, 6 + 6 * (unsigned)(db % 3));
	}
	unsigned nf = r.pct(10) ? 0 : r.pct(80) ? 1 : 2 + (unsigned)r.below(3);
	for (unsigned i = 0; i < nf; i++) {
		i64 kind = (i64)r.below(FK_SHORTREAD);
		if (kind == FK_OUTCLOSE && r.pct(60)) kind = FK_ALLOC;
		i64 mode = (i64)r.below(3), n = mode == 0 ? (i64)r.below(r.pct(60) ? 12 : 80) : mode == 1 ? (i64)r.below(1000) : (i64)r.below(r.pct(60) ? 6 : 40);
		if (kind == FK_NOSPC && mode == 0) n = (i64)r.below(20000);
		p.ops.push_back(Op(OP_FAULT, {kind, mode, n, (i64)r.below(4), r.pct(30)}));
	}
	return p;
}

static Plan make_c21(u64 seed, u64 index, Rng &r)
{
	Plan p;
	p.prop = "C21";
	p.seed = seed;
	int g = NG + (int)(index % (NGA - NG));
	bool real = index < NGA - NG || r.below(200) == 0;
	p.ops.push_back(Op(OP_MODE, {g, real ? 1 : 0, (i64)r.below(1u << 30), (i64)r.below(512), (i64)r.below(1u << 30), real ? pick_chunk(r) | 512 : pick_chunk(r), r.pct(20) ? 1 + (i64)r.below(5000) : 0, (i64)r.below(4)}));
	if (!real || g == T_BIDI) make_db(r, p, g, r.pct(70) ? 6 : r.pct(80) ? 30 : 300);
	return p;
}

static Plan make_c22(u64 seed, u64 index, Rng &r)
{
	Plan p;
	p.prop = "C22";
	p.seed = seed;
	static const int w[] = {G_CHAR, G_WORD, G_SENT, G_LINE, G_CASE, G_BIDI, T_CHAR, T_WORD, T_SENT, T_LINE, G_CASE, G_BIDI};
	int g = w[index % 12];
	bool real = g != G_BIDI && r.pct(4);
	p.ops.push_back(Op(OP_MODE, {g, real ? g < NG ? 2 : 1 : 0, (i64)r.below(1u << 30), (i64)r.below(512), (i64)r.below(1u << 30), r.pct(60) ? 0 : pick_chunk(r) | (real ? 256u : 0), 0, (i64)r.below(4), 20 + (i64)r.below(60)}));
	if (!real) make_db(r, p, g, r.pct(70) ? 5 : 20);
	unsigned n = 1;
	bool noise = r.pct(12);
	if (noise) n = 1 + (unsigned)r.below(r.pct(70) ? 4 : 40);
	else n = 4; // the first one that applies
	u64 salt = r.below(1u << 20);
	for (unsigned i = 0; i < n; i++) {
		i64 kind = noise ? DM_NOISE : (i64)r.below(DM_NOISE);
		if (!noise && g >= NG && r.pct(50)) kind = DM_MARK;
		else if (!noise && g != G_CASE && g < NG && r.pct(15)) kind = DM_CLASH;
		static const u8 sharp[] = {';', '#', ' ', '.', '\n', 'F', '0', 0, 0xFF, 'A', '1', '\t', '\r', '<', 'o'};
		p.ops.push_back(Op(OP_FAULT, {(i64)r.below(4), (i64)(salt + r.below(1u << 20)), (i64)r.below(6), kind, (i64)r.below(1000), noise && r.pct(60) ? (i64)sharp[r.below(sizeof sharp)] : (i64)r.below(256)}));
	}
	return p;
}

static const World worlds[] = {{"C19", make_c19, exec_c19}, {"C20", make_c20, exec_c20}, {"C21", make_c21, exec_c21}, {"C22", make_c22, exec_c22}};
const World *find_world(const std::string &prop)
{
	for (auto &w : worlds) if (prop == w.prop) return &w;
	return nullptr;
}
