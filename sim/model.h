// Executable reference models: UTF-8, UAX #29, UAX #14 (+ number tailoring),
// UAX #9, full case mapping. Written from the specifications, independent of
// the code in /repo; truth data in ucd_tables.h.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
#include <string>

typedef uint32_t u32;
typedef uint8_t u8;
typedef std::vector<u32> Cps;
typedef std::vector<u8> Bytes;

namespace model {

void init();
extern u8 *T_gcb, *T_wb, *T_sb, *T_lb, *T_bc, *T_case; // indexed by codepoint
extern uint16_t *T_brk; // 0 none, else index+1 into bidi_brackets

static inline u8 gcb(u32 c) { return c <= 0x10FFFF ? T_gcb[c] : 0; }
u8 wb(u32 c); u8 sb(u32 c); u8 lb(u32 c); u8 bc(u32 c);

// ---- UTF-8 -------------------------------------------------------------
// returns the announced/consumed count (may exceed len: truncated)
size_t decode(const u8 *s, size_t len, u32 *cp);
size_t encode(u32 cp, u8 out[4]);
// decode a whole buffer the way a consumer loop does; tail = bytes of an
// incomplete final sequence (excluded). offs has cps.size()+1 entries.
// nul: stop at the first zero codepoint; a sequence cut by NUL is ill-formed.
void decode_all(const u8 *s, size_t len, Cps &cps, std::vector<size_t> &offs);
Bytes encode_all(const Cps &cps);

// ---- segmentation --------------------------------------------------------
enum Kind { CHAR, WORD, SENT, LINE, NKIND };
extern const char *const kind_name[NKIND];
// first break after 0 in s[0..n), n>=1; returns 1..n
size_t next_break(Kind k, const u32 *s, size_t n);
// all breaks in (0,n], computed with full left context (no restart)
std::vector<size_t> all_breaks(Kind k, const u32 *s, size_t n);

// ---- case ----------------------------------------------------------------
enum Case { UPPER, LOWER, TITLE, NCASE };
extern const char *const case_name[NCASE];
struct CaseOut {
	Cps out;
	std::vector<size_t> from;   // index of the source codepoint
};
CaseOut convert(Case c, const u32 *s, size_t n);
bool is_cased(u32 c); bool is_ignorable(u32 c);
bool has_mapping(u32 c); // changed by some case conversion

// ---- bidi ------------------------------------------------------------------
struct Para {
	size_t len;                  // including separator
	int level;                   // 0/1
	std::vector<int> levels;     // after I1/I2 and L1 1-3 (no line rule), -1 removed
	std::vector<u8> orig;        // original classes
};
// Two corners of the algorithm are read in two ways by the text and the
// reference implementations; variant selects: bit 0: W1 looks at the (possibly
// overridden) type instead of the character when deciding "isolate initiator
// or PDI"; bit 1: N0 treats overridden nonspacing marks as nonspacing marks.
Para bidi_paragraph(const u32 *s, size_t n, int override_dir /*0 neutral 1 ltr 2 rtl*/, int variant);
int bidi_variants(); // mask of variants that mattered in the last call
// levels of line [a,b) of the paragraph
std::vector<int> bidi_line(const Para &p, size_t a, size_t b);
// visual order (indices relative to the line), removed characters dropped
std::vector<size_t> bidi_reorder(const std::vector<int> &levels);
u32 mirror(u32 c);

} // namespace model
