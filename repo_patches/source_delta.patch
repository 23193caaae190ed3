From 2c16a28773748f618b2cc9bf8ca16a61185ad3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 01/27] fix: treat an absent break state like a freshly zeroed
 one

grapheme_is_character_break() with a NULL-state looked up the GB11 and
GB12/13 tables with cleared flags instead of updating the flags first,
so it reported a break between a pair of regional indicators.
---
 src/character.c | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/character.c b/src/character.c
index aedcf9e..00406b0 100644
--- a/src/character.c
+++ b/src/character.c
@@ -192,21 +192,13 @@ grapheme_is_character_break(uint_least32_t cp0, uint_least32_t cp1,
 
 		state_serialize(&state, s);
 	} else {
-		cp0_prop = get_break_prop(cp0);
-		cp1_prop = get_break_prop(cp1);
-
 		/*
-		 * Apply grapheme cluster breaking algorithm (UAX #29), see
-		 * http://unicode.org/reports/tr29/#Grapheme_Cluster_Boundary_Rules
-		 *
-		 * Given we have no state, this behaves as if the state-booleans
-		 * were all set to false
+		 * Given we have no state, this behaves as if we were
+		 * handed a freshly initialized one
 		 */
-		notbreak = (dont_break[cp0_prop] & (UINT16_C(1) << cp1_prop)) ||
-		           (dont_break_gb11[cp0_prop] &
-		            (UINT16_C(1) << cp1_prop)) ||
-		           (dont_break_gb12_13[cp0_prop] &
-		            (UINT16_C(1) << cp1_prop));
+		uint_least16_t tmp = 0;
+
+		return grapheme_is_character_break(cp0, cp1, &tmp);
 	}
 
 	return !notbreak;
-- 
2.43.0


From 54554060c8b1f1b4c33ce445367ae37e8d8f0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 02/27] fix: let a sentence terminator restart the terminator
 sequence

An ATerm or STerm following Close or Sp of an earlier terminator reset
the level to 0, so the sentence it ends was not recognized as ended.
---
 src/sentence.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sentence.c b/src/sentence.c
index 291c7f4..c6161d8 100644
--- a/src/sentence.c
+++ b/src/sentence.c
@@ -67,10 +67,8 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 	 *     left of the middle spot.
 	 *
 	 */
-	if ((state->aterm_close_sp_level == 0 ||
-	     state->aterm_close_sp_level == 1) &&
-	    prop == SENTENCE_BREAK_PROP_ATERM) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (anew) */
 		state->aterm_close_sp_level = 1;
 	} else if ((state->aterm_close_sp_level == 1 ||
 	            state->aterm_close_sp_level == 2) &&
@@ -88,11 +86,9 @@ sentence_skip_shift_callback(uint_least8_t prop, void *s)
 		state->aterm_close_sp_level = 0;
 	}
 
-	if ((state->saterm_close_sp_parasep_level == 0 ||
-	     state->saterm_close_sp_parasep_level == 1) &&
-	    (prop == SENTENCE_BREAK_PROP_STERM ||
-	     prop == SENTENCE_BREAK_PROP_ATERM)) {
-		/* sequence has begun */
+	if (prop == SENTENCE_BREAK_PROP_STERM ||
+	    prop == SENTENCE_BREAK_PROP_ATERM) {
+		/* sequence has begun (anew) */
 		state->saterm_close_sp_parasep_level = 1;
 	} else if ((state->saterm_close_sp_parasep_level == 1 ||
 	            state->saterm_close_sp_parasep_level == 2) &&
-- 
2.43.0


From f3cf07050d0f2c3f87a7a144815c1b3edfe7f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 03/27] fix: keep Final_Sigma context across case-ignorable
 characters

A cased character following case-ignorable ones (e.g. a letter after an
apostrophe) reset the level to 0, so that a sigma right behind it was
not lowercased to a final sigma.
---
 src/case.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/case.c b/src/case.c
index 6fac8ec..60198dd 100644
--- a/src/case.c
+++ b/src/case.c
@@ -110,17 +110,13 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 
 			/* update state */
 			prop = get_case_property(cp);
-			if ((final_sigma_level == 0 ||
-			     final_sigma_level == 1) &&
-			    (prop == CASE_PROP_CASED ||
-			     prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
-				/* sequence has begun */
+			if (prop == CASE_PROP_CASED ||
+			    prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
+				/* sequence has begun (anew) */
 				final_sigma_level = 1;
-			} else if (
-				(final_sigma_level == 1 ||
-			         final_sigma_level == 2) &&
-				(prop == CASE_PROP_CASE_IGNORABLE ||
-			         prop == CASE_PROP_BOTH_CASED_CASE_IGNORABLE)) {
+			} else if ((final_sigma_level == 1 ||
+			            final_sigma_level == 2) &&
+			           prop == CASE_PROP_CASE_IGNORABLE) {
 				/* case-ignorable sequence begins or continued
 				 */
 				final_sigma_level = 2;
-- 
2.43.0


From 30964a531ff8ac60eee5227dd884db322fc839da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 04/27] fix: do not take a soft limit for the end of the buffer

An ill-formed sequence right before a soft limit (e.g. one starting with
0xEF before a word break) was decoded as if the buffer ended at the
limit. It looked truncated, the reader reported the end of the buffer,
and titlecase conversion and detection dropped the rest of the text.
---
 src/util.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util.c b/src/util.c
index 4d9a8a4..f4b0e5c 100644
--- a/src/util.c
+++ b/src/util.c
@@ -147,9 +147,12 @@ herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
 		*cp = ((const uint_least32_t *)(r->src))[r->off];
 		ret = 1;
 	} else { /* r->type == HERODOTUS_TYPE_UTF8 */
-		ret = grapheme_decode_utf8(
-			(const char *)r->src + r->off,
-			MIN(r->srclen, r->soft_limit[0]) - r->off, cp);
+		/*
+		 * the soft limit does not end the buffer, so decode with
+		 * everything there is and check the limit afterwards
+		 */
+		ret = grapheme_decode_utf8((const char *)r->src + r->off,
+		                           r->srclen - r->off, cp);
 	}
 
 	if (unlikely(r->srclen == SIZE_MAX && *cp == 0)) {
@@ -162,7 +165,7 @@ herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
 		return HERODOTUS_STATUS_END_OF_BUFFER;
 	}
 
-	if (r->off + ret > MIN(r->srclen, r->soft_limit[0])) {
+	if (r->off + ret > r->srclen) {
 		/*
 		 * we want more than we have; instead of returning
 		 * garbage we terminate here.
@@ -170,6 +173,11 @@ herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
 		return HERODOTUS_STATUS_END_OF_BUFFER;
 	}
 
+	if (r->off + ret > r->soft_limit[0]) {
+		*cp = GRAPHEME_INVALID_CODEPOINT;
+		return HERODOTUS_STATUS_SOFT_LIMIT_REACHED;
+	}
+
 	/*
 	 * Increase offset which we now know won't surpass the limits,
 	 * unless we got told otherwise
-- 
2.43.0


From ec785b48bb1c12a5499ca8cb57db08ccd001010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 05/27] fix: advance past an incomplete sequence at the end of
 the buffer

grapheme_next_*_break_utf8() returned 0 for a non-empty buffer holding
nothing but an incomplete sequence, which made the loops documented in
the manuals spin forever.
---
 src/character.c |  2 +-
 src/line.c      |  2 +-
 src/sentence.c  |  2 +-
 src/util.c      | 16 ++++++++++++++++
 src/util.h      |  1 +
 src/word.c      |  2 +-
 6 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/character.c b/src/character.c
index 00406b0..741c63c 100644
--- a/src/character.c
+++ b/src/character.c
@@ -219,7 +219,7 @@ next_character_break(HERODOTUS_READER *r)
 		}
 	}
 
-	return herodotus_reader_number_read(r);
+	return herodotus_reader_break_offset(r);
 }
 
 size_t
diff --git a/src/line.c b/src/line.c
index 5355143..3f6ab25 100644
--- a/src/line.c
+++ b/src/line.c
@@ -498,7 +498,7 @@ next_line_break(HERODOTUS_READER *r)
 		break;
 	}
 
-	return herodotus_reader_number_read(r);
+	return herodotus_reader_break_offset(r);
 }
 
 size_t
diff --git a/src/sentence.c b/src/sentence.c
index c6161d8..2f12f04 100644
--- a/src/sentence.c
+++ b/src/sentence.c
@@ -254,7 +254,7 @@ next_sentence_break(HERODOTUS_READER *r)
 		continue;
 	}
 
-	return herodotus_reader_number_read(&(p.mid_reader));
+	return herodotus_reader_break_offset(&(p.mid_reader));
 }
 
 size_t
diff --git a/src/util.c b/src/util.c
index f4b0e5c..bc20176 100644
--- a/src/util.c
+++ b/src/util.c
@@ -128,6 +128,22 @@ herodotus_reader_number_read(const HERODOTUS_READER *r)
 	return r->off;
 }
 
+size_t
+herodotus_reader_break_offset(const HERODOTUS_READER *r)
+{
+	if (r->off == 0 && r->src != NULL && r->srclen != SIZE_MAX) {
+		/*
+		 * Either the buffer is empty or it only holds an
+		 * incomplete sequence. Never return 0 in the latter
+		 * case, as a caller looping over the breaks would
+		 * otherwise not make any progress.
+		 */
+		return r->srclen;
+	}
+
+	return r->off;
+}
+
 enum herodotus_status
 herodotus_read_codepoint(HERODOTUS_READER *r, bool advance, uint_least32_t *cp)
 {
diff --git a/src/util.h b/src/util.h
index 47d1fa0..814bd6d 100644
--- a/src/util.h
+++ b/src/util.h
@@ -99,6 +99,7 @@ void herodotus_reader_copy(const HERODOTUS_READER *, HERODOTUS_READER *);
 void herodotus_reader_push_advance_limit(HERODOTUS_READER *, size_t);
 void herodotus_reader_pop_limit(HERODOTUS_READER *);
 size_t herodotus_reader_number_read(const HERODOTUS_READER *);
+size_t herodotus_reader_break_offset(const HERODOTUS_READER *);
 size_t herodotus_reader_next_word_break(const HERODOTUS_READER *);
 size_t herodotus_reader_next_codepoint_break(const HERODOTUS_READER *);
 enum herodotus_status herodotus_read_codepoint(HERODOTUS_READER *, bool,
diff --git a/src/word.c b/src/word.c
index 946c180..73ad507 100644
--- a/src/word.c
+++ b/src/word.c
@@ -255,7 +255,7 @@ next_word_break(HERODOTUS_READER *r)
 		break;
 	}
 
-	return herodotus_reader_number_read(&(p.mid_reader));
+	return herodotus_reader_break_offset(&(p.mid_reader));
 }
 
 size_t
-- 
2.43.0


From 555d33886dcd248ed8736ce044f8766f7345b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 06/27] fix: let a number behind a closed number restart the
 LB25 sequence

NU following NU CL or NU CP reset the LB25-level to 0, breaking up the
number it begins.
---
 src/line.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/line.c b/src/line.c
index 3f6ab25..9110784 100644
--- a/src/line.c
+++ b/src/line.c
@@ -113,9 +113,10 @@ next_line_break(HERODOTUS_READER *r)
 			 *     and one (CL | CP) to the left of the middle
 			 *     spot
 			 */
-			if ((lb25_level == 0 || lb25_level == 1) &&
+			if ((lb25_level == 0 || lb25_level == 1 ||
+			     lb25_level == 3) &&
 			    cp0_prop == LINE_BREAK_PROP_NU) {
-				/* sequence has begun */
+				/* sequence has begun (anew) */
 				lb25_level = 1;
 			} else if ((lb25_level == 1 || lb25_level == 2) &&
 			           (cp0_prop == LINE_BREAK_PROP_NU ||
-- 
2.43.0


From c0f31806b59fb1f8a5626efa7ab5a5b196aa5177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 07/27] fix: treat combining marks behind spaces as AL (LB10)

Behind OP SP* a CM or ZWJ is not broken off (LB14) and was ignored from
there on instead of being an AL, extending LB14 to what follows it.
---
 src/line.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/line.c b/src/line.c
index 9110784..8e388a0 100644
--- a/src/line.c
+++ b/src/line.c
@@ -54,6 +54,16 @@ next_line_break(HERODOTUS_READER *r)
 
 		/* update retention-states */
 
+		/*
+		 * LB10: a CM or ZWJ that has no base because it follows a
+		 * space is treated as AL
+		 */
+		if ((cp0_prop == LINE_BREAK_PROP_CM ||
+		     cp0_prop == LINE_BREAK_PROP_ZWJ) &&
+		    last_non_cm_or_zwj_prop == LINE_BREAK_PROP_SP) {
+			last_non_cm_or_zwj_prop = LINE_BREAK_PROP_AL;
+		}
+
 		/*
 		 * store the last observed non-CM-or-ZWJ-property for
 		 * LB9 and following.
-- 
2.43.0


From fed4e45935bcc683606cd77a31b360582b0cbbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 08/27] fix: look past combining marks for the number in LB25
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The check for (PR | PO) × (OP | HY) NU only looked at the codepoint
right behind the OP or HY, although LB9 attaches CM and ZWJ to it.
---
 src/line.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/line.c b/src/line.c
index 8e388a0..f74eafe 100644
--- a/src/line.c
+++ b/src/line.c
@@ -23,7 +23,7 @@ next_line_break(HERODOTUS_READER *r)
 {
 	HERODOTUS_READER tmp;
 	enum line_break_property cp0_prop, cp1_prop, last_non_cm_or_zwj_prop,
-		last_non_sp_prop, last_non_sp_cm_or_zwj_prop;
+		last_non_sp_prop, last_non_sp_cm_or_zwj_prop, tmp_prop;
 	uint_least32_t cp;
 	uint_least8_t lb25_level = 0;
 	bool lb21a_flag = false, ri_even = true;
@@ -380,14 +380,24 @@ next_line_break(HERODOTUS_READER *r)
 			 * two adjacent codepoints as we have it with
 			 * characters.
 			 */
-			herodotus_reader_copy(r, &tmp);
-			herodotus_read_codepoint(&tmp, true, &cp);
-			if (herodotus_read_codepoint(&tmp, true, &cp) ==
-			            HERODOTUS_STATUS_SUCCESS &&
-			    (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
-			     cp1_prop == LINE_BREAK_PROP_HY)) {
-				if (get_break_prop(cp) == LINE_BREAK_PROP_NU) {
+			if (cp1_prop == LINE_BREAK_PROP_OP_WITHOUT_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_OP_WITH_EAW_HWF ||
+			    cp1_prop == LINE_BREAK_PROP_HY) {
+				herodotus_reader_copy(r, &tmp);
+				herodotus_read_codepoint(&tmp, true, &cp);
+
+				/* skip what LB9 attaches to cp1 */
+				tmp_prop = NUM_LINE_BREAK_PROPS;
+				while (herodotus_read_codepoint(&tmp, true,
+				                                &cp) ==
+				       HERODOTUS_STATUS_SUCCESS) {
+					tmp_prop = get_break_prop(cp);
+					if (tmp_prop != LINE_BREAK_PROP_CM &&
+					    tmp_prop != LINE_BREAK_PROP_ZWJ) {
+						break;
+					}
+				}
+				if (tmp_prop == LINE_BREAK_PROP_NU) {
 					continue;
 				}
 			}
-- 
2.43.0


From 5fa871ac2d0a2edd49ae37da7e7c5c52f32c3f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 09/27] fix: apply LB23a to unassigned extended pictographics

They are ID as well, but have their own property for LB30b, which LB23a
did not consider.
---
 src/line.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/line.c b/src/line.c
index f74eafe..954ccb0 100644
--- a/src/line.c
+++ b/src/line.c
@@ -343,11 +343,14 @@ next_line_break(HERODOTUS_READER *r)
 		/* LB23a */
 		if (last_non_cm_or_zwj_prop == LINE_BREAK_PROP_PR &&
 		    (cp1_prop == LINE_BREAK_PROP_ID ||
+		     cp1_prop == LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     cp1_prop == LINE_BREAK_PROP_EB ||
 		     cp1_prop == LINE_BREAK_PROP_EM)) {
 			continue;
 		}
 		if ((last_non_cm_or_zwj_prop == LINE_BREAK_PROP_ID ||
+		     last_non_cm_or_zwj_prop ==
+		             LINE_BREAK_PROP_BOTH_CN_EXTPICT ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EB ||
 		     last_non_cm_or_zwj_prop == LINE_BREAK_PROP_EM) &&
 		    cp1_prop == LINE_BREAK_PROP_PO) {
-- 
2.43.0


From 563a3dbf7bde13b8b39fccd29f5e580e733c1627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 10/27] fix: map SA with General_Category Mn or Mc to CM (LB1)

The data lines in question match TMP_MN or TMP_MC before SA, so that the
intended conflict never arises and the codepoints ended up as AL.
---
 gen/line.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gen/line.c b/gen/line.c
index 2e08acc..9f829e4 100644
--- a/gen/line.c
+++ b/gen/line.c
@@ -435,6 +435,18 @@ post_process(struct properties *prop)
 		                   "TMP_SA_WITH_MN_OR_MC")) {
 			/* map SA (with General_Category Mn or Mc) to CM */
 			target = "CM";
+		} else if (!strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_MN") ||
+		           !strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_MC")) {
+			/*
+			 * the only lines of the data that match TMP_MN or
+			 * TMP_MC and none of the classes listed before them
+			 * are those of SA with General_Category Mn or Mc
+			 */
+			target = "CM";
 		} else if (!strcmp(line_break_property[prop[i].property]
 		                           .enumname,
 		                   "TMP_SA_WITHOUT_MN_OR_MC")) {
@@ -450,10 +462,6 @@ post_process(struct properties *prop)
 		                "TMP_CN") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EXTENDED_PICTOGRAPHIC") ||
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_MN") ||
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_MC") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EAW_H") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
-- 
2.43.0


From 40f2fd041dbf5bf430a746d3a362f4f266e417f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 11/27] fix: give unassigned codepoints their default line
 break class

LineBreak.txt lists unassigned codepoints as ID or PR, but they were
filed under TMP_CN, whose residue was mapped to AL.
---
 gen/line.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gen/line.c b/gen/line.c
index 9f829e4..5d77c8c 100644
--- a/gen/line.c
+++ b/gen/line.c
@@ -457,9 +457,19 @@ post_process(struct properties *prop)
 		                   "TMP_CJ")) {
 			/* map CJ to NS */
 			target = "NS";
+		} else if (!strcmp(line_break_property[prop[i].property]
+		                           .enumname,
+		                   "TMP_CN")) {
+			/*
+			 * the data only lists unassigned codepoints whose
+			 * class is not AL: PR in the block 'Currency
+			 * Symbols' and ID otherwise
+			 */
+			target = (i >= UINT32_C(0x20A0) &&
+			          i <= UINT32_C(0x20CF)) ?
+			                 "PR" :
+			                 "ID";
 		} else if (
-			!strcmp(line_break_property[prop[i].property].enumname,
-		                "TMP_CN") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
 		                "TMP_EXTENDED_PICTOGRAPHIC") ||
 			!strcmp(line_break_property[prop[i].property].enumname,
-- 
2.43.0


From 53eb24ef59b6cc1c2aefaae5680607032dc97193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 12/27] fix: stay within the given level buffer

The embedding level getter wrote one entry past the end of a buffer
that is too short for the line, and the trailing whitespace reset of
rule L1.4 did not observe the buffer size at all.
---
 src/bidirectional.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 4e81df1..26e9c6d 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1496,7 +1496,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 
 		/* write level into level array if we still have space */
 		if (level != -1 || skipignored == false) {
-			if (levlen <= levsize) {
+			if (levlen < levsize) {
 				set_level(lev, levlen, level);
 			}
 			levlen++;
@@ -1527,7 +1527,7 @@ get_line_embedding_levels(const uint_least32_t *linedata, size_t linelen,
 		 * we hit the end of the line but were in a run;
 		 * reset the line levels to the paragraph level
 		 */
-		for (i = runsince; i < MIN(linelen, levlen); i++) {
+		for (i = runsince; i < MIN(levsize, levlen); i++) {
 			if (get_level(lev, i) != -1) {
 				set_level(lev, i, runlevel);
 			}
-- 
2.43.0


From 8a001ac2eb140532ef2c3a08be5dbb8673e487fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 13/27] fix: only process the part of a paragraph that fits the
 buffer

With a buffer shorter than the paragraph, preprocessing went on to read
and write behind the end of the buffer.
---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 26e9c6d..7b6bede 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1437,7 +1437,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			          &(buf[bufoff]));
 		}
 	}
-	bufsize = herodotus_reader_number_read(r);
+	bufsize = MIN(herodotus_reader_number_read(r), buflen);
 
 	for (bufoff = 0; bufoff < bufsize; bufoff++) {
 		if (get_state(STATE_PROP, buf[bufoff]) != BIDI_PROP_B &&
-- 
2.43.0


From dd6bad88c2e0f9d9b500eeb0560102b9ddb45564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 14/27] fix: do not look for the direction behind the paragraph
 separator

Rules P2 and P3 only consider the characters of the paragraph itself,
but a paragraph without a strong character was given the direction of
the text that follows it.
---
 src/bidirectional.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 7b6bede..4a66f2c 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -974,6 +974,11 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 	                        HERODOTUS_STATUS_SUCCESS;) {
 		prop = get_bidi_property(cp);
 
+		if (prop == BIDI_PROP_B) {
+			/* the paragraph ends here */
+			break;
+		}
+
 		/* BD8/BD9 */
 		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
 		     prop == BIDI_PROP_FSI) &&
-- 
2.43.0


From cf5d24600ee929e6cc15ebe063674edae2bd7dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 15/27] fix: reorder a line into an output buffer of exactly
 its size

A buffer with exactly the returned number of elements was treated as
too short and cleared.
---
 src/bidirectional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 4a66f2c..144a615 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -1614,7 +1614,7 @@ grapheme_bidirectional_reorder_line(const uint_least32_t *line,
 			outputlen++;
 		}
 	}
-	if (outputlen >= outputsize) {
+	if (outputlen > outputsize) {
 		/* clear output buffer */
 		for (i = 0; i < outputsize; i++) {
 			output[i] = GRAPHEME_INVALID_CODEPOINT;
-- 
2.43.0


From 4948c07c02ccb406cda58215ad54c0758d55ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 16/27] fix: match isolates of any depth when looking for the
 direction

The depth limit of 125 applies to embedding levels, not to the matching
of isolate initiators with PDIs (BD9). Capping the counter made a PDI
match the wrong initiator in rules P2 and P3.
---
 src/bidirectional.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 144a615..d8b44e6 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -898,8 +898,7 @@ static uint_least8_t
 get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 {
 	enum bidi_property prop;
-	int_least8_t isolate_level;
-	size_t stateoff;
+	size_t stateoff, isolate_level;
 
 	/* determine paragraph level (rules P1-P3) and terminate on PDI */
 	for (stateoff = 0, isolate_level = 0; stateoff < statelen; stateoff++) {
@@ -914,9 +913,8 @@ get_isolated_paragraph_level(const uint_least32_t *state, size_t statelen)
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
@@ -956,7 +954,7 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 {
 	HERODOTUS_READER tmp;
 	enum bidi_property prop;
-	int_least8_t isolate_level;
+	size_t isolate_level;
 	uint_least32_t cp;
 
 	/* check overrides first according to rule HL1 */
@@ -980,9 +978,8 @@ get_paragraph_level(enum grapheme_bidirectional_direction override,
 		}
 
 		/* BD8/BD9 */
-		if ((prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		     prop == BIDI_PROP_FSI) &&
-		    isolate_level < MAX_DEPTH) {
+		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+		    prop == BIDI_PROP_FSI) {
 			/* we hit an isolate initiator, increment counter */
 			isolate_level++;
 		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
-- 
2.43.0


From 876d6edae04068629c035a8ae7f30131d9ed6bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 17/27] fix: follow isolating run sequences as defined in BD13

The runner recognised isolates by their current property, which a
directional override or the weak rules may have changed, capped the
nesting at 125 and skipped the contents of overflow isolates, although
those share the level of their initiator and belong to its level run.
It also compared the wrong level for eos.
---
 src/bidirectional.c | 127 ++++++++++++++++++--------------------------
 1 file changed, 51 insertions(+), 76 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index d8b44e6..7616e76 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -225,8 +225,9 @@ static int
 ir_advance(struct isolate_runner *ir)
 {
 	enum bidi_property prop;
-	int_least8_t level, isolate_level, last_isolate_level;
-	size_t i;
+	int_least8_t level, eos_level;
+	size_t i, isolate_level;
+	bool is_initiator;
 
 	if (ir->next.off == SIZE_MAX) {
 		/* the sequence is over */
@@ -244,88 +245,62 @@ ir_advance(struct isolate_runner *ir)
 	 */
 	ir->next.off = SIZE_MAX;
 
-	last_isolate_level = -1;
-	for (i = ir->cur.off, isolate_level = 0; i < ir->buflen; i++) {
-		level = (int_least8_t)get_state(STATE_LEVEL, ir->buf[i]);
-		prop = (uint_least8_t)get_state(STATE_PROP, ir->buf[i]);
-
-		if (level == -1) {
-			/* this is one of the ignored characters, skip */
-			continue;
-		} else if (level == ir->isolating_run_level) {
-			last_isolate_level = level;
-		}
-
-		/* follow BD8/BD9 and P2 to traverse the current sequence */
-		if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
-		    prop == BIDI_PROP_FSI) {
-			/*
-			 * we encountered an isolate initiator, increment
-			 * counter, but go into processing when we
-			 * were not isolated before
-			 */
-			if (isolate_level < MAX_DEPTH) {
-				isolate_level++;
-			}
-			if (isolate_level != 1) {
-				continue;
-			}
-		} else if (prop == BIDI_PROP_PDI && isolate_level > 0) {
-			isolate_level--;
+	/*
+	 * isolates are matched by the original properties (BD9), which
+	 * directional overrides do not affect
+	 */
+	prop = ir_get_current_preserved_prop(ir);
+	is_initiator = (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+	                prop == BIDI_PROP_FSI);
 
-			/*
-			 * if the current PDI dropped the isolate-level
-			 * to zero, it is itself part of the isolating
-			 * run sequence; otherwise we simply continue.
-			 */
-			if (isolate_level > 0) {
-				continue;
-			}
-		} else if (isolate_level > 0) {
-			/* we are in an isolating sequence */
-			continue;
+	/* find the next character that has not been removed in X9 */
+	for (i = ir->cur.off + 1, level = -1; i < ir->buflen; i++) {
+		level = (int_least8_t)get_state(STATE_LEVEL, ir->buf[i]);
+		if (level != -1) {
+			break;
 		}
+	}
+	if (level == ir->isolating_run_level) {
+		/* it belongs to the same level run (BD7) */
+		ir->next.off = i;
+		return 0;
+	}
 
+	if (is_initiator) {
 		/*
-		 * now we either still are in our sequence or we hit
-		 * the eos-case as we left the sequence and hit the
-		 * first non-isolating-sequence character.
+		 * the level run ends with an isolate initiator, so the
+		 * sequence continues at the matching PDI (BD13)
 		 */
-		if (i == ir->cur.off) {
-			/* we were in the first initializing round */
-			continue;
-		} else if (level == ir->isolating_run_level) {
-			/* isolate_level-skips have been handled before, we're
-			 * good */
-			/* still in the sequence */
-			ir->next.off = i;
-		} else {
-			/* out of sequence or isolated, compare levels via eos
-			 */
-			ir->next.off = SIZE_MAX;
-			if (MAX(last_isolate_level, level) % 2 == 0) {
-				ir->eos = BIDI_PROP_L;
-			} else {
-				ir->eos = BIDI_PROP_R;
+		for (isolate_level = 1; i < ir->buflen; i++) {
+			prop = (uint_least8_t)get_state(STATE_PRESERVED_PROP,
+			                                ir->buf[i]);
+
+			if (prop == BIDI_PROP_LRI || prop == BIDI_PROP_RLI ||
+			    prop == BIDI_PROP_FSI) {
+				isolate_level++;
+			} else if (prop == BIDI_PROP_PDI &&
+			           --isolate_level == 0) {
+				ir->next.off = i;
+				return 0;
 			}
 		}
-		break;
 	}
-	if (i == ir->buflen) {
-		/*
-		 * the sequence ended before we could grab an offset.
-		 * we need to determine the eos-prop by comparing the
-		 * level of the last element in the isolating run sequence
-		 * with the paragraph level.
-		 */
-		ir->next.off = SIZE_MAX;
-		if (MAX(last_isolate_level, ir->paragraph_level) % 2 == 0) {
-			/* the higher level is even, set eos to L */
-			ir->eos = BIDI_PROP_L;
-		} else {
-			/* the higher level is odd, set eos to R */
-			ir->eos = BIDI_PROP_R;
-		}
+
+	/*
+	 * the sequence is over, determine eos by comparing its level with
+	 * that of the following character or, if there is none or the
+	 * sequence ended with an isolate initiator, the paragraph
+	 * embedding level (X10)
+	 */
+	eos_level = (i < ir->buflen && !is_initiator) ?
+	                    level :
+	                    (int_least8_t)ir->paragraph_level;
+	if (MAX(ir->isolating_run_level, eos_level) % 2 == 0) {
+		/* the higher level is even, set eos to L */
+		ir->eos = BIDI_PROP_L;
+	} else {
+		/* the higher level is odd, set eos to R */
+		ir->eos = BIDI_PROP_R;
 	}
 
 	return 0;
-- 
2.43.0


From 3edc33d460f6bdee81c94a90510a8f32d1e0a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 18/27] fix: do not identify brackets by compatibility
 decomposition

BD16 pairs brackets that are canonically equivalent, but the generator
also followed compatibility decompositions, so that for instance a
parenthesis matched a small or fullwidth one.
---
 gen/bidirectional.c | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/gen/bidirectional.c b/gen/bidirectional.c
index b4a4fb7..65096f8 100644
--- a/gen/bidirectional.c
+++ b/gen/bidirectional.c
@@ -143,7 +143,6 @@ static int
 decomposition_callback(const char *file, char **field, size_t nfields,
                        char *comment, void *payload)
 {
-	char *p;
 	struct decomposition_payload *decomp =
 		(struct decomposition_payload *)payload;
 	uint_least32_t cp;
@@ -159,25 +158,15 @@ decomposition_callback(const char *file, char **field, size_t nfields,
 	hextocp(field[0], strlen(field[0]), &cp);
 
 	if (decomp->cp == cp) {
-		/* we hit the line that contains our decomposition target */
-		if (strlen(field[5]) > 0) {
-			p = field[5];
-			if (*p == '<') {
-				/*
-				 * the decomposition contains some metadata
-				 * <...> we skip
-				 */
-				for (; *p != '\0'; p++) {
-					if (*p == '>') {
-						p++;
-						while (*p == ' ') {
-							p++;
-						}
-						break;
-					}
-				}
-			}
-			hextocp(p, strlen(p), &(decomp->decomposition));
+		/*
+		 * we hit the line that contains our decomposition target;
+		 * brackets are only identified when they are canonically
+		 * equivalent (BD16), so ignore compatibility decompositions,
+		 * which are preceded by a <tag>
+		 */
+		if (strlen(field[5]) > 0 && field[5][0] != '<') {
+			hextocp(field[5], strlen(field[5]),
+			        &(decomp->decomposition));
 		} else {
 			decomp->decomposition = decomp->cp;
 		}
-- 
2.43.0


From d6389a97312906cd6e1ef0018598c1b9372dea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 19/27] fix: pair brackets exactly as specified in BD16

When the FIFO of bracket openings was full, its bottom entry was resolved
with the bracket class of the wrong bracket, a wrong end and another
entry's bounds, and a mere count of nested brackets of the same class
does not give the pairs of BD16 anyway. Determine the pairs with the
specified stack and mark them in the paragraph state instead, which also
removes the blocking behaviour of the FIFO.
---
 src/bidirectional.c | 240 +++++++++++++-------------------------------
 1 file changed, 69 insertions(+), 171 deletions(-)

diff --git a/src/bidirectional.c b/src/bidirectional.c
index 7616e76..617dd12 100644
--- a/src/bidirectional.c
+++ b/src/bidirectional.c
@@ -15,6 +15,7 @@ enum state_type {
 	STATE_LEVEL,           /* in 0..MAX_DEPTH+1=126, embedding level */
 	STATE_PARAGRAPH_LEVEL, /* in 0..1, paragraph embedding level */
 	STATE_VISITED,         /* in 0..1, visited within isolating run */
+	STATE_PAIRED,          /* in 0..1, bracket is part of a bracket pair */
 };
 
 static struct {
@@ -52,6 +53,11 @@ static struct {
 		.mask_shift   = 26,
 		.value_offset = 0,
 	},
+	[STATE_PAIRED] = {
+		.filter_mask  = 0x8000000, /* 00001000 00000000 00000000 00000000 */
+		.mask_shift   = 27,
+		.value_offset = 0,
+	},
 };
 
 static inline int_least16_t
@@ -461,197 +467,88 @@ preprocess_bracket_pairs(uint_least32_t *buf, size_t buflen, size_t off,
 	 * by 63, the algorithm, as is, requires dynamic memory
 	 * management.
 	 *
-	 * A naive approach (used by Fribidi) would be to screw the
-	 * stack-approach and simply directly determine the
-	 * corresponding closing bracket offset for a given opening
-	 * bracket, leading to O(n²) time complexity in the worst case
-	 * with a lot of brackets. While many brackets are not common,
-	 * it is still possible to find a middle ground where you obtain
-	 * strongly linear time complexity in most common cases:
-	 *
-	 * Instead of a stack, we use a FIFO data structure which is
-	 * filled with bracket openings in the order of appearance (thus
-	 * yielding an implicit sorting!) at the top. If the
-	 * corresponding closing bracket is encountered, it is added to
-	 * the respective entry, making it ready to "move out" at the
-	 * bottom (i.e. passed to the bracket processing). Due to the
-	 * nature of the specified pair detection algorithm, which only
-	 * cares about the bracket type and nothing else (bidi class,
-	 * level, etc.), we can mix processing and bracket detection.
-	 *
-	 * Obviously, if you, for instance, have one big bracket pair at
-	 * the bottom that has not been closed yet, it will block the
-	 * bracket processing and the FIFO might hit its capacity limit.
-	 * At this point, the blockage is manually resolved using the
-	 * naive quadratic approach.
-	 *
-	 * To remain within the specified standard behaviour, which
-	 * mandates that processing of brackets should stop when the
-	 * bracketing-depth is at 63, we simply check in an "overflow"
-	 * scenario if all 63 elements in the LIFO are unfinished, which
-	 * corresponds with such a bracketing depth.
+	 * We avoid the list by only marking the paired brackets in the
+	 * state. Given the pairs are properly nested by construction,
+	 * the marks alone suffice to find the closing bracket for a
+	 * given opening bracket, and iterating over the marked opening
+	 * brackets yields the pairs in the desired order.
 	 */
-	enum bidi_property prop;
-
 	struct {
-		bool complete;
 		size_t bracket_class;
-		struct isolate_runner start;
-		struct isolate_runner end;
-	} fifo[63];
-	const struct bracket *bracket_prop, *tmp_bracket_prop;
-	struct isolate_runner ir, tmp_ir;
-	size_t fifo_len = 0, i, blevel, j, k;
+		size_t off;
+	} stack[63];
+	const struct bracket *bracket_prop;
+	struct isolate_runner ir, tmp;
+	size_t stack_len = 0, i, blevel;
+	bool pairs = false;
 
+	/* BD16 */
 	ir_init(buf, buflen, off, paragraph_level, false, &ir);
 	while (!ir_advance(&ir)) {
-		prop = ir_get_current_prop(&ir);
-		bracket_prop = ir_get_current_bracket_prop(&ir);
-		if (prop == BIDI_PROP_ON &&
-		    bracket_prop->type == BIDI_BRACKET_OPEN) {
-			if (fifo_len == LEN(fifo)) {
-				/*
-				 * The FIFO is full, check first if it's
-				 * completely blocked (i.e. no finished
-				 * bracket pairs, triggering the standard
-				 * that mandates to abort in such a case
-				 */
-				for (i = 0; i < fifo_len; i++) {
-					if (fifo[i].complete) {
-						break;
-					}
-				}
-				if (i == fifo_len) {
-					/* abort processing */
-					return;
-				}
-
-				/*
-				 * by construction, the bottom entry
-				 * in the FIFO is guaranteed to be
-				 * unfinished (given we "consume" all
-				 * finished bottom entries after each
-				 * iteration).
-				 *
-				 * iterate, starting after the opening
-				 * bracket, and find the corresponding
-				 * closing bracket.
-				 *
-				 * if we find none, just drop the FIFO
-				 * entry silently
-				 */
-				for (tmp_ir = fifo[0].start, blevel = 0;
-				     !ir_advance(&tmp_ir);) {
-					tmp_bracket_prop =
-						ir_get_current_bracket_prop(
-							&tmp_ir);
-
-					if (tmp_bracket_prop->type ==
-					            BIDI_BRACKET_OPEN &&
-					    tmp_bracket_prop->class ==
-					            bracket_prop->class) {
-						/* we encountered another
-						 * opening bracket of the
-						 * same class */
-						blevel++;
-
-					} else if (tmp_bracket_prop->type ==
-					                   BIDI_BRACKET_CLOSE &&
-					           tmp_bracket_prop->class ==
-					                   bracket_prop
-					                           ->class) {
-						/* we encountered a closing
-						 * bracket of the same class
-						 */
-						if (blevel == 0) {
-							/* this is the
-							 * corresponding
-							 * closing bracket
-							 */
-							fifo[0].complete = true;
-							fifo[0].end = ir;
-						} else {
-							blevel--;
-						}
-					}
-				}
-				if (fifo[0].complete) {
-					/* we found the matching bracket */
-					preprocess_bracket_pair(
-						&(fifo[i].start),
-						&(fifo[i].end));
-				}
+		if (ir_get_current_prop(&ir) != BIDI_PROP_ON) {
+			continue;
+		}
 
-				/* shift FIFO one to the left */
-				for (i = 1; i < fifo_len; i++) {
-					fifo[i - 1] = fifo[i];
-				}
-				fifo_len--;
+		bracket_prop = ir_get_current_bracket_prop(&ir);
+		if (bracket_prop->type == BIDI_BRACKET_OPEN) {
+			if (stack_len == LEN(stack)) {
+				/* stop processing */
+				break;
 			}
-
-			/* add element to the FIFO */
-			fifo_len++;
-			fifo[fifo_len - 1].complete = false;
-			fifo[fifo_len - 1].bracket_class = bracket_prop->class;
-			fifo[fifo_len - 1].start = ir;
-		} else if (prop == BIDI_PROP_ON &&
-		           bracket_prop->type == BIDI_BRACKET_CLOSE) {
+			stack[stack_len].bracket_class = bracket_prop->class;
+			stack[stack_len].off = ir.cur.off;
+			stack_len++;
+		} else if (bracket_prop->type == BIDI_BRACKET_CLOSE) {
 			/*
-			 * go backwards in the FIFO, skip finished entries
-			 * and simply ignore (do nothing) the closing
+			 * go down the stack and simply ignore the closing
 			 * bracket if we do not match anything
 			 */
-			for (i = fifo_len; i > 0; i--) {
+			for (i = stack_len; i > 0; i--) {
 				if (bracket_prop->class ==
-				            fifo[i - 1].bracket_class &&
-				    !fifo[i - 1].complete) {
-					/* we have found a pair */
-					fifo[i - 1].complete = true;
-					fifo[i - 1].end = ir;
-
-					/* remove all uncompleted FIFO elements
-					 * above i - 1 */
-					for (j = i; j < fifo_len;) {
-						if (fifo[j].complete) {
-							j++;
-							continue;
-						}
-
-						/* shift FIFO one to the left */
-						for (k = j + 1; k < fifo_len;
-						     k++) {
-							fifo[k - 1] = fifo[k];
-						}
-						fifo_len--;
-					}
+				    stack[i - 1].bracket_class) {
+					/*
+					 * we have found a pair, pop
+					 * everything through its opening
+					 */
+					set_state(STATE_PAIRED, 1,
+					          &(buf[stack[i - 1].off]));
+					set_state(STATE_PAIRED, 1,
+					          &(buf[ir.cur.off]));
+					stack_len = i - 1;
+					pairs = true;
 					break;
 				}
 			}
 		}
+	}
+	if (!pairs) {
+		return;
+	}
 
-		/* process all ready bracket pairs from the FIFO bottom */
-		while (fifo_len > 0 && fifo[0].complete) {
-			preprocess_bracket_pair(&(fifo[0].start),
-			                        &(fifo[0].end));
+	/* process the pairs in the order of their opening brackets */
+	ir_init(buf, buflen, off, paragraph_level, false, &ir);
+	while (!ir_advance(&ir)) {
+		if (get_state(STATE_PAIRED, buf[ir.cur.off]) == 0 ||
+		    ir_get_current_bracket_prop(&ir)->type !=
+		            BIDI_BRACKET_OPEN) {
+			continue;
+		}
 
-			/* shift FIFO one to the left */
-			for (j = 0; j + 1 < fifo_len; j++) {
-				fifo[j] = fifo[j + 1];
+		/* find the corresponding closing bracket */
+		for (tmp = ir, blevel = 0; !ir_advance(&tmp);) {
+			if (get_state(STATE_PAIRED, buf[tmp.cur.off]) == 0) {
+				continue;
 			}
-			fifo_len--;
-		}
-	}
 
-	/*
-	 * afterwards, we still might have unfinished bracket pairs
-	 * that will remain as such, but the subsequent finished pairs
-	 * also need to be taken into account, so we go through the
-	 * FIFO once more and process all finished pairs
-	 */
-	for (i = 0; i < fifo_len; i++) {
-		if (fifo[i].complete) {
-			preprocess_bracket_pair(&(fifo[i].start),
-			                        &(fifo[i].end));
+			if (ir_get_current_bracket_prop(&tmp)->type ==
+			    BIDI_BRACKET_OPEN) {
+				blevel++;
+			} else if (blevel > 0) {
+				blevel--;
+			} else {
+				preprocess_bracket_pair(&ir, &tmp);
+				break;
+			}
 		}
 	}
 }
@@ -1409,6 +1306,7 @@ preprocess(HERODOTUS_READER *r, enum grapheme_bidirectional_direction override,
 			set_state(STATE_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_PARAGRAPH_LEVEL, 0, &(buf[bufoff]));
 			set_state(STATE_VISITED, 0, &(buf[bufoff]));
+			set_state(STATE_PAIRED, 0, &(buf[bufoff]));
 			set_state(STATE_PRESERVED_PROP,
 			          (uint_least8_t)get_bidi_property(cp),
 			          &(buf[bufoff]));
-- 
2.43.0


From 239b88688b2b0cc6b886016067e484ab9e2a4f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 20/27] fix: let the titlecase mapping default to the uppercase
 mapping

UAX #44 specifies for the field Simple_Titlecase_Mapping that, if it is
null, it is the same as the Simple_Uppercase_Mapping, not the codepoint
itself.
---
 gen/case.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gen/case.c b/gen/case.c
index c9f3501..6b2d343 100644
--- a/gen/case.c
+++ b/gen/case.c
@@ -94,9 +94,17 @@ unicodedata_callback(const char *file, char **field, size_t nfields,
 	if ((strlen(field[12]) > 0 &&
 	     hextocp(field[12], strlen(field[12]), &upper)) ||
 	    (strlen(field[13]) > 0 &&
-	     hextocp(field[13], strlen(field[13]), &lower)) ||
-	    (nfields >= 15 && strlen(field[14]) > 0 &&
-	     hextocp(field[14], strlen(field[14]), &title))) {
+	     hextocp(field[13], strlen(field[13]), &lower))) {
+		return 1;
+	}
+
+	/*
+	 * if no titlecase mapping is given, it is the same as the
+	 * uppercase mapping (see UAX #44)
+	 */
+	title = upper;
+	if (nfields >= 15 && strlen(field[14]) > 0 &&
+	    hextocp(field[14], strlen(field[14]), &title)) {
 		return 1;
 	}
 
-- 
2.43.0


From 29cc1ef8eec2edd28170323e175af8c40e9e1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 21/27] fix: do not take a read error for the end of a data
 file

get_line() stops at read errors as well, and a generator then printed
tables from the part of the file it had read and exited successfully.
---
 gen/util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gen/util.c b/gen/util.c
index 6f21906..d84b229 100644
--- a/gen/util.c
+++ b/gen/util.c
@@ -282,6 +282,13 @@ parse_file_with_callback(const char *fname,
 		}
 	}
 
+	/* check if we stopped because of a read error instead of the end */
+	if (ferror(fp)) {
+		fprintf(stderr, "parse_file_with_callback: Reading '%s' "
+		        "failed.\n", fname);
+		exit(1);
+	}
+
 	/* close file */
 	if (fclose(fp)) {
 		fprintf(stderr, "parse_file_with_callback: fclose '%s': %s.\n",
-- 
2.43.0


From c0f7d8d2583b534b45723013903219583ceaf6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:24 +0000
Subject: [PATCH 22/27] fix: report failed writes of the generated tables

The return values of the print functions were never checked, so a
generator that could not write its output (e.g. with a full disk) exited
successfully and the truncated table was taken for complete.
---
 gen/bidirectional.c |  2 +-
 gen/case.c          |  2 +-
 gen/character.c     |  2 +-
 gen/line.c          |  2 +-
 gen/sentence.c      |  2 +-
 gen/util.c          | 14 ++++++++++++++
 gen/util.h          |  1 +
 gen/word.c          |  2 +-
 8 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/gen/bidirectional.c b/gen/bidirectional.c
index 65096f8..661b795 100644
--- a/gen/bidirectional.c
+++ b/gen/bidirectional.c
@@ -493,5 +493,5 @@ main(int argc, char *argv[])
 	free(mm_mirror.major);
 	free(mm_mirror.minor);
 
-	return 0;
+	return close_output();
 }
diff --git a/gen/case.c b/gen/case.c
index 6b2d343..ceb730b 100644
--- a/gen/case.c
+++ b/gen/case.c
@@ -307,5 +307,5 @@ main(int argc, char *argv[])
 	free(mm_upper.major);
 	free(mm_upper.minor);
 
-	return 0;
+	return close_output();
 }
diff --git a/gen/character.c b/gen/character.c
index 717d01e..52fd9d0 100644
--- a/gen/character.c
+++ b/gen/character.c
@@ -93,5 +93,5 @@ main(int argc, char *argv[])
 	                                   LEN(char_break_property), NULL, NULL,
 	                                   NULL, "char_break", argv[0]);
 
-	return 0;
+	return close_output();
 }
diff --git a/gen/line.c b/gen/line.c
index 5d77c8c..2675e18 100644
--- a/gen/line.c
+++ b/gen/line.c
@@ -513,5 +513,5 @@ main(int argc, char *argv[])
 		line_break_property, LEN(line_break_property), NULL,
 		handle_conflict, post_process, "line_break", argv[0]);
 
-	return 0;
+	return close_output();
 }
diff --git a/gen/sentence.c b/gen/sentence.c
index c5cc5de..9629542 100644
--- a/gen/sentence.c
+++ b/gen/sentence.c
@@ -90,5 +90,5 @@ main(int argc, char *argv[])
 		sentence_break_property, LEN(sentence_break_property), NULL,
 		NULL, NULL, "sentence_break", argv[0]);
 
-	return 0;
+	return close_output();
 }
diff --git a/gen/util.c b/gen/util.c
index d84b229..5f19013 100644
--- a/gen/util.c
+++ b/gen/util.c
@@ -301,6 +301,20 @@ parse_file_with_callback(const char *fname,
 	free(field);
 }
 
+int
+close_output(void)
+{
+	/* all previous write errors and those of the final flush */
+	int ret = ferror(stdout);
+
+	if (fclose(stdout) || ret) {
+		fprintf(stderr, "close_output: Writing the output failed.\n");
+		return 1;
+	}
+
+	return 0;
+}
+
 static int
 properties_callback(const char *file, char **field, size_t nfields,
                     char *comment, void *payload)
diff --git a/gen/util.h b/gen/util.h
index 31542a4..8536270 100644
--- a/gen/util.h
+++ b/gen/util.h
@@ -38,6 +38,7 @@ void parse_file_with_callback(const char *,
                               int (*callback)(const char *, char **, size_t,
                                               char *, void *),
                               void *payload);
+int close_output(void);
 
 void properties_compress(const struct properties *,
                          struct properties_compressed *comp);
diff --git a/gen/word.c b/gen/word.c
index 6dcac9d..665ffe0 100644
--- a/gen/word.c
+++ b/gen/word.c
@@ -156,5 +156,5 @@ main(int argc, char *argv[])
 		word_break_property, LEN(word_break_property), NULL,
 		handle_conflict, NULL, "word_break", argv[0]);
 
-	return 0;
+	return close_output();
 }
-- 
2.43.0


From 723fe2a7dc4df4bc4fe595b6d0648fb029c0ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:33 +0000
Subject: [PATCH 23/27] fix: decide Final_Sigma's after-condition at the first
 cased codepoint

A codepoint that is both cased and case-ignorable ends the sequence
"case-ignorable* cased", it was skipped instead.
---
 src/case.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/case.c b/src/case.c
index 60198dd..fcc7952 100644
--- a/src/case.c
+++ b/src/case.c
@@ -79,8 +79,7 @@ to_case(HERODOTUS_READER *r, HERODOTUS_WRITER *w,
 				     HERODOTUS_STATUS_SUCCESS;) {
 					prop = get_case_property(tmp_cp);
 
-					if (prop != CASE_PROP_CASE_IGNORABLE &&
-					    prop != CASE_PROP_BOTH_CASED_CASE_IGNORABLE) {
+					if (prop != CASE_PROP_CASE_IGNORABLE) {
 						break;
 					}
 				}
-- 
2.43.0


From 821be296f811a1994c4df88a9918b07ac89b2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 24/27] fix: reject empty codepoints and reversed ranges

An empty codepoint was read as U+0000 and a range whose end precedes its
start was ignored, so damaged data files yielded damaged tables instead of
an error.
---
 gen/util.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gen/util.c b/gen/util.c
index 5f19013..983dadd 100644
--- a/gen/util.c
+++ b/gen/util.c
@@ -49,6 +49,11 @@ hextocp(const char *str, size_t len, uint_least32_t *cp)
 	int off;
 	char relative;
 
+	if (len == 0) {
+		fprintf(stderr, "hextocp: Empty codepoint.\n");
+		return 1;
+	}
+
 	/* the maximum valid codepoint is 0x10FFFF */
 	if (len > 6) {
 		fprintf(stderr, "hextocp: '%.*s' is too long.\n", (int)len,
@@ -141,6 +146,11 @@ range_parse(const char *str, struct range *range)
 		    hextocp(p + 2, strlen(p + 2), &range->upper)) {
 			return 1;
 		}
+		if (range->lower > range->upper) {
+			fprintf(stderr, "range_parse: '%s' is not a range.\n",
+			        str);
+			return 1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From b8dfc410e9b5cb592d2e94bb4ac1851f3cb6eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 25/27] fix: reject malformed lines of the case mapping data

The results of parsing the codepoint and the mappings were ignored, and
the fields were used without checking that there are that many. Malformed
data thus led to a wrong table or memory errors instead of an error.
---
 gen/case.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gen/case.c b/gen/case.c
index ceb730b..c8ee89d 100644
--- a/gen/case.c
+++ b/gen/case.c
@@ -87,7 +87,9 @@ unicodedata_callback(const char *file, char **field, size_t nfields,
 	(void)comment;
 	(void)payload;
 
-	hextocp(field[0], strlen(field[0]), &cp);
+	if (nfields < 14 || hextocp(field[0], strlen(field[0]), &cp)) {
+		return 1;
+	}
 
 	upper = lower = title = cp;
 
@@ -134,7 +136,9 @@ specialcasing_callback(const char *file, char **field, size_t nfields,
 	}
 
 	/* parse affected codepoint */
-	hextocp(field[0], strlen(field[0]), &cp);
+	if (nfields < 4 || hextocp(field[0], strlen(field[0]), &cp)) {
+		return 1;
+	}
 
 	/* extend special case array */
 	if (!(sc = realloc(sc, (++sclen) * sizeof(*sc)))) {
@@ -143,12 +147,14 @@ specialcasing_callback(const char *file, char **field, size_t nfields,
 	}
 
 	/* parse field data */
-	parse_cp_list(field[3], &(sc[sclen - 1].upper.cp),
-	              &(sc[sclen - 1].upper.cplen));
-	parse_cp_list(field[1], &(sc[sclen - 1].lower.cp),
-	              &(sc[sclen - 1].lower.cplen));
-	parse_cp_list(field[2], &(sc[sclen - 1].title.cp),
-	              &(sc[sclen - 1].title.cplen));
+	if (parse_cp_list(field[3], &(sc[sclen - 1].upper.cp),
+	                  &(sc[sclen - 1].upper.cplen)) ||
+	    parse_cp_list(field[1], &(sc[sclen - 1].lower.cp),
+	                  &(sc[sclen - 1].lower.cplen)) ||
+	    parse_cp_list(field[2], &(sc[sclen - 1].title.cp),
+	                  &(sc[sclen - 1].title.cplen))) {
+		return 1;
+	}
 
 	/*
 	 * overwrite value in "single mapping" property table by the
-- 
2.43.0


From 9d033df07f2435e85ceb995c00c02ebdecb2611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 26/27] fix: reject malformed codepoints in the bidirectional
 data

The results of parsing codepoints were ignored and, as for a bracket that
UnicodeData.txt does not list, uninitialized values were used instead.
---
 gen/bidirectional.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/gen/bidirectional.c b/gen/bidirectional.c
index 661b795..ab485ca 100644
--- a/gen/bidirectional.c
+++ b/gen/bidirectional.c
@@ -155,7 +155,9 @@ decomposition_callback(const char *file, char **field, size_t nfields,
 		return 0;
 	}
 
-	hextocp(field[0], strlen(field[0]), &cp);
+	if (hextocp(field[0], strlen(field[0]), &cp)) {
+		return 1;
+	}
 
 	if (decomp->cp == cp) {
 		/*
@@ -165,10 +167,8 @@ decomposition_callback(const char *file, char **field, size_t nfields,
 		 * which are preceded by a <tag>
 		 */
 		if (strlen(field[5]) > 0 && field[5][0] != '<') {
-			hextocp(field[5], strlen(field[5]),
-			        &(decomp->decomposition));
-		} else {
-			decomp->decomposition = decomp->cp;
+			return hextocp(field[5], strlen(field[5]),
+			               &(decomp->decomposition));
 		}
 	}
 
@@ -205,12 +205,14 @@ bracket_callback(const char *file, char **field, size_t nfields, char *comment,
 	}
 
 	/* parse field data */
-	hextocp(field[0], strlen(field[0]), &cp_base);
-	hextocp(field[1], strlen(field[1]), &cp_pair);
+	if (hextocp(field[0], strlen(field[0]), &cp_base) ||
+	    hextocp(field[1], strlen(field[1]), &cp_pair)) {
+		return 1;
+	}
 
 	/* determine decomposition of the base and pair codepoints */
-	decomp_base.cp = cp_base;
-	decomp_pair.cp = cp_pair;
+	decomp_base.cp = decomp_base.decomposition = cp_base;
+	decomp_pair.cp = decomp_pair.decomposition = cp_pair;
 	parse_file_with_callback(FILE_UNICODE_DATA, decomposition_callback,
 	                         &decomp_base);
 	parse_file_with_callback(FILE_UNICODE_DATA, decomposition_callback,
@@ -403,7 +405,9 @@ mirror_callback(const char *file, char **field, size_t nfields, char *comment,
 	(void)comment;
 	(void)payload;
 
-	hextocp(field[0], strlen(field[0]), &cp);
+	if (nfields < 1 || hextocp(field[0], strlen(field[0]), &cp)) {
+		return 1;
+	}
 
 	cp_mirror = cp;
 
-- 
2.43.0


From 0edded525f5357b40a2d9b1dffabac39e18ee0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 27/27] fix: report failed writes of the generated break tests

As with the other tables, a generator that could not write its output
(e.g. with a full disk) exited successfully.
---
 gen/util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gen/util.c b/gen/util.c
index 983dadd..aebd49c 100644
--- a/gen/util.c
+++ b/gen/util.c
@@ -876,6 +876,11 @@ break_test_list_print(const struct break_test *test, size_t testlen,
 		printf("\t},\n");
 	}
 	printf("};\n");
+
+	/* the test list is all the output there is */
+	if (close_output()) {
+		exit(1);
+	}
 }
 
 void
-- 
2.43.0

