From 79037f6969e18dbdf345fb4a4317ff772226d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:55 +0000
Subject: [PATCH 01/14] fix: symbolic shifts by 2^32 or more returned the
 unshifted operand (stage distance wrapped)

---
 src/bin/fl/fsm.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 3d3bcbf..4b12eee 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -6302,7 +6302,9 @@ op_SHL(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sshl_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	// Moving by the full width (or more) leaves no original bits. Stop
+	// doubling then: shift must not wrap around to 0 on wide vectors.
+	if( shift < op->size ) { shift *= 2; }
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
@@ -6327,7 +6329,9 @@ op_SHR(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sshr_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	// Moving by the full width (or more) leaves no original bits. Stop
+	// doubling then: shift must not wrap around to 0 on wide vectors.
+	if( shift < op->size ) { shift *= 2; }
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
@@ -6354,7 +6358,9 @@ op_ASHR(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sashr_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	// Moving by the full width (or more) leaves no original bits. Stop
+	// doubling then: shift must not wrap around to 0 on wide vectors.
+	if( shift < op->size ) { shift *= 2; }
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
-- 
2.43.0


From beb6c32214b1ae42665cf9ba50dd29f549e7e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 02/14] fix: relational product quantified with the wrong
 operator code

Rel_prod handed its Boolean flag to quantify(), which expects UNIVERSAL or
EXISTENTIAL: relprod_forall quantified existentially when one operand was T,
and relprod_thereis shared operation-cache entries with AND.
---
 src/bin/fl/new_bdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 9c4d81e..0f49a8d 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -933,9 +933,9 @@ Rel_prod(formula qv, formula a, formula b, bool existential)
     if( a == ZERO || b == ZERO || a == NOT(b) )
 	BDD_RETURN( ZERO );
     if( a == ONE || (a == b))
-	BDD_RETURN( quantify(b, qv, existential) );
+	BDD_RETURN( quantify(b, qv, existential? EXISTENTIAL : UNIVERSAL) );
     if( b == ONE )
-	BDD_RETURN( quantify(a, qv, existential) );
+	BDD_RETURN( quantify(a, qv, existential? EXISTENTIAL : UNIVERSAL) );
     if( qv == ONE || qv == ZERO )
 	BDD_RETURN( B_And(a,b) );
 
-- 
2.43.0


From f7ecf90eb318a23fe9a0b133e14d7a0fafd2d3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:38 +0000
Subject: [PATCH 03/14] fix: -1 * MinWord trapped in the overflow test of
 arbi__mlt

---
 src/bin/fl/arb_prec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index 4149779..afe41b5 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -517,7 +517,8 @@ arbi__mlt(arbi_T x, arbi_T y)
         if(!wx) return(arbi__FromInt(0));
         if(!wy) return(arbi__FromInt(0));
 	wp = wx*wy;
-	if(wy == wp/wx && wx == wp/wy ) /* no overflow? */
+	/* wp == MinWord can come from -1*MinWord (and MinWord/-1 traps) */
+	if(wp != MinWord && wy == wp/wx && wx == wp/wy ) /* no overflow? */
 	    return(arbi__FromInt(wp));
     }
 
-- 
2.43.0


From 685c8a928051f6d8b0aeaf4c8573df7f5ee50886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:38 +0000
Subject: [PATCH 04/14] fix: printing a number whose top word is MinWord did
 not terminate

---
 src/bin/fl/arb_prec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/arb_prec.c b/src/bin/fl/arb_prec.c
index afe41b5..c844414 100644
--- a/src/bin/fl/arb_prec.c
+++ b/src/bin/fl/arb_prec.c
@@ -945,7 +945,8 @@ arbi__ToString(arbi_T x, int base)
     for(lgb4 = 4; b4 >> (lgb4+1); lgb4++);
     w = x[lx-1];
     if(w < 0) { w = -w; }
-    for(m = 0; w >> m; m++);
+    /* -MinWord is still negative: as an unsigned word it has WordSize bits */
+    for(m = 0; m < WordSize && (((unsigned s_Word) w) >> m); m++);
     m = (4*(m + WordSize*(lx-1)) + lgb4 - 1)/lgb4 + 1;
     if(x[lx-1] < 0) m++;
     buf = (char *)arbi_alloc((unsigned int) m);
-- 
2.43.0


From 98153c7884601344ef9610fd718e78e94cfe1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:43 +0000
Subject: [PATCH 05/14] fix: locating the item just past the end of a buffer is
 out of range

---
 src/include/buf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/buf.h b/src/include/buf.h
index ff93b13..71bea71 100644
--- a/src/include/buf.h
+++ b/src/include/buf.h
@@ -28,7 +28,7 @@ typedef struct buffer {
 
 #define START_BUF(bp)		((bp)->data)
 #define COUNT_BUF(bp)		((bp)->buf_size)
-#define M_LOCATE_BUF(bp,i)	(((bp)->buf_size >= (unint)(i))?	\
+#define M_LOCATE_BUF(bp,i)	(((bp)->buf_size > (unint)(i))?	\
 				(bp)->data+(((unint)(i))*(bp)->item_size):NULL)
 #define FAST_LOC_BUF(bp,i)	((bp)->data+((((unint)i))*(bp)->item_size))
 
-- 
2.43.0


From 19513668cd9ec08921caccae2664d0a37728b11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:43 +0000
Subject: [PATCH 06/14] fix: STE must not forget that an antecedent ended when
 another event on the node follows

---
 src/bin/fl/fsm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 4b12eee..c4931f9 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3586,7 +3586,6 @@ process_event(buffer *event_bufp, int time)
 	} else {
 	    int idx = ep->nd_idx;
 	    nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, idx);
-	    np->has_ant_or_weak_change = FALSE;
 	    if( ep->type == start_trace ) {
 		np->has_trace = TRUE;
 		gbv H = *(cur_buf + 2*idx);
@@ -7246,6 +7245,7 @@ initialize(ste_ptr ste, bool trace_all)
     nnode_ptr np;
     FOR_BUF(nodesp, nnode_rec, np) {
 	np->has_phase_event = FALSE;
+	np->has_ant_or_weak_change = FALSE;
 	np->has_weak = FALSE;
 	np->has_ant = FALSE;
 	np->has_cons = FALSE;
-- 
2.43.0


From 75f1752d7ea3369bdd1730df639aa56d4eec975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:43 +0000
Subject: [PATCH 07/14] fix: STE keeps a constraint active until the last
 overlapping interval ends

---
 src/bin/fl/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index c4931f9..2e5317e 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3613,7 +3613,6 @@ process_event(buffer *event_bufp, int time)
 			buf = weak_buf;
 			break;
 		    case end_weak:
-			np->has_weak = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			if( c_EQ(ep->H, c_ZERO) && c_EQ(ep->L, c_ZERO) ) {
 			    if( np->composite >= 0 ) {
@@ -3624,6 +3623,7 @@ process_event(buffer *event_bufp, int time)
 			    }
 			}
 			cur_active = delete_active_event(active_weak_tblp, ep);
+			np->has_weak = (cur_active != NULL);
 			buf = weak_buf;
 			break;
 		    case start_ant:
@@ -3633,9 +3633,9 @@ process_event(buffer *event_bufp, int time)
 			buf = ant_buf;
 			break;
 		    case end_ant:
-			np->has_ant = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			cur_active = delete_active_event(active_ant_tblp, ep);
+			np->has_ant = (cur_active != NULL);
 			buf = ant_buf;
 			break;
 		    case start_cons:
@@ -3644,8 +3644,8 @@ process_event(buffer *event_bufp, int time)
 			buf = cons_buf;
 			break;
 		    case end_cons:
-			np->has_cons = FALSE;
 			cur_active = delete_active_event(active_cons_tblp, ep);
+			np->has_cons = (cur_active != NULL);
 			buf = cons_buf;
 			break;
 		    default:
-- 
2.43.0


From 4ebcf6e3a76a887d0035908138f25ed8fb48ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:43 +0000
Subject: [PATCH 08/14] fix: overlapping weakenings in STE weaken where any of
 them applies

---
 src/bin/fl/fsm.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 2e5317e..425fcf3 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3652,11 +3652,13 @@ process_event(buffer *event_bufp, int time)
 			DIE("Should not happen");
 			break;
 		}
-		gbv H = c_ONE;
-		gbv L = c_ONE;
+		bool is_weak = (buf == weak_buf);
+		gbv H = is_weak? c_ZERO : c_ONE;
+		gbv L = is_weak? c_ZERO : c_ONE;
 		while( cur_active ) {
-		    H = c_AND(H, cur_active->ep->H);
-		    L = c_AND(L, cur_active->ep->L);
+		    event_ptr aep = cur_active->ep;
+		    H = is_weak? c_OR(H, aep->H) : c_AND(H, aep->H);
+		    L = is_weak? c_OR(L, aep->L) : c_AND(L, aep->L);
 		    cur_active = cur_active->next;
 		}
 		*(buf + 2*idx)   = H;
-- 
2.43.0


From d39256c2e05b13485f072e3cc61e061c3d39a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:43 +0000
Subject: [PATCH 09/14] fix: an empty interval in an STE assertion must not
 abort fl

---
 src/bin/fl/fsm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 425fcf3..420f039 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3429,6 +3429,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in weakening list\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( to <= from ) continue;	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3458,6 +3459,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in antecedent\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( to <= from ) continue;	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3503,6 +3505,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in consequent\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( to <= from ) continue;	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3547,6 +3550,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in trace list\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( to <= from ) continue;	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
-- 
2.43.0


From 061928d5906dc4619d691b564a631908f7760e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:19 +0000
Subject: [PATCH 10/14] fix: bITE with a bITE in one of its branches used the
 inner condition

---
 src/bin/fl/bexpr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index f72d8d7..de7b9a9 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -1053,17 +1053,19 @@ bITE(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     g_ptr ll = GET_APPLY_LEFT(l);
     g_ptr arg1 = GET_APPLY_RIGHT(ll);
-    current_bexpr_cond = GET_BEXPR(arg1);
-    if( BE_IS_TRUE(current_bexpr_cond) ) {
+    bexpr cond = GET_BEXPR(arg1);
+    if( BE_IS_TRUE(cond) ) {
 	g_ptr arg2 = reduce(GET_APPLY_RIGHT(l), FALSE);
 	OVERWRITE(redex, arg2);
     } else 
-    if( BE_IS_FALSE(current_bexpr_cond) ) {
+    if( BE_IS_FALSE(cond) ) {
 	g_ptr arg3 = reduce(GET_APPLY_RIGHT(redex), FALSE);
 	OVERWRITE(redex, arg3);
     } else {
 	g_ptr arg2 = force(GET_APPLY_RIGHT(l), FALSE);
 	g_ptr arg3 = force(GET_APPLY_RIGHT(redex), FALSE);
+	// Forcing the arguments may have evaluated other bITEs.
+	current_bexpr_cond = cond;
 	g_ptr res = Gen_map2(s_bITE, g_be_ite, arg2, arg3, FALSE);
 	OVERWRITE(redex, res);
     }
-- 
2.43.0


From 90e1f56acae1c41168b3c24a135b35f423ac2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:45 +0000
Subject: [PATCH 11/14] fix: BE_NEQ took different functions with equal
 signatures for equal

---
 src/bin/fl/bexpr.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index de7b9a9..a7f2be0 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -238,19 +238,18 @@ BE_Xnor(bexpr f1, bexpr f2)
 
 // Fast test if f1 != f2.
 // Uses the bexpr signatures to avoid a full SAT computation.
+// Never returns FALSE for two different functions, but may return TRUE for
+// two bexprs that denote the same function.
 bool
 BE_NEQ(bexpr f1, bexpr f2)
 {
     if( f1 == f2 ) return FALSE;
     if( f1 == BE_NOT(f2) ) return TRUE;
     bexpr p1 = BE_POS(f1);
-    bool  n1 = BE_IS_NEG(p1);
     bexpr p2 = BE_POS(f2);
-    bool  n2 = BE_IS_NEG(p2);
-    bool psame = be_sig_eq((pointer) p1, (pointer) p2);
-    if( (n1 == n2) && !psame ) return TRUE;
-    return FALSE;
-//    return( !check_for_satisfaction_with_SAT(BE_Xor(f1,f2)) );
+    if( !be_sig_eq((pointer) p1, (pointer) p2) ) return TRUE;
+    // Distinct functions can share a signature
+    return( !check_for_satisfaction_with_SAT(BE_Xor(f1,f2)) );
 }
 
 bool
@@ -1739,6 +1738,8 @@ be_sat_depend(bexpr be)
 static bool
 check_for_satisfaction_with_SAT(bexpr f)
 {
+    if( BE_IS_FALSE(f) ) return TRUE;
+    if( BE_IS_TRUE(f) ) return FALSE;
     int assumptions[2];
     bool neg_f = BE_IS_NEG(f);
     bexpr p_f  = BE_POS(f);
-- 
2.43.0


From 92150f8331c7a6362ee4e96a21a2199a287b6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:32 +0000
Subject: [PATCH 12/14] fix: bSTE reported failures (and with -a stopped) on
 conditions that are always true

---
 src/bin/fl/bexpr.c |  9 +++++++++
 src/bin/fl/bexpr.h |  1 +
 src/bin/fl/fsm.c   | 20 ++++++++++++++++----
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index a7f2be0..9cf2158 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -252,6 +252,15 @@ BE_NEQ(bexpr f1, bexpr f2)
     return( !check_for_satisfaction_with_SAT(BE_Xor(f1,f2)) );
 }
 
+// As BE_NEQ, but uses SAT to recognize two bexprs for the same function.
+bool
+BE_Differs(bexpr f1, bexpr f2)
+{
+    if( f1 == f2 ) return FALSE;
+    if( f1 == BE_NOT(f2) ) return TRUE;
+    return( !check_for_satisfaction_with_SAT(BE_Xor(f1,f2)) );
+}
+
 bool
 BE_Equal(bexpr f1, bexpr f2)
 {
diff --git a/src/bin/fl/bexpr.h b/src/bin/fl/bexpr.h
index f7c1956..263f486 100644
--- a/src/bin/fl/bexpr.h
+++ b/src/bin/fl/bexpr.h
@@ -30,6 +30,7 @@ bexpr	    BE_Xor(bexpr f1, bexpr f2);
 bexpr	    BE_Xnor(bexpr f1, bexpr f2);
 bool	    BE_Equal(bexpr f1, bexpr f2);
 bool	    BE_NEQ(bexpr f1, bexpr f2);
+bool	    BE_Differs(bexpr f1, bexpr f2);
 void	    BE_Print(odests fp, bexpr f);
 void	    BE_HL_Print(odests fp, bexpr H, bexpr L);
 void	    Reset_BE_Subs();
diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 420f039..a00d03b 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -193,7 +193,8 @@ static void	    (*c_Print)(odests fp, gbv a, int size);
 static gbv	    (*c_NOT)(gbv a);
 static gbv	    (*c_AND)(gbv a, gbv b);
 static gbv	    (*c_OR)(gbv a, gbv b);
-static bool	    (*c_NEQ)(gbv a, gbv b);
+static bool	    (*c_NEQ)(gbv a, gbv b);	// May be TRUE for equal bexprs
+static bool	    (*c_DIFFERS)(gbv a, gbv b);	// Exact (but can be slow)
 static bool	    (*c_isX)(gbv H, gbv L);
 static bool	    (*c_isT)(gbv H, gbv L);
 static gbv	    c_ZERO;
@@ -418,6 +419,7 @@ static gbv            BDD_c_OR(gbv a, gbv b);
 static gbv            BDD_c_limited_AND(gbv a, gbv b);
 static gbv            BDD_c_limited_OR(gbv a, gbv b);
 static bool           bexpr_c_NEQ(gbv a, gbv b);
+static bool           bexpr_c_DIFFERS(gbv a, gbv b);
 static bool           BDD_c_NEQ(gbv a, gbv b);
 static bool           c_EQ(gbv a, gbv b);
 static void           switch_to_bexprs();
@@ -3471,7 +3473,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	gbv okA = c_OR(ep->H, ep->L);
 	if( RCnotify_OK_A_failures &&
 	    (nbr_errors_reported < RCmax_nbr_errors) &&
-	    c_NEQ(okA,c_ONE) )
+	    c_DIFFERS(okA,c_ONE) )
 	{
 	    FP(warning_fp, "Warning: Antecedent failure at time %d", from);
 	    FP(warning_fp, " on node %s\n", idx2name(nd_idx));
@@ -3517,7 +3519,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	gbv okC = c_OR(ep->H, ep->L);
 	if( RCnotify_OK_C_failures &&
 	    (nbr_errors_reported < RCmax_nbr_errors) &&
-	    c_NEQ(okC,c_ONE) )
+	    c_DIFFERS(okC,c_ONE) )
 	{
 	    FP(warning_fp, "Warning: Consequent failure at time %d", from);
 	    FP(warning_fp, " on node %s\n", idx2name(nd_idx));
@@ -7098,6 +7100,14 @@ bexpr_c_NEQ(gbv a, gbv b)
     return( BE_NEQ(f, g) );
 }
 
+static bool
+bexpr_c_DIFFERS(gbv a, gbv b)
+{
+    bexpr f = a.bp;
+    bexpr g = b.bp;
+    return( BE_Differs(f, g) );
+}
+
 static bool
 BDD_c_NEQ(gbv a, gbv b)
 {
@@ -7119,6 +7129,7 @@ switch_to_bexprs()
     c_AND = bexpr_c_AND;
     c_OR = bexpr_c_OR;
     c_NEQ = bexpr_c_NEQ;
+    c_DIFFERS = bexpr_c_DIFFERS;
     c_ZERO.bp = BE_Zero();
     c_ONE.bp  = BE_One();
     c_isT = bexpr_c_isT;
@@ -7156,6 +7167,7 @@ switch_to_BDDs()
     c_AND = BDD_c_AND;
     c_OR = BDD_c_OR;
     c_NEQ = BDD_c_NEQ;
+    c_DIFFERS = BDD_c_NEQ;
     c_ZERO.f = B_Zero();
     c_ONE.f  = B_One();
     c_isT = BDD_c_isT;
@@ -7182,7 +7194,7 @@ update_node(ste_ptr ste, int idx, gbv Hnew, gbv Lnew)
 	    (nbr_errors_reported < RCmax_nbr_errors) )
 	{
 	    gbv abort = c_NOT(c_OR(c_AND(aH, Hnew), c_AND(aL, Lnew)));
-	    if( c_NEQ(abort, c_ZERO) ) {
+	    if( c_DIFFERS(abort, c_ZERO) ) {
 		FP(warning_fp,
 		  "Warning: Antecedent failure at time %d on node %s\n",
 		  ste->cur_time, idx2name(np->idx));
-- 
2.43.0


From 834cdd695f39b59d326bf4c5191e6a8b84c4de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:32 +0000
Subject: [PATCH 13/14] fix: bexpr2bdd with a substitution left wrong BDDs
 behind for later calls

---
 src/bin/fl/bexpr.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 9cf2158..77eeaa6 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -63,6 +63,7 @@ static bool	    be_sig_eq(pointer p1, pointer p2);
 static void	    mark(bexpr be);
 static void	    unmark(bexpr be);
 static formula	    be2bdd(bexpr be);
+static void	    forget_bdds(bexpr be);
 static bexpr	    get_be_node();
 static bexpr	    be_find_insert(bexpr p);
 static bexpr	    be_and(bexpr f1, bexpr f2);
@@ -561,6 +562,8 @@ bexpr2bdd(g_ptr redex)
     g_ptr sub, bf;
     EXTRACT_2_ARGS(redex, sub, bf);
     create_hash(&bexpr2bdd_sub_tbl, 100, str_hash, str_equ);
+    // The saved BDDs are only valid for the empty substitution
+    bool has_subs = !IS_NIL(sub);
     while( !IS_NIL(sub) ) {
         g_ptr pair = GET_CONS_HD(sub);
         string v = GET_STRING(GET_CONS_HD(pair));
@@ -568,7 +571,11 @@ bexpr2bdd(g_ptr redex)
 	insert_hash(&bexpr2bdd_sub_tbl, v, e);
         sub = GET_CONS_TL(sub);
     }
-    MAKE_REDEX_BOOL(redex, be2bdd(GET_BEXPR(bf)));
+    bexpr be = GET_BEXPR(bf);
+    if( has_subs ) { forget_bdds(be); unmark(be); }
+    formula res = be2bdd(be);
+    if( has_subs ) { forget_bdds(be); unmark(be); }
+    MAKE_REDEX_BOOL(redex, res);
     dispose_hash(&bexpr2bdd_sub_tbl, NULLFCN);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
@@ -1438,6 +1445,18 @@ be2bdd(bexpr be)
     return( neg? B_Not(res) : res );
 }
 
+static void
+forget_bdds(bexpr be)
+{
+    be = BE_POS(be);
+    if( BE_GET_MARK(be) == 1 ) return;
+    BE_SET_MARK(be, 1);
+    be->has_bdd = 0;
+    if( BE_GET_TYPE(be) != BE_AND ) return;
+    forget_bdds( BE_GET_LEFT(be) );
+    forget_bdds( BE_GET_RIGHT(be) );
+}
+
 static bexpr
 get_be_node()
 {
-- 
2.43.0


From c73022e44dd6112deaf834b048ff90156a981307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:50 +0000
Subject: [PATCH 14/14] fix: gen_charappend returned another buffer when the
 string was full

---
 src/lib/strmgr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/strmgr.c b/src/lib/strmgr.c
index d11e013..7ab5d1f 100644
--- a/src/lib/strmgr.c
+++ b/src/lib/strmgr.c
@@ -207,7 +207,7 @@ gen_charappend(tstr_ptr tp, char c)
     ASSERT(tp->initialized == STRMGR_MAGIC_NBR);
     if( 1 + tp->tmp_cnt > STR_BLOCK_SIZE ) {
 	string_too_long_warning();
-	return(tmp_buf);
+	return(tp->tmp_buf);
     }
     *(tp->cur_tmp) = c;
     tp->cur_tmp++;
-- 
2.43.0

