From 5074d12516369ad813a6d705af27f21f589c975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 001/111] fix: initialise label sets compared when a state has
 no edge for a label

try_partition() compared uninitialised label sets for states without an
edge for the label, so equivalent states could be split and the result
of fsm_minimise() was not minimal.
---
 src/libfsm/minimise.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index a2ff1b8..008b447 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -1250,7 +1250,8 @@ try_partition(struct min_env *env, unsigned char label,
 	fprintf(stderr, "# --- try_partition: checking '%c' for %u\n", label, ec_src);
 #endif
 
-	uint64_t first_dst_label_set[256/64];
+	/* left empty when there is no edge for this label */
+	uint64_t first_dst_label_set[256/64] = { 0 };
 
 	/* Use the edge_set's label grouping to check a
 	 * set of labels at once, and note which labels
@@ -1288,7 +1289,7 @@ try_partition(struct min_env *env, unsigned char label,
 	env->ecs[ec_dst] = NO_ID;
 
 	while (cur != NO_ID) {
-		uint64_t cur_label_set[256/64];
+		uint64_t cur_label_set[256/64] = { 0 };
 		fsm_state_t cur_dst_state;
 
 		if (edge_set_check_edges_with_EC_mapping(states[cur].edges, label,
-- 
2.43.0


From 68005a0bc43cdf62f6d5dfc23429fe1cc2230c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 002/111] fix: free the end ids of states removed by compaction

---
 src/libfsm/endids.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 6d8e885..f522152 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -1068,7 +1068,10 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 
 		assert(ob->state < mapping_count);
 		const fsm_state_t nstate = mapping[ob->state];
-		if (nstate == FSM_STATE_REMAP_NO_STATE) { continue; }
+		if (nstate == FSM_STATE_REMAP_NO_STATE) {
+			f_free(fsm->alloc, ob->ids);
+			continue;
+		}
 
 		const uint64_t hash = hash_id(nstate);
 
-- 
2.43.0


From fc336c17547b801c6342a6f733c9e515db08f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 003/111] fix: keep states with different eager outputs apart
 when minimising

Collecting the metadata of an equivalence class stopped at its first
state that was neither accepting nor had eager outputs, so outputs of
later states were not seen and such states could be merged.
---
 src/libfsm/minimise.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/minimise.c b/src/libfsm/minimise.c
index 008b447..31e4129 100644
--- a/src/libfsm/minimise.c
+++ b/src/libfsm/minimise.c
@@ -778,7 +778,9 @@ split_ecs_by_end_metadata(struct min_env *env, const struct fsm *fsm)
 			const bool has_eager_outputs = fsm_eager_output_state_has_eager_output(fsm, s);
 
 			if (!is_end && !has_eager_outputs) {
-				break; /* skip */
+				/* skip; other states here may have eager outputs */
+				s = env->jump[s];
+				continue;
 			}
 
 			if (!collect_end_ids(fsm, s, &e->end)) {
-- 
2.43.0


From c0ede3b838bcfec36a175e8dbb6344b34c067ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 004/111] fix: shift earlier bases in fsm_union_array when
 their states move

---
 src/libfsm/union.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 4b07ca6..afeabe0 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -194,7 +194,7 @@ fsm_union_array(size_t fsm_count,
 		/* If the first argument didn't get its states put first
 		 * in the union, then shift the bases for everything
 		 * that has been combined into it so far. */
-		if (ci.capture_base_a > 0) {
+		if (ci.base_a > 0 || ci.capture_base_a > 0) {
 			size_t shift_i;
 			for (shift_i = 0; shift_i < i; shift_i++) {
 				bases[shift_i].state += ci.base_a;
-- 
2.43.0


From 3d9e9269609cca0a3c7541691903bfe52f7a7e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 005/111] fix: fsm_concat left the accepting states of its
 first operand accepting

---
 src/libfsm/concat.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 9f87802..12605e7 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -22,7 +22,7 @@ fsm_concat(struct fsm *a, struct fsm *b,
 {
 	struct fsm *q;
 	fsm_state_t ea, sb;
-	fsm_state_t sq;
+	fsm_state_t sq, i;
 	struct fsm_combine_info combine_info_internal;
 
 	if (combine_info == NULL) {
@@ -54,7 +54,10 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
-	fsm_setend(a, ea, 1);
+	/* only the collated state may lead on to b, and none of them accept */
+	for (i = 0; i < a->statecount; i++) {
+		fsm_setend(a, i, 0);
+	}
 
 	q = fsm_merge(a, b, combine_info);
 	assert(q != NULL);
@@ -63,8 +66,6 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	ea += combine_info->base_a;
 	sb += combine_info->base_b;
 
-	fsm_setend(q, ea, 0);
-
 	/*
 	 * The textbook approach is to create epsilon transition(s) from the end
 	 * state of one FSM to the start state of the next FSM.
-- 
2.43.0


From 3851873103d44b5a06d2851b348cbbc30ca4199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 006/111] fix: edge_set_remove_state and edge_set_replace_state
 moved a group from past the end

---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 178ddbc..5a8385e 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -803,7 +803,7 @@ edge_set_remove_state(struct edge_set **pset, fsm_state_t state)
 	while (i < set->count) {
 		const struct edge_group *eg = &set->groups[i];
 		if (eg->to == state) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			memmove(&set->groups[i],
 			    &set->groups[i + 1],
 			    to_mv * sizeof(*eg));
@@ -1086,7 +1086,7 @@ edge_set_replace_state(struct edge_set **pset, const struct fsm_alloc *alloc,
 	for (i = 0; i < set->count; i++) {
 		struct edge_group *eg = &set->groups[i];
 		if (eg->to == old) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			unsigned char label;
 			if (!find_first_group_label(eg, &label)) {
 				return 1; /* ignore empty group */
-- 
2.43.0


From 70778a7a30b15079d980bf69decde205d5349d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 007/111] fix: count used buckets when fsm_endid_compact drops
 end ids

---
 src/libfsm/endids.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index f522152..2ce25a5 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -1070,6 +1070,7 @@ fsm_endid_compact(struct fsm *fsm, fsm_state_t *mapping, size_t mapping_count)
 		const fsm_state_t nstate = mapping[ob->state];
 		if (nstate == FSM_STATE_REMAP_NO_STATE) {
 			f_free(fsm->alloc, ob->ids);
+			ei->buckets_used--;
 			continue;
 		}
 
-- 
2.43.0


From 209222db00d731e31bf0c3f9d819e94ca2eef30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 008/111] fix: fsm_endid_set_bulk with no ids gave the state an
 uninitialised id

---
 src/libfsm/endids.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/endids.c b/src/libfsm/endids.c
index 2ce25a5..06ae0b2 100644
--- a/src/libfsm/endids.c
+++ b/src/libfsm/endids.c
@@ -576,7 +576,7 @@ fsm_endid_set_bulk(struct fsm *fsm,
 
 		fsm_end_id_t *ids = b->ids->ids;
 		n = b->ids->count;
-		for (i=1, j=1; i < n; i++) {
+		for (i=1, j=n < 1 ? n : 1; i < n; i++) {
 			LOG_3("i = %zu, j = %zu, ids[i] = %u, ids[j] = %u\n", i,j,ids[i],ids[j]);
 			if (ids[i]  != ids[i-1]) {
 				if (i != j) {
-- 
2.43.0


From a2f340a4ded4eec1821a9bcb27ac04844a41a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 009/111] fix: keep state sets sorted when compacting with a
 mapping that reorders states

---
 src/adt/stateset.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index c2cc8b8..bcfefb3 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -420,7 +420,6 @@ state_set_compact(struct state_set **setp,
 		if (new_id == FSM_STATE_REMAP_NO_STATE) {
 			*setp = NULL;
 		} else {
-			assert(new_id <= s);
 			*setp = SINGLETON_ENCODE(new_id);
 		}
 		return;
@@ -453,6 +452,16 @@ state_set_compact(struct state_set **setp,
 	set->i -= removed;
 	assert(set->i == dst);
 
+	/* The mapping need not preserve order, or keep states distinct. */
+	qsort(set->a, set->i, sizeof set->a[0], state_set_cmpptr);
+
+	for (i = 0, dst = 0; i < set->i; i++) {
+		if (dst == 0 || set->a[dst - 1] != set->a[i]) {
+			set->a[dst++] = set->a[i];
+		}
+	}
+	set->i = dst;
+
 #if LOG_COMPACT
 	for (i = 0; i < set->i; i++) {
 		fprintf(stderr, "state_set_compact: now set->a[%zu/%zu]: %d\n", i, set->i, set->a[i]);
-- 
2.43.0


From 4b7287758d9fb01a26794f137ee3744b90942b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 010/111] fix: keep state sets sorted when replacing a state

---
 src/adt/stateset.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index bcfefb3..0eae74c 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -671,9 +671,26 @@ state_set_replace(struct state_set **setp, fsm_state_t old, fsm_state_t new)
 		return;
 	}
 
-	for (i = 0; i < set->i; i++) {
-		if (set->a[i] == old) {
-			set->a[i] = new;
-		}
+	i = state_set_search(set, old);
+	if (i >= set->i || set->a[i] != old) {
+		return;
 	}
+
+	/* Keep the set sorted and without duplicates. There is always room,
+	 * because the old state is removed first. */
+	memmove(&set->a[i], &set->a[i + 1], (set->i - i - 1) * (sizeof *set->a));
+	set->i--;
+
+	i = 0;
+	while (i < set->i && set->a[i] < new) {
+		i++;
+	}
+
+	if (i < set->i && set->a[i] == new) {
+		return;
+	}
+
+	memmove(&set->a[i + 1], &set->a[i], (set->i - i) * (sizeof *set->a));
+	set->a[i] = new;
+	set->i++;
 }
-- 
2.43.0


From e9a3b10ff8b6b5ed79c9bcfe4489c8bcf2bd2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 011/111] fix: move end ids and eager outputs along with states
 in fsm_removestate

---
 src/libfsm/state.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 786bc3a..5a0bb9a 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -119,10 +119,32 @@ int
 fsm_removestate(struct fsm *fsm, fsm_state_t state)
 {
 	fsm_state_t start, i;
+	fsm_state_t *mapping;
 
 	assert(fsm != NULL);
 	assert(state < fsm->statecount);
 
+	/* Drop the metadata of the state removed, and carry over
+	 * that of the last state, which takes its place. */
+	mapping = f_malloc(fsm->alloc, fsm->statecount * sizeof(mapping[0]));
+	if (mapping == NULL) {
+		return 0;
+	}
+
+	for (i = 0; i < fsm->statecount; i++) {
+		mapping[i] = i;
+	}
+	mapping[fsm->statecount - 1] = state;
+	mapping[state] = FSM_STATE_REMAP_NO_STATE;
+
+	if (!fsm_endid_compact(fsm, mapping, fsm->statecount)
+	|| !fsm_eager_output_compact(fsm, mapping, fsm->statecount)) {
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
+
+	f_free(fsm->alloc, mapping);
+
 	/* for endcount accounting */
 	fsm_setend(fsm, state, 0);
 
-- 
2.43.0


From 947126d408f01f85adddbe6b366c17ed0eb013d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 012/111] fix: fsm_setend ignored end values other than 0 and 1

---
 src/libfsm/end.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/end.c b/src/libfsm/end.c
index 5a4aa0d..c0eb220 100644
--- a/src/libfsm/end.c
+++ b/src/libfsm/end.c
@@ -26,7 +26,7 @@ fsm_setend(struct fsm *fsm, fsm_state_t state, int end)
 		return;
 	}
 
-	switch (end) {
+	switch (!!end) {
 	case 0:
 		assert(fsm->endcount > 0);
 		fsm->endcount--;
-- 
2.43.0


From 907f657a4426d9d3b52fc3ef16a4abaa40aa111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 013/111] fix: edge_set_copy of an empty set into an existing
 set

---
 src/adt/edgeset.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 5a8385e..30cb6eb 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -708,17 +708,16 @@ edge_set_copy(struct edge_set **dst, const struct fsm_alloc *alloc,
 	    (void *)src, (void *)*dst);
 #endif
 
+	if (edge_set_empty(src)) {
+		return 1;
+	}
+
 	if (*dst != NULL) {
 		/* The other `edge_set_copy` copies in the
 		 * edges from src if *dst already exists. */
 		return edge_set_copy_into(dst, alloc, src);
 	}
 
-	if (edge_set_empty(src)) {
-		*dst = NULL;
-		return 1;
-	}
-
 	set = f_malloc(alloc, sizeof(*set));
 	if (set == NULL) {
 		return 0;
-- 
2.43.0


From a4885da401fe017ed61a68a0fba4b8a59fbd0dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 014/111] fix: fsm_remove_epsilons on an automaton with no
 states

---
 src/libfsm/epsilons.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 926e6d9..7543714 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -141,6 +141,10 @@ fsm_remove_epsilons(struct fsm *nfa)
 
 	assert(nfa != NULL);
 
+	if (state_count == 0) {
+		return 1;
+	}
+
 	TIME(&pre);
 	eclosures = epsilon_closure(nfa);
 	TIME(&post);
-- 
2.43.0


From d2b7b11c8f07af3eeb5220994da70ad127dc1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 015/111] fix: fsm_mergestates lost the start, end and ids of
 the second state

---
 src/libfsm/mergestates.c | 64 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/mergestates.c b/src/libfsm/mergestates.c
index 77d5e2f..7dc983c 100644
--- a/src/libfsm/mergestates.c
+++ b/src/libfsm/mergestates.c
@@ -6,14 +6,52 @@
 
 #include <assert.h>
 #include <stdlib.h>
+#include <stdio.h>
 
 #include <fsm/fsm.h>
+#include <fsm/pred.h>
 
 #include <adt/set.h>
 #include <adt/stateset.h>
 #include <adt/edgeset.h>
 
 #include "internal.h"
+#include "endids.h"
+#include "eager_output.h"
+
+/* Set on state a the end ids and eager outputs of state b. */
+static int
+carry_ids(struct fsm *fsm, fsm_state_t a, fsm_state_t b)
+{
+	unsigned *ids;
+	size_t i, n, m;
+	int ok;
+
+	n = fsm_endid_count(fsm, b);
+	m = fsm_eager_output_count(fsm, b);
+	if (n + m == 0) {
+		return 1;
+	}
+
+	ids = f_malloc(fsm->alloc, (n + m) * sizeof *ids);
+	if (ids == NULL) {
+		return 0;
+	}
+
+	ok = fsm_endid_get(fsm, b, n, ids)
+		&& fsm_eager_output_get(fsm, b, m, ids + n);
+
+	for (i = 0; ok && i < n; i++) {
+		ok = fsm_endid_set(fsm, a, ids[i]);
+	}
+	for (i = 0; ok && i < m; i++) {
+		ok = fsm_eager_output_set(fsm, a, ids[n + i]);
+	}
+
+	f_free(fsm->alloc, ids);
+
+	return ok;
+}
 
 int
 fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
@@ -21,12 +59,31 @@ fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 {
 	struct fsm_edge e;
 	struct edge_iter it;
-	fsm_state_t i;
+	fsm_state_t i, start, last;
 
 	assert(fsm != NULL);
 	assert(a < fsm->statecount);
 	assert(b < fsm->statecount);
 
+	if (a == b) {
+		if (q != NULL) {
+			*q = a;
+		}
+
+		return 1;
+	}
+
+	/* the merged state takes over what b is */
+	if (fsm_isend(fsm, b)) {
+		fsm_setend(fsm, a, 1);
+	}
+	if (!carry_ids(fsm, a, b)) {
+		return 0;
+	}
+	if (fsm_getstart(fsm, &start) && start == b) {
+		fsm_setstart(fsm, a);
+	}
+
 	/* edges from b */
 	if (!state_set_copy(&fsm->states[a].epsilons, fsm->alloc, fsm->states[b].epsilons)) {
 		return 0;
@@ -58,12 +115,15 @@ fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 		edge_set_remove_state(&fsm->states[i].edges, b);
 	}
 
+	last = fsm->statecount - 1;
+
 	if (!fsm_removestate(fsm, b)) {
 		return 0;
 	}
 
+	/* the last state is moved into the place of the state removed */
 	if (q != NULL) {
-		*q = a;
+		*q = a == last ? b : a;
 	}
 
 	return 1;
-- 
2.43.0


From 07f685160d1c3909164a9a16ae2afe11665ba007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 016/111] fix: fsm_removestate lost track of the start state
 when it was the last state

---
 src/libfsm/state.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 5a0bb9a..fbd8888 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -158,12 +158,16 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	state_set_free(fsm->states[state].epsilons);
 	edge_set_free(fsm->alloc, fsm->states[state].edges);
 
-	if (fsm_getstart(fsm, &start) && start == state) {
-		fsm_clearstart(fsm);
-	}
-
 	assert(fsm->statecount >= 1);
 
+	if (fsm_getstart(fsm, &start)) {
+		if (start == state) {
+			fsm_clearstart(fsm);
+		} else if (start == fsm->statecount - 1) {
+			fsm_setstart(fsm, state);
+		}
+	}
+
 	/*
 	 * In order to avoid a hole, we move the last state over the removed index.
 	 * This need a pass over all transitions to renumber any which point to
-- 
2.43.0


From 88255382e4aea0fab054dce21d00a79ae0ccee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 017/111] fix: redirect start-anchored edges to the eager match
 state when combining a pattern group

---
 src/libfsm/union.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index afeabe0..c54a907 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -580,6 +580,19 @@ modify_group_nfa(struct fsm *nfa, size_t id, struct analysis_info *ainfo, size_t
 			}
 		}
 
+		/* The edges copied when the NFA was analyzed still lead to the
+		 * unanchored_end_loop, these need to be replaced as well. */
+		if (ainfo->unanchored_end_loop != NO_STATE) {
+			if (!edge_set_replace_state(&ainfo->anchored_firsts, nfa->alloc,
+				ainfo->unanchored_end_loop, ainfo->eager_match_state)) {
+				return false;
+			}
+			if (!edge_set_replace_state(&ainfo->repeatable_firsts, nfa->alloc,
+				ainfo->unanchored_end_loop, ainfo->eager_match_state)) {
+				return false;
+			}
+		}
+
 		state_set_reset(ainfo->needs_indirect_epsilon_edge_to_eager_match_state, &si);
 		fsm_state_t intermediate_i;
 		while (state_set_next(&si, &intermediate_i)) {
-- 
2.43.0


From 4c86b003c7f7edad40c9e4c4c20427348b27a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 018/111] fix: comparing an FSM without a start state must not
 abort

---
 src/libfsm/equal.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index 02489b0..c7a944f 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -118,6 +118,8 @@ subsetof(const struct fsm *a, const struct fsm *b)
 int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
+	int a_empty, b_empty;
+
 	assert(a != NULL);
 	assert(b != NULL);
 
@@ -126,8 +128,11 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 		return -1;
 	}
 
-	if (fsm_empty(a) && fsm_empty(b)) {
-		return 1;
+	/* An FSM with no start state doesn't match anything, either. */
+	a_empty = fsm_empty(a) != 0;
+	b_empty = fsm_empty(b) != 0;
+	if (a_empty || b_empty) {
+		return a_empty && b_empty;
 	}
 
 	/*
-- 
2.43.0


From 94fad5d3190dd352d5e5cdee48ccfae255e03d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 019/111] fix: report errors while comparing FSMs, rather than
 equality

---
 src/libfsm/equal.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index c7a944f..a9fd6a8 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -119,6 +119,7 @@ int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
 	int a_empty, b_empty;
+	int r;
 
 	assert(a != NULL);
 	assert(b != NULL);
@@ -141,6 +142,11 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 	 * This is equivalent finding that (a \ b) \u (b \ a) is empty.
 	 */
 
-	return subsetof(a, b) && subsetof(b, a);
+	r = subsetof(a, b);
+	if (r != 1) {
+		return r;
+	}
+
+	return subsetof(b, a);
 }
 
-- 
2.43.0


From da6370fb0f1e7d2b9fb61f2276675cb35e9416d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 020/111] fix: find the least-cost label, not the first, for
 the shortest path

---
 src/libfsm/shortest.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index 45a441a..af30921 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -119,22 +119,24 @@ fsm_shortest(const struct fsm *fsm,
 
 			assert(v->state == info.to);
 
-			/* find first character in bitset. */
-			for (size_t i = 0; i < 4 && symbol == (unsigned)-1; i++) {
+			/* find the least-cost character in bitset. */
+			c = FSM_COST_INFINITY;
+			for (size_t i = 0; i < 4; i++) {
 				const uint64_t w = info.symbols[i];
 				if (w != 0) {
 					for (size_t bit = 0; bit < 64; bit++) {
 						if (u64bitset_get(&w, bit)) {
-							symbol = 64*i + bit;
-							break;
+							const unsigned sc = cost(u->state, v->state, (char) (64*i + bit));
+							if (symbol == (unsigned)-1 || sc < c) {
+								c = sc;
+								symbol = 64*i + bit;
+							}
 						}
 					}
 				}
 			}
 			assert(symbol != (unsigned)-1); /* found */
 
-			c = cost(u->state, v->state, (char)symbol);
-
 			/* relax */
 			if (v->cost > u->cost + c) {
 				v->cost = u->cost + c;
-- 
2.43.0


From e5c694c8f4c8b227332f34cffed5a3cff840f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 021/111] fix: look up the start state after trimming when
 generating matches

---
 src/libfsm/gen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libfsm/gen.c b/src/libfsm/gen.c
index 8b85514..10b5dad 100644
--- a/src/libfsm/gen.c
+++ b/src/libfsm/gen.c
@@ -323,6 +323,13 @@ gen_init(struct gen_ctx *ctx, struct fsm *fsm)
 		ctx->state_counts[i] = NO_COUNT;
 	}
 
+	/* Trimming renumbers the states, and no states remain
+	 * if the start state can't reach an end. */
+	if (!fsm_getstart(ctx->fsm, &start)) {
+		ctx->done = true;
+		return true;
+	}
+
 	if (!enter_state(ctx, start)) {
 		return false;
 	}
-- 
2.43.0


From 6ff803f39ee5e737ee1469dee198e84f4c7d589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 022/111] fix: the path for an unreachable goal must not
 contain the goal

---
 src/libfsm/shortest.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/shortest.c b/src/libfsm/shortest.c
index af30921..959367b 100644
--- a/src/libfsm/shortest.c
+++ b/src/libfsm/shortest.c
@@ -169,11 +169,11 @@ none:
 	 * This is slightly ugly: the idea is to return something non-NULL here;
 	 * so that the caller may distinguish this case from error.
 	 *
-	 * The state u is used just because it may never be the goal state,
+	 * The start state is used just because it may never be the goal state,
 	 * (otherwise we would have been able to reach it).
 	 */
 
-	if (!path_push(fsm->alloc, &path, u->state, u->c)) {
+	if (!path_push(fsm->alloc, &path, start, '\0')) {
 		goto error;
 	}
 
-- 
2.43.0


From 280c47438c2e2c0462c4656d75a40d64fded4108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 023/111] fix: a state whose edges all lead to different states
 has a mode

fsm_findmode() started its search from a frequency of 1 and asked for
more, so a complete state with 256 different targets hit the assertion
(or yielded -1 with NDEBUG). Compiling such a state for the VM, or
printing it as code, aborted.
---
 src/libfsm/mode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/mode.c b/src/libfsm/mode.c
index 87af0bd..c233c40 100644
--- a/src/libfsm/mode.c
+++ b/src/libfsm/mode.c
@@ -27,7 +27,7 @@ fsm_findmode(const struct fsm *fsm, fsm_state_t state, unsigned int *freq)
 		unsigned int freq;
 	} mode;
 
-	mode.freq = 1;
+	mode.freq = 0;
 	mode.state = (fsm_state_t)-1;
 
 	edge_set_group_iter_reset(fsm->states[state].edges, EDGE_GROUP_ITER_ALL, &iter);
-- 
2.43.0


From fd01e597c61b6fe8c4dc58156c2f051e75aea9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 024/111] fix: fsm_vm_match_file() of an empty file

For an empty file the program was never started, so the result did not
say whether the start state accepts.
---
 src/libfsm/vm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/vm.c b/src/libfsm/vm.c
index 0eb4fa1..087fc43 100644
--- a/src/libfsm/vm.c
+++ b/src/libfsm/vm.c
@@ -198,14 +198,19 @@ fsm_vm_match_file(const struct fsm_dfavm *vm, FILE *f)
 		size_t nb;
 
 		nb = fread(buf, 1, sizeof buf, f);
-		if (nb == 0) {
-			break;
-		}
 
+		/*
+		 * This also runs for nb = 0, because for an empty file
+		 * the program still needs to reach its first fetch.
+		 */
 		result = vm_match(vm, &st, buf, nb);
 		if (result != VM_MATCHING) {
 			return result == VM_SUCCESS;
 		}
+
+		if (nb == 0) {
+			break;
+		}
 	}
 
 	if (ferror(f)) {
-- 
2.43.0


From 73b3d20d94a10f9de8197b4dfc4f61b518cf6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 025/111] fix: printing code for a DFA with unreachable states

When the start state stops unconditionally (it has no edges, or accepts
anything) the VM-based printers asserted that no other code follows.
But the caller need not trim the automaton first.
---
 src/libfsm/print/go.c   | 4 ++--
 src/libfsm/print/rust.c | 3 +--
 src/libfsm/print/vmc.c  | 4 ++--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 1f6b7a0..650da6a 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -297,8 +297,8 @@ fsm_print_gofrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
+		/* nothing to declare */
 	} else {
 		switch (opt->io) {
 		case FSM_IO_PAIR:
diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index c1fcf5b..9a9cc7b 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -280,8 +280,7 @@ fsm_print_rustfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
 		fprintf(f, "\n");
 	} else {
 		switch (opt->io) {
diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index b427a9c..508a95b 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -414,8 +414,8 @@ fsm_print_cfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP) {
-		assert(ops->next == NULL);
+	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
+		/* nothing to declare */
 	} else {
 		switch (opt->io) {
 		case FSM_IO_GETC:
-- 
2.43.0


From 6b4602542ef9dc38c7838b78c653563b13d470d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 026/111] fix: generated VM-style C matches strings holding NUL

For FSM_IO_STR a run of bytes was compared with strncmp(), which stops
at a NUL in both strings. The code then carried on past the end of the
input.
---
 src/libfsm/print/vmc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/print/vmc.c b/src/libfsm/print/vmc.c
index 508a95b..c3d16e4 100644
--- a/src/libfsm/print/vmc.c
+++ b/src/libfsm/print/vmc.c
@@ -477,7 +477,8 @@ fsm_print_cfrag(FILE *f,
 				fprintf(f, "p += %zu;\n", n);
 
 				op = tail;
-			} else if (n > 1 && opt->io == FSM_IO_STR) {
+			} else if (n > 1 && opt->io == FSM_IO_STR && memchr(buf, '\0', n) == NULL) {
+				/* strncmp() would stop at a '\0' in both strings, and find them equal */
 				fprintf(f, "if (0 != strncmp(p, \"");
 				escputbuf(f, opt, c_escputc_str, buf, n);
 				fprintf(f, "\", %zu)) ", n);
-- 
2.43.0


From 56a0bd0a4688f8112519a9de5bbb5f4adb90ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 027/111] fix: LLVM output for byte 0 with always_hex

"u%#02x" prints 0 as "u00", which is not an LLVM integer.
---
 src/print/llvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/print/llvm.c b/src/print/llvm.c
index ab0c697..63fc48b 100644
--- a/src/print/llvm.c
+++ b/src/print/llvm.c
@@ -22,7 +22,7 @@ llvm_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex) {
-		return fprintf(f, "u%#02x", (unsigned char) c);
+		return fprintf(f, "u0x%02x", (unsigned char) c);
 	}
 
 	return fprintf(f, "%u", (unsigned char) c);
@@ -35,7 +35,7 @@ llvm_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(opt != NULL);
 
 	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		fprintf(f, "u%#02x", (unsigned char) c);
+		fprintf(f, "u0x%02x", (unsigned char) c);
 		return;
 	}
 
-- 
2.43.0


From dbc091880367eaf8e7a0152c7e760cac95ac0158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 028/111] fix: end ids in the fsm text format are decimal

They are printed with %u, and were read as hexadecimal.
---
 src/libfsm/parser.act | 2 +-
 src/libfsm/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 2596c3c..7b9d4f5 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -258,7 +258,7 @@
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index ec9bf4f..2d90b41 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -1305,7 +1305,7 @@ p_xend_C_Cend_Hid(fsm fsm, lex_state lex_state, act_state act_state, state ZIs)
 
 		errno = 0;
 
-		u = strtoul(lex_state->buf.a, &e, 16);
+		u = strtoul(lex_state->buf.a, &e, 10);
 
 		if ((u == ULONG_MAX && errno == ERANGE) || u > FSM_END_ID_MAX) {
 			err(lex_state, "end id %s out of range: expected 0..%u inclusive",
-- 
2.43.0


From fa9a9f6985f2a0c71450fb705623cddb164f88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 029/111] fix: a NUL byte as a label in the fsm text format

This hit an assertion; a label of any other byte is read.
---
 src/libfsm/parser.act | 2 +-
 src/libfsm/parser.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 7b9d4f5..eef8bc3 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -241,7 +241,7 @@
 	@};
 
 	CHAR: () -> (c :char) = @{
-		assert(lex_state->buf.a[0] != '\0');
+		/* the label may be '\0' */
 		assert(lex_state->buf.a[1] == '\0');
 
 		@c = lex_state->buf.a[0];
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index 2d90b41..e1a3d21 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -181,7 +181,7 @@ p_label(fsm fsm, lex_state lex_state, act_state act_state, char *ZOc)
 					{
 #line 243 "src/libfsm/parser.act"
 
-		assert(lex_state->buf.a[0] != '\0');
+		/* the label may be '\0' */
 		assert(lex_state->buf.a[1] == '\0');
 
 		ZIc = lex_state->buf.a[0];
-- 
2.43.0


From af53055db309c50836d6beecdf51b44b720790ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 030/111] fix: print accepting states of an automaton without a
 start state

The fsm format can express this, and they were lost on reading back.
---
 src/libfsm/print/fsm.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/print/fsm.c b/src/libfsm/print/fsm.c
index 0275315..eccbbdf 100644
--- a/src/libfsm/print/fsm.c
+++ b/src/libfsm/print/fsm.c
@@ -321,12 +321,10 @@ fsm_print_fsm(FILE *f,
 
 	fprintf(f, "\n");
 
-	if (!fsm_getstart(fsm, &start)) {
-		goto done;
+	if (fsm_getstart(fsm, &start)) {
+		fprintf(f, "start: %u;\n", start);
 	}
 
-	fprintf(f, "start: %u;\n", start);
-
 	end = fsm->endcount;
 
 	if (end == 0) {
-- 
2.43.0


From dc9310e113c4fca5f9cadb8e7b58ac14e92628cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 031/111] fix: unbalanced parenthesis in the generated API
 calls

---
 src/libfsm/print/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 43b8cb2..0dca60e 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -126,7 +126,7 @@ fsm_print_api(FILE *f,
 	fprintf(f, "\t\t}\n");
 	fprintf(f, "\n");
 
-	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i]) {\n");
+	fprintf(f, "\t\tif (!fsm_addstate(fsm, &s[i])) {\n");
 	fprintf(f, "\t\t\treturn 0;\n");
 	fprintf(f, "\t\t}\n");
 
-- 
2.43.0


From a8474f81f31323f6c14339b2bd6931edee10ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 032/111] fix: generated API calls set the automaton's end ids

They set the index of each id.
---
 src/libfsm/print/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 0dca60e..19030fe 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -154,7 +154,7 @@ fsm_print_api(FILE *f,
 
 			fprintf(f, "\tif (fsm_isend(fsm, s[%u])) {\n", end);
 			for (size_t id = 0; id < count; id++) {
-				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %zu)) { return 0; }\n", end, id);
+				fprintf(f, "\t\tif (!fsm_endid_set(fsm, s[%u], %uU)) { return 0; }\n", end, ids[id]);
 			}
 			fprintf(f, "\t}\n");
 			fprintf(f, "\n");
-- 
2.43.0


From b986dba148e5ff0737d9153165e159b5f577681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 033/111] fix: generated API calls when the start state is the
 end state

The caller's end state was left unconnected.
---
 src/libfsm/print/api.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/print/api.c b/src/libfsm/print/api.c
index 19030fe..a0b08ad 100644
--- a/src/libfsm/print/api.c
+++ b/src/libfsm/print/api.c
@@ -49,7 +49,7 @@ fsm_print_api(FILE *f,
 	const struct fsm *fsm_orig)
 {
 	struct fsm *fsm;
-	fsm_state_t start, end;
+	fsm_state_t start, end, orig;
 	struct bm *a; /* indexed by "to" state number */
 	unsigned int from;
 
@@ -77,6 +77,25 @@ fsm_print_api(FILE *f,
 		goto error;
 	}
 
+	/*
+	 * The caller gives two distinct states, so an end state which is also
+	 * the start state needs a counterpart of its own.
+	 */
+	orig = end;
+	if (end == start) {
+		fsm_state_t new;
+
+		if (!fsm_addstate(fsm, &new)) {
+			goto error;
+		}
+
+		if (!fsm_addedge_epsilon(fsm, end, new)) {
+			goto error;
+		}
+
+		end = new;
+	}
+
 /* TODO: leaf callback for opaques */
 
 	if (opt->fragment) {
@@ -138,7 +157,7 @@ fsm_print_api(FILE *f,
 	{
 		size_t count;
 
-		count = fsm_endid_count(fsm, end);
+		count = fsm_endid_count(fsm, orig);
 		if (count > 0) {
 			fsm_end_id_t *ids;
 			int res;
@@ -149,7 +168,7 @@ fsm_print_api(FILE *f,
 				goto error;
 			}
 
-			res = fsm_endid_get(fsm, end, count, ids);
+			res = fsm_endid_get(fsm, orig, count, ids);
 			assert(res == 1);
 
 			fprintf(f, "\tif (fsm_isend(fsm, s[%u])) {\n", end);
-- 
2.43.0


From 0c405384ff44f6c67860f8719f02166f9588a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 034/111] fix: an unsupported alternative next to an
 unsatisfiable one

---
 src/libre/ast_analysis.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 5a6b41b..3d8fd73 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -690,6 +690,10 @@ struct anchoring_env {
 	} newline_after_end_anchor_state;
 
 	int after_end_anchor;
+
+	/* Set when an ALT has an unsupported child next to a satisfiable
+	 * one, while sweeping forward. Shared by every copy of the env. */
+	int *unsupported_alt_child;
 };
 
 /* Tree walker that analyzes the AST, marks which nodes and subtrees are
@@ -972,6 +976,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 
 	case AST_EXPR_ALT: {
 		int any_sat = 0;
+		int any_unsupported = 0;
 		int all_set_past_always_consuming = 1;
 
 		int all_start_anchored = 1;
@@ -1010,6 +1015,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 					any_sat = 1;
 				}
 			} else if (res == AST_ANALYSIS_ERROR_UNSUPPORTED) {
+				any_unsupported = 1;
 				continue;
 			} else {
 				return res;
@@ -1044,6 +1050,16 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 			env->past_always_consuming = 1;
 		}
 
+		/* An unsupported child may match something, so it's not
+		 * the same as an unsatisfiable one. */
+		if (any_unsupported) {
+			if (!any_sat) {
+				return AST_ANALYSIS_ERROR_UNSUPPORTED;
+			}
+
+			*env->unsupported_alt_child = 1;
+		}
+
 		/* An ALT group is only unsatisfiable if they ALL are. */
 		if (!any_sat) {
 			LOG(3 - LOG_ANCHORING,
@@ -2390,11 +2406,17 @@ ast_analysis(struct ast *ast, enum re_flags flags)
 	 */
 	{
 		/* first anchoring analysis pass, sweeping forward */
+		int unsupported_alt_child = 0;
 		struct anchoring_env env = {
 			.re_flags = flags,
 			.newline_after_end_anchor_state = NAEAS_NONE,
+			.unsupported_alt_child = &unsupported_alt_child,
 		};
 		res = analysis_iter_anchoring(&env, ast->expr);
+		if (unsupported_alt_child
+		    && (res == AST_ANALYSIS_OK || res == AST_ANALYSIS_UNSATISFIABLE)) {
+			return AST_ANALYSIS_ERROR_UNSUPPORTED;
+		}
 		if (res != AST_ANALYSIS_OK) { return res; }
 
 		/* another anchoring analysis pass, sweeping backward */
-- 
2.43.0


From e50d75b6949b3c27c2c50fa8e01ef9f97c5004dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 035/111] fix: an alternative that may only repeat zero times
 is satisfiable

---
 src/libre/ast_analysis.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 3d8fd73..9f8fafb 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1006,14 +1006,9 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 				    __func__, i, (void *)n->u.alt.n[i]);
 				assert(child->flags & AST_FLAG_UNSATISFIABLE);
 			} else if (res == AST_ANALYSIS_OK) {
-				if (child->type == AST_EXPR_REPEAT
-				    && /*child->u.repeat.min == 0 &&*/ child->u.repeat.max == 0) {
-					LOG(3 - LOG_ANCHORING,
-					    "%s: ignoring pruned REPEAT node\n", __func__);
-				} else {
-					all_set_past_always_consuming &= child_env.past_always_consuming;
-					any_sat = 1;
-				}
+				/* this includes pruned REPEAT nodes, which match the empty string */
+				all_set_past_always_consuming &= child_env.past_always_consuming;
+				any_sat = 1;
 			} else if (res == AST_ANALYSIS_ERROR_UNSUPPORTED) {
 				any_unsupported = 1;
 				continue;
-- 
2.43.0


From aaa796717b10f757cfd1b63c14bdb37d35ea97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 036/111] fix: end anchors apply to what follows them in a
 group

---
 src/libre/ast_analysis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 9f8fafb..65d242d 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -924,7 +924,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 				struct ast_expr *child = n->u.concat.n[i];
 				if (child->flags & END_ANCHOR_FLAG_MASK) {
 					end_anchor_flags = child->flags & END_ANCHOR_FLAG_MASK;
-				} else if (anchored) {
+				} else if (end_anchor_flags) {
 					set_flags_subtree(child, end_anchor_flags);
 				}
 
-- 
2.43.0


From 021df2c704e37e15d40482959bfa245886f16fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 037/111] fix: of several end anchors the strictest one remains

---
 src/libre/ast_rewrite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 592dd58..02f7366 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -186,6 +186,11 @@ rewrite_concat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 					break;
 				}
 
+				/* the strictest end anchor is the one that remains */
+				if (!child->u.anchor.is_end_nl) {
+					n->u.concat.n[i]->u.anchor.is_end_nl = 0;
+				}
+
 				/* delete node */
 				ast_expr_free(*poolp, n->u.concat.n[j]);
 				if (j + 1 < n->u.concat.count) {
-- 
2.43.0


From 053623bec5c1a3e3b7e926474f80602723490542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 038/111] fix: $ and \z are not the same expression

---
 src/libre/ast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libre/ast.c b/src/libre/ast.c
index 43da60e..72e4975 100644
--- a/src/libre/ast.c
+++ b/src/libre/ast.c
@@ -491,6 +491,9 @@ ast_expr_cmp(const struct ast_expr *a, const struct ast_expr *b)
 		if (a->u.anchor.type < b->u.anchor.type) { return -1; }
 		if (a->u.anchor.type > b->u.anchor.type) { return +1; }
 
+		if (a->u.anchor.is_end_nl < b->u.anchor.is_end_nl) { return -1; }
+		if (a->u.anchor.is_end_nl > b->u.anchor.is_end_nl) { return +1; }
+
 		return 0;
 
 	case AST_EXPR_SUBTRACT: {
-- 
2.43.0


From e266e838f558ab02f7cb57637736bc9900615292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 039/111] fix: an optional part after an end anchor cannot
 match in anchored mode

---
 src/libre/ast_analysis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libre/ast_analysis.c b/src/libre/ast_analysis.c
index 65d242d..dfc4704 100644
--- a/src/libre/ast_analysis.c
+++ b/src/libre/ast_analysis.c
@@ -1155,7 +1155,7 @@ analysis_iter_anchoring(struct anchoring_env *env, struct ast_expr *n)
 		 * input, set its max count to 0. This should be based on the after_end_anchor
 		 * flag value *before* analyzing the repeated subtree. */
 		if (orig_after_end_anchor
-		    && always_consumes_input(n)
+		    && always_consumes_input(n->u.repeat.e)
 		    && n->u.repeat.min == 0) {
 			prune_repeat_node(n);
  		}
-- 
2.43.0


From 87fff1dc7e24a4c537e3722fc1480fbbf2dae59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 040/111] fix: explicit anchors inside repetition with
 RE_ANCHORED

---
 src/libre/ast_compile.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 5d31ef0..176e7fb 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -428,12 +428,6 @@ decide_linking(struct comp_env *env,
 	assert(n != NULL);
 	assert(env != NULL);
 
-	/* If the regex is implicitly anchored and the dialect does
-	 * not support anchoring, linking is always top-down. */
-	if ((env->re_flags & RE_ANCHORED)) {
-		return LINK_TOP_DOWN;
-	}
-
 	/* An alt node should always pass along the top-down (x,y) pair
 	 * unmodified, individual subtrees may override the linking. */
 	if (n->type == AST_EXPR_ALT) {
@@ -468,7 +462,10 @@ decide_linking(struct comp_env *env,
 		const int anchored_parent = (parent && (parent->flags & AST_FLAG_ANCHORED_START) != 0);
 
 		if (first && anchored) { return LINK_GLOBAL; }
-		if (first && !anchored) { return LINK_GLOBAL_SELF_LOOP; }
+		if (first && !anchored) {
+			/* If the regex is implicitly anchored, there is nothing to skip. */
+			return (env->re_flags & RE_ANCHORED) ? LINK_TOP_DOWN : LINK_GLOBAL_SELF_LOOP;
+		}
 
 		if (anchored && !first && !anchored_parent) {
 			return LINK_GLOBAL;
@@ -483,7 +480,9 @@ decide_linking(struct comp_env *env,
 		const int anchored = (n->flags & AST_FLAG_ANCHORED_END) != 0;
 
 		if (last && anchored) { return LINK_GLOBAL; }
-		if (last && !anchored) { return LINK_GLOBAL_SELF_LOOP; }
+		if (last && !anchored) {
+			return (env->re_flags & RE_ANCHORED) ? LINK_TOP_DOWN : LINK_GLOBAL_SELF_LOOP;
+		}
 
 		if (anchored && !last) {
 			return LINK_GLOBAL;
@@ -707,7 +706,8 @@ comp_iter(struct comp_env *env,
 				return 0;
 			}
 			y = env->end_nl;
-		} else if (n->type == AST_EXPR_ANCHOR
+		} else if (!(env->re_flags & RE_ANCHORED)
+		    && n->type == AST_EXPR_ANCHOR
 		    && n->u.anchor.type == AST_ANCHOR_START
 		    && n->flags & AST_FLAG_CONSTRAINED_AT_END) {
 			/* the start anchor is constrained, so only
-- 
2.43.0


From e05ef3c54c93188457712e856c01c0a0296e1588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 041/111] fix: subtracting from a set that is already empty

---
 src/libre/ast_rewrite.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 02f7366..9ef2e00 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -604,6 +604,28 @@ rewrite_subtract(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags
 		return 0;
 	}
 
+	/* Likewise if the lhs operand never matches */
+	if (n->u.subtract.a->type == AST_EXPR_TOMBSTONE) {
+		ast_expr_free(*poolp, n->u.subtract.a);
+		ast_expr_free(*poolp, n->u.subtract.b);
+
+		goto tombstone;
+	}
+
+	/* If the rhs operand never matches, the result is the lhs operand */
+	if (n->u.subtract.b->type == AST_EXPR_TOMBSTONE) {
+		struct ast_expr *dead = n->u.subtract.a;
+
+		ast_expr_free(*poolp, n->u.subtract.b);
+
+		*n = *dead;
+
+		dead->type = AST_EXPR_EMPTY;
+		ast_expr_free(*poolp, dead);
+
+		return 1;
+	}
+
 	/* TODO: If the rhs operand is 00-ff, the result is always empty
 	 * (unless RE_UNICODE is set) */
 
-- 
2.43.0


From 48d799752b8603b0cf7f6559f1cbe3317a82d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 042/111] fix: a backslash before a NUL byte in a pattern

---
 src/libre/dialect/native/parser.c |  6 +++---
 src/libre/dialect/pcre/parser.c   | 16 ++++++++--------
 src/libre/parser.act              |  6 +++---
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index 63c5f8c..7224e0b 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -352,7 +352,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the second byte may be '\x00' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -878,7 +878,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the second byte may be '\x00' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1099,7 +1099,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the second byte may be '\x00' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZI247 = lex_state->buf.a[1];
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index e59fee0..5616581 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -478,7 +478,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* the third byte may be '\x00' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZIc = lex_state->buf.a[2];
@@ -541,7 +541,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_C_Crange_Hendpoint_Hliteral(flags
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the second byte may be '\x00' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1073,7 +1073,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* the third byte may be '\x00' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZIc = lex_state->buf.a[2];
@@ -1127,7 +1127,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the second byte may be '\x00' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1227,7 +1227,7 @@ p_expr_C_Cliteral(flags flags, lex_state lex_state, act_state act_state, err err
 #line 412 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the second byte may be '\x00' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
@@ -1417,7 +1417,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* the third byte may be '\x00' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		ZI310 = lex_state->buf.a[2];
@@ -1489,7 +1489,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 #line 386 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the second byte may be '\x00' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZI294 = lex_state->buf.a[1];
@@ -1634,7 +1634,7 @@ p_expr_C_Ccharacter_Hclass_C_Cclass_Hterm(flags flags, lex_state lex_state, act_
 #line 412 "src/libre/parser.act"
 
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the second byte may be '\x00' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		ZIc = lex_state->buf.a[1];
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 984036c..a091050 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -385,7 +385,7 @@
 
 	ESC: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the second byte may be '\x00' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		@c = lex_state->buf.a[1];
@@ -411,7 +411,7 @@
 
 	NOESC: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
-		assert(lex_state->buf.a[1] != '\0');
+		/* the second byte may be '\x00' */
 		assert(lex_state->buf.a[2] == '\0');
 
 		@c = lex_state->buf.a[1];
@@ -442,7 +442,7 @@
 	CONTROL: () -> (c :char, start :pos, end :pos) = @{
 		assert(lex_state->buf.a[0] == '\\');
 		assert(lex_state->buf.a[1] == 'c');
-		assert(lex_state->buf.a[2] != '\0');
+		/* the third byte may be '\x00' */
 		assert(lex_state->buf.a[3] == '\0');
 
 		@c = lex_state->buf.a[2];
-- 
2.43.0


From 7db4bca5097e46af97a040730a23c288b29b6e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 043/111] fix: position of a range in the wrong order beginning
 with - or ]

---
 src/libre/dialect/native/parser.c   | 110 ++++++++++++---------
 src/libre/dialect/native/parser.sid |   4 +
 src/libre/dialect/pcre/parser.c     | 142 ++++++++++++++++------------
 src/libre/dialect/pcre/parser.sid   |   4 +
 4 files changed, 154 insertions(+), 106 deletions(-)

diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index 7224e0b..09e5554 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -1894,6 +1894,16 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 							RESTORE_LEXER;
 							goto ZL1;
 						}
+						/* BEGINNING OF ACTION: mark-range */
+						{
+#line 772 "src/libre/parser.act"
+
+		mark(&act_state->rangestart, &(ZIrstart));
+		mark(&act_state->rangeend,   &(ZIend));
+	
+#line 1905 "src/libre/dialect/native/parser.c"
+						}
+						/* END OF ACTION: mark-range */
 						/* BEGINNING OF ACTION: ast-make-range */
 						{
 #line 1004 "src/libre/parser.act"
@@ -1925,7 +1935,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			goto ZL1;
 		}
 	
-#line 1929 "src/libre/dialect/native/parser.c"
+#line 1939 "src/libre/dialect/native/parser.c"
 						}
 						/* END OF ACTION: ast-make-range */
 					}
@@ -1941,7 +1951,7 @@ p_180(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			goto ZL1;
 		}
 	
-#line 1945 "src/libre/dialect/native/parser.c"
+#line 1955 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -1987,7 +1997,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_Hend(flags flags, lex_state lex_st
 		(void) ZI149;
 		(void) ZIend;
 	
-#line 1991 "src/libre/dialect/native/parser.c"
+#line 2001 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF EXTRACT: RANGE */
 					ADVANCE_LEXER;
@@ -1998,7 +2008,7 @@ p_expr_C_Ccharacter_Hclass_C_Crange_Hendpoint_Hend(flags flags, lex_state lex_st
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (ZIc);
 	
-#line 2002 "src/libre/dialect/native/parser.c"
+#line 2012 "src/libre/dialect/native/parser.c"
 					}
 					/* END OF ACTION: ast-range-endpoint-literal */
 				}
@@ -2064,7 +2074,7 @@ p_expr_C_Cpiece(flags flags, lex_state lex_state, act_state act_state, err err,
 			goto ZL1;
 		}
 	
-#line 2068 "src/libre/dialect/native/parser.c"
+#line 2078 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-piece */
 	}
@@ -2095,7 +2105,7 @@ p_expr(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__ex
 			goto ZL1;
 		}
 	
-#line 2099 "src/libre/dialect/native/parser.c"
+#line 2109 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-alt */
 			p_expr_C_Clist_Hof_Halts (flags, lex_state, act_state, err, ZInode);
@@ -2116,7 +2126,7 @@ p_expr(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__ex
 			goto ZL1;
 		}
 	
-#line 2120 "src/libre/dialect/native/parser.c"
+#line 2130 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-empty */
 		}
@@ -2136,7 +2146,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 2140 "src/libre/dialect/native/parser.c"
+#line 2150 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -2148,7 +2158,7 @@ ZL1:;
 			goto ZL2;
 		}
 	
-#line 2152 "src/libre/dialect/native/parser.c"
+#line 2162 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -2177,7 +2187,7 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 			goto ZL1;
 		}
 	
-#line 2181 "src/libre/dialect/native/parser.c"
+#line 2191 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -2199,7 +2209,7 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 2203 "src/libre/dialect/native/parser.c"
+#line 2213 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF EXTRACT: RANGE */
@@ -2214,7 +2224,7 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(void) ZI197;
 		(void) ZI198;
 	
-#line 2218 "src/libre/dialect/native/parser.c"
+#line 2228 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -2230,9 +2240,19 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 2234 "src/libre/dialect/native/parser.c"
+#line 2244 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
+			/* BEGINNING OF ACTION: mark-range */
+			{
+#line 772 "src/libre/parser.act"
+
+		mark(&act_state->rangestart, &(*ZIstart));
+		mark(&act_state->rangeend,   &(ZIend));
+	
+#line 2254 "src/libre/dialect/native/parser.c"
+			}
+			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
 #line 1004 "src/libre/parser.act"
@@ -2264,7 +2284,7 @@ p_195(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 			goto ZL1;
 		}
 	
-#line 2268 "src/libre/dialect/native/parser.c"
+#line 2288 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -2298,7 +2318,7 @@ p_re__native(flags flags, lex_state lex_state, act_state act_state, err err, t_a
 
 		(ZIid) = act_state->group_id++;
 	
-#line 2302 "src/libre/dialect/native/parser.c"
+#line 2322 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -2315,7 +2335,7 @@ p_re__native(flags flags, lex_state lex_state, act_state act_state, err err, t_a
 			goto ZL1;
 		}
 	
-#line 2319 "src/libre/dialect/native/parser.c"
+#line 2339 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 231 */
@@ -2341,7 +2361,7 @@ p_re__native(flags flags, lex_state lex_state, act_state act_state, err err, t_a
 		}
 		goto ZL1;
 	
-#line 2345 "src/libre/dialect/native/parser.c"
+#line 2365 "src/libre/dialect/native/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2428,7 +2448,7 @@ ZL2_expr_C_Clist_Hof_Halts:;
 			goto ZL1;
 		}
 	
-#line 2432 "src/libre/dialect/native/parser.c"
+#line 2452 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 		/* BEGINNING OF INLINE: 229 */
@@ -2460,7 +2480,7 @@ ZL1:;
 		}
 		goto ZL4;
 	
-#line 2464 "src/libre/dialect/native/parser.c"
+#line 2484 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 	}
@@ -2493,7 +2513,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 		(void) ZI263;
 		(void) ZI264;
 	
-#line 2497 "src/libre/dialect/native/parser.c"
+#line 2517 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF EXTRACT: OPENCOUNT */
 			ADVANCE_LEXER;
@@ -2521,7 +2541,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIm = (unsigned int) u;
 	
-#line 2525 "src/libre/dialect/native/parser.c"
+#line 2545 "src/libre/dialect/native/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -2545,7 +2565,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, 1);
 	
-#line 2549 "src/libre/dialect/native/parser.c"
+#line 2569 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-one */
 		}
@@ -2559,7 +2579,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(1, AST_COUNT_UNBOUNDED);
 	
-#line 2563 "src/libre/dialect/native/parser.c"
+#line 2583 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-one-or-more */
 		}
@@ -2573,7 +2593,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 2577 "src/libre/dialect/native/parser.c"
+#line 2597 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 		}
@@ -2586,7 +2606,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 2590 "src/libre/dialect/native/parser.c"
+#line 2610 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: count-one */
 		}
@@ -2606,7 +2626,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 2610 "src/libre/dialect/native/parser.c"
+#line 2630 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-count */
 		/* BEGINNING OF ACTION: count-one */
@@ -2615,7 +2635,7 @@ ZL1:;
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 2619 "src/libre/dialect/native/parser.c"
+#line 2639 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: count-one */
 	}
@@ -2645,7 +2665,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 2649 "src/libre/dialect/native/parser.c"
+#line 2669 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
@@ -2657,7 +2677,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 2661 "src/libre/dialect/native/parser.c"
+#line 2681 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -2674,7 +2694,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 2678 "src/libre/dialect/native/parser.c"
+#line 2698 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-end */
 		}
@@ -2691,7 +2711,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 
 		(ZIid) = act_state->group_id++;
 	
-#line 2695 "src/libre/dialect/native/parser.c"
+#line 2715 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: make-group-id */
 			p_expr (flags, lex_state, act_state, err, &ZIg);
@@ -2708,7 +2728,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 2712 "src/libre/dialect/native/parser.c"
+#line 2732 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-group */
 			switch (CURRENT_TERMINAL) {
@@ -2732,7 +2752,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 2736 "src/libre/dialect/native/parser.c"
+#line 2756 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-start */
 		}
@@ -2772,7 +2792,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 2776 "src/libre/dialect/native/parser.c"
+#line 2796 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -2784,7 +2804,7 @@ ZL1:;
 			goto ZL2;
 		}
 	
-#line 2788 "src/libre/dialect/native/parser.c"
+#line 2808 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -2813,7 +2833,7 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 			goto ZL1;
 		}
 	
-#line 2817 "src/libre/dialect/native/parser.c"
+#line 2837 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -2831,7 +2851,7 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 		(ZIlower).type = AST_ENDPOINT_NAMED;
 		(ZIlower).u.named.class = (*ZI243);
 	
-#line 2835 "src/libre/dialect/native/parser.c"
+#line 2855 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-class */
 			p_154 (flags, lex_state, act_state, err);
@@ -2847,7 +2867,7 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 		mark(&act_state->rangestart, &(*ZI244));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 2851 "src/libre/dialect/native/parser.c"
+#line 2871 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
@@ -2881,7 +2901,7 @@ p_246(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__cla
 			goto ZL1;
 		}
 	
-#line 2885 "src/libre/dialect/native/parser.c"
+#line 2905 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -2915,7 +2935,7 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 			goto ZL1;
 		}
 	
-#line 2919 "src/libre/dialect/native/parser.c"
+#line 2939 "src/libre/dialect/native/parser.c"
 		}
 		/* END OF ACTION: ast-make-concat */
 		p_expr_C_Clist_Hof_Hpieces (flags, lex_state, act_state, err, ZInode);
@@ -2949,7 +2969,7 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			goto ZL1;
 		}
 	
-#line 2953 "src/libre/dialect/native/parser.c"
+#line 2973 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -2967,7 +2987,7 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZI247);
 	
-#line 2971 "src/libre/dialect/native/parser.c"
+#line 2991 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			p_154 (flags, lex_state, act_state, err);
@@ -2983,7 +3003,7 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 		mark(&act_state->rangestart, &(*ZI248));
 		mark(&act_state->rangeend,   &(ZIend));
 	
-#line 2987 "src/libre/dialect/native/parser.c"
+#line 3007 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
@@ -3017,7 +3037,7 @@ p_250(flags flags, lex_state lex_state, act_state act_state, err err, t_char *ZI
 			goto ZL1;
 		}
 	
-#line 3021 "src/libre/dialect/native/parser.c"
+#line 3041 "src/libre/dialect/native/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -3191,6 +3211,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 3195 "src/libre/dialect/native/parser.c"
+#line 3215 "src/libre/dialect/native/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/native/parser.sid b/src/libre/dialect/native/parser.sid
index aeb894c..12a2678 100644
--- a/src/libre/dialect/native/parser.sid
+++ b/src/libre/dialect/native/parser.sid
@@ -255,6 +255,7 @@
 						lower = <ast-range-endpoint-literal>(c);
 						(!, !, !) = RANGE;
 						(upper,end) = range-endpoint-end;
+						<mark-range>(rstart, end);
 						node1 = <ast-make-range>(lower, rstart, upper, end);
 					||
 						node1 = <ast-make-literal>(c);
@@ -281,6 +282,7 @@
 						lower = <ast-range-endpoint-literal>(c);
 						(!, !, !) = RANGE;
 						(upper, end) = range-endpoint-end;
+						<mark-range>(rstart, end);
 						node1 = <ast-make-range>(lower, rstart, upper, end);
 					||
 						node1 = <ast-make-literal>(c);
@@ -306,6 +308,7 @@
 					(upper, end) = range-endpoint-end;
 					/* FIXME: start is off by one */
 					lower = <ast-range-endpoint-literal>(cbrak);
+					<mark-range>(start, end);
 					node1 = <ast-make-range>(lower, start, upper, end);
 				||
 					node1 = <ast-make-literal>(cbrak);
@@ -329,6 +332,7 @@
 					(upper, end) = range-endpoint-end;
 					/* FIXME: start is off by one */
 					lower = <ast-range-endpoint-literal>(cbrak);
+					<mark-range>(start, end);
 					node1 = <ast-make-range>(lower, start, upper, end);
 				||
 					node1 = <ast-make-literal>(cbrak);
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index 5616581..9137e5c 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -2958,6 +2958,16 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 							RESTORE_LEXER;
 							goto ZL1;
 						}
+						/* BEGINNING OF ACTION: mark-range */
+						{
+#line 772 "src/libre/parser.act"
+
+		mark(&act_state->rangestart, &(ZIrstart));
+		mark(&act_state->rangeend,   &(ZIend));
+	
+#line 2969 "src/libre/dialect/pcre/parser.c"
+						}
+						/* END OF ACTION: mark-range */
 						/* BEGINNING OF ACTION: ast-make-range */
 						{
 #line 1004 "src/libre/parser.act"
@@ -2989,7 +2999,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			goto ZL1;
 		}
 	
-#line 2993 "src/libre/dialect/pcre/parser.c"
+#line 3003 "src/libre/dialect/pcre/parser.c"
 						}
 						/* END OF ACTION: ast-make-range */
 					}
@@ -3005,7 +3015,7 @@ p_194(flags flags, lex_state lex_state, act_state act_state, err err, t_ast__exp
 			goto ZL1;
 		}
 	
-#line 3009 "src/libre/dialect/pcre/parser.c"
+#line 3019 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -3048,7 +3058,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 
 		(ZIempty__pos) = RE_FLAGS_NONE;
 	
-#line 3052 "src/libre/dialect/pcre/parser.c"
+#line 3062 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: re-flag-none */
 		/* BEGINNING OF ACTION: re-flag-none */
@@ -3057,7 +3067,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 
 		(ZIempty__neg) = RE_FLAGS_NONE;
 	
-#line 3061 "src/libre/dialect/pcre/parser.c"
+#line 3071 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: re-flag-none */
 		/* BEGINNING OF INLINE: 231 */
@@ -3119,7 +3129,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 		*flags |= (ZIpos);
 		*flags &= ~(ZIneg);
 	
-#line 3123 "src/libre/dialect/pcre/parser.c"
+#line 3133 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-mask-re-flags */
 					/* BEGINNING OF ACTION: ast-make-empty */
@@ -3131,7 +3141,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 			goto ZL5;
 		}
 	
-#line 3135 "src/libre/dialect/pcre/parser.c"
+#line 3145 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-make-empty */
 				}
@@ -3148,7 +3158,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 
 		(ZIflags) = *flags;
 	
-#line 3152 "src/libre/dialect/pcre/parser.c"
+#line 3162 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-get-re-flags */
 					/* BEGINNING OF ACTION: ast-mask-re-flags */
@@ -3162,7 +3172,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 		*flags |= (ZIpos);
 		*flags &= ~(ZIneg);
 	
-#line 3166 "src/libre/dialect/pcre/parser.c"
+#line 3176 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-mask-re-flags */
 					p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -3176,7 +3186,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 
 		*flags = (ZIflags);
 	
-#line 3180 "src/libre/dialect/pcre/parser.c"
+#line 3190 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: ast-set-re-flags */
 					switch (CURRENT_TERMINAL) {
@@ -3204,7 +3214,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 		}
 		goto ZL1;
 	
-#line 3208 "src/libre/dialect/pcre/parser.c"
+#line 3218 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: err-expected-closeflags */
 				/* BEGINNING OF ACTION: ast-make-empty */
@@ -3216,7 +3226,7 @@ p_expr_C_Cflags(flags flags, lex_state lex_state, act_state act_state, err err,
 			goto ZL1;
 		}
 	
-#line 3220 "src/libre/dialect/pcre/parser.c"
+#line 3230 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: ast-make-empty */
 			}
@@ -3264,7 +3274,7 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 			goto ZL1;
 		}
 	
-#line 3268 "src/libre/dialect/pcre/parser.c"
+#line 3278 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-piece */
 		/* BEGINNING OF INLINE: 264 */
@@ -3282,7 +3292,7 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 		}
 		goto ZL1;
 	
-#line 3286 "src/libre/dialect/pcre/parser.c"
+#line 3296 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: err-unsupported */
 				}
@@ -3299,7 +3309,7 @@ p_expr_C_Cpiece_C_Clist_Hof_Hcounts(flags flags, lex_state lex_state, act_state
 		}
 		goto ZL1;
 	
-#line 3303 "src/libre/dialect/pcre/parser.c"
+#line 3313 "src/libre/dialect/pcre/parser.c"
 					}
 					/* END OF ACTION: err-unsupported */
 				}
@@ -3398,7 +3408,7 @@ p_class_Hnamed(flags flags, lex_state lex_state, act_state act_state, err err, t
 		(void) ZIstart;
 		(void) ZIend;
 	
-#line 3402 "src/libre/dialect/pcre/parser.c"
+#line 3412 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: NAMED_CLASS */
 			break;
@@ -3415,7 +3425,7 @@ p_class_Hnamed(flags flags, lex_state lex_state, act_state act_state, err err, t
 			goto ZL1;
 		}
 	
-#line 3419 "src/libre/dialect/pcre/parser.c"
+#line 3429 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-named */
 	}
@@ -3446,7 +3456,7 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 			goto ZL1;
 		}
 	
-#line 3450 "src/libre/dialect/pcre/parser.c"
+#line 3460 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 		}
@@ -3468,7 +3478,7 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(ZIr).type = AST_ENDPOINT_LITERAL;
 		(ZIr).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 3472 "src/libre/dialect/pcre/parser.c"
+#line 3482 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
 			/* BEGINNING OF EXTRACT: RANGE */
@@ -3483,7 +3493,7 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(void) ZI211;
 		(void) ZI212;
 	
-#line 3487 "src/libre/dialect/pcre/parser.c"
+#line 3497 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: RANGE */
 			ADVANCE_LEXER;
@@ -3499,9 +3509,19 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 		(ZIlower).type = AST_ENDPOINT_LITERAL;
 		(ZIlower).u.literal.c = (unsigned char) (*ZIcbrak);
 	
-#line 3503 "src/libre/dialect/pcre/parser.c"
+#line 3513 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-range-endpoint-literal */
+			/* BEGINNING OF ACTION: mark-range */
+			{
+#line 772 "src/libre/parser.act"
+
+		mark(&act_state->rangestart, &(*ZIstart));
+		mark(&act_state->rangeend,   &(ZIend));
+	
+#line 3523 "src/libre/dialect/pcre/parser.c"
+			}
+			/* END OF ACTION: mark-range */
 			/* BEGINNING OF ACTION: ast-make-range */
 			{
 #line 1004 "src/libre/parser.act"
@@ -3533,7 +3553,7 @@ p_209(flags flags, lex_state lex_state, act_state act_state, err err, t_pos *ZIs
 			goto ZL1;
 		}
 	
-#line 3537 "src/libre/dialect/pcre/parser.c"
+#line 3557 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-range */
 		}
@@ -3572,7 +3592,7 @@ ZL2_expr_C_Clist_Hof_Halts:;
 			goto ZL1;
 		}
 	
-#line 3576 "src/libre/dialect/pcre/parser.c"
+#line 3596 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 		/* BEGINNING OF INLINE: 278 */
@@ -3604,7 +3624,7 @@ ZL1:;
 		}
 		goto ZL4;
 	
-#line 3608 "src/libre/dialect/pcre/parser.c"
+#line 3628 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-alts */
 	}
@@ -3637,7 +3657,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 		(void) ZI318;
 		(void) ZI319;
 	
-#line 3641 "src/libre/dialect/pcre/parser.c"
+#line 3661 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF EXTRACT: OPENCOUNT */
 			ADVANCE_LEXER;
@@ -3665,7 +3685,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		ZIm = (unsigned int) u;
 	
-#line 3669 "src/libre/dialect/pcre/parser.c"
+#line 3689 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF EXTRACT: COUNT */
 				break;
@@ -3689,7 +3709,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, 1);
 	
-#line 3693 "src/libre/dialect/pcre/parser.c"
+#line 3713 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-one */
 		}
@@ -3703,7 +3723,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(1, AST_COUNT_UNBOUNDED);
 	
-#line 3707 "src/libre/dialect/pcre/parser.c"
+#line 3727 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-one-or-more */
 		}
@@ -3717,7 +3737,7 @@ p_expr_C_Cpiece_C_Ccount(flags flags, lex_state lex_state, act_state act_state,
 
 		(ZIc) = ast_make_count(0, AST_COUNT_UNBOUNDED);
 	
-#line 3721 "src/libre/dialect/pcre/parser.c"
+#line 3741 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: count-zero-or-more */
 		}
@@ -3739,7 +3759,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 3743 "src/libre/dialect/pcre/parser.c"
+#line 3763 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-count */
 		/* BEGINNING OF ACTION: count-one */
@@ -3748,7 +3768,7 @@ ZL1:;
 
 		(ZIc) = ast_make_count(1, 1);
 	
-#line 3752 "src/libre/dialect/pcre/parser.c"
+#line 3772 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: count-one */
 	}
@@ -3778,7 +3798,7 @@ p_re__pcre(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 
 		(ZIid) = act_state->group_id++;
 	
-#line 3782 "src/libre/dialect/pcre/parser.c"
+#line 3802 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: make-group-id */
 		p_expr (flags, lex_state, act_state, err, &ZIe);
@@ -3795,7 +3815,7 @@ p_re__pcre(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 			goto ZL1;
 		}
 	
-#line 3799 "src/libre/dialect/pcre/parser.c"
+#line 3819 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-group */
 		/* BEGINNING OF INLINE: 280 */
@@ -3821,7 +3841,7 @@ p_re__pcre(flags flags, lex_state lex_state, act_state act_state, err err, t_ast
 		}
 		goto ZL1;
 	
-#line 3825 "src/libre/dialect/pcre/parser.c"
+#line 3845 "src/libre/dialect/pcre/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -3855,7 +3875,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 		/* TODO: or the unicode equivalent */
 		(ZIa) = (*flags & RE_SINGLE) ? &class_any : &class_notnl;
 	
-#line 3859 "src/libre/dialect/pcre/parser.c"
+#line 3879 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: class-any */
 			/* BEGINNING OF ACTION: ast-make-named */
@@ -3867,7 +3887,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 3871 "src/libre/dialect/pcre/parser.c"
+#line 3891 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 		}
@@ -3884,7 +3904,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 3888 "src/libre/dialect/pcre/parser.c"
+#line 3908 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-end */
 		}
@@ -3904,7 +3924,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			(ZIe)->u.anchor.is_end_nl = 1;
 		}
 	
-#line 3908 "src/libre/dialect/pcre/parser.c"
+#line 3928 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-end-nl */
 		}
@@ -3927,7 +3947,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 		/* TODO: or the unicode equivalent */
 		(ZIclass__bsr) = &class_bsr;
 	
-#line 3931 "src/libre/dialect/pcre/parser.c"
+#line 3951 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: class-bsr */
 			/* BEGINNING OF ACTION: ast-make-named */
@@ -3939,7 +3959,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 3943 "src/libre/dialect/pcre/parser.c"
+#line 3963 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-named */
 			/* BEGINNING OF ACTION: ast-make-concat */
@@ -3951,7 +3971,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 3955 "src/libre/dialect/pcre/parser.c"
+#line 3975 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-concat */
 			/* BEGINNING OF ACTION: make-literal-cr */
@@ -3960,7 +3980,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 
 		(ZIcr) = '\r';
 	
-#line 3964 "src/libre/dialect/pcre/parser.c"
+#line 3984 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: make-literal-cr */
 			/* BEGINNING OF ACTION: ast-make-literal */
@@ -3972,7 +3992,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 3976 "src/libre/dialect/pcre/parser.c"
+#line 3996 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 			/* BEGINNING OF ACTION: make-literal-nl */
@@ -3981,7 +4001,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 
 		(ZInl) = '\n';
 	
-#line 3985 "src/libre/dialect/pcre/parser.c"
+#line 4005 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: make-literal-nl */
 			/* BEGINNING OF ACTION: ast-make-literal */
@@ -3993,7 +4013,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 3997 "src/libre/dialect/pcre/parser.c"
+#line 4017 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-literal */
 			/* BEGINNING OF ACTION: ast-add-concat */
@@ -4004,7 +4024,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 4008 "src/libre/dialect/pcre/parser.c"
+#line 4028 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-concat */
 			/* BEGINNING OF ACTION: ast-add-concat */
@@ -4015,7 +4035,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 4019 "src/libre/dialect/pcre/parser.c"
+#line 4039 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-concat */
 			/* BEGINNING OF ACTION: ast-make-alt */
@@ -4027,7 +4047,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 4031 "src/libre/dialect/pcre/parser.c"
+#line 4051 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-alt */
 			/* BEGINNING OF ACTION: ast-add-alt */
@@ -4038,7 +4058,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 4042 "src/libre/dialect/pcre/parser.c"
+#line 4062 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 			/* BEGINNING OF ACTION: ast-add-alt */
@@ -4049,7 +4069,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 4053 "src/libre/dialect/pcre/parser.c"
+#line 4073 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-add-alt */
 		}
@@ -4067,7 +4087,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 
 		(ZIflags) = *flags;
 	
-#line 4071 "src/libre/dialect/pcre/parser.c"
+#line 4091 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-get-re-flags */
 			/* BEGINNING OF ACTION: make-group-id */
@@ -4076,7 +4096,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 
 		(ZIid) = act_state->group_id++;
 	
-#line 4080 "src/libre/dialect/pcre/parser.c"
+#line 4100 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: make-group-id */
 			p_expr (flags, lex_state, act_state, err, &ZIg);
@@ -4090,7 +4110,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 
 		*flags = (ZIflags);
 	
-#line 4094 "src/libre/dialect/pcre/parser.c"
+#line 4114 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-set-re-flags */
 			/* BEGINNING OF ACTION: ast-make-group */
@@ -4102,7 +4122,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 4106 "src/libre/dialect/pcre/parser.c"
+#line 4126 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-group */
 			switch (CURRENT_TERMINAL) {
@@ -4126,7 +4146,7 @@ p_expr_C_Cpiece_C_Catom(flags flags, lex_state lex_state, act_state act_state, e
 			goto ZL1;
 		}
 	
-#line 4130 "src/libre/dialect/pcre/parser.c"
+#line 4150 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-anchor-start */
 		}
@@ -4185,7 +4205,7 @@ ZL1:;
 		}
 		goto ZL2;
 	
-#line 4189 "src/libre/dialect/pcre/parser.c"
+#line 4209 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: err-expected-atom */
 		/* BEGINNING OF ACTION: ast-make-empty */
@@ -4197,7 +4217,7 @@ ZL1:;
 			goto ZL2;
 		}
 	
-#line 4201 "src/libre/dialect/pcre/parser.c"
+#line 4221 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-empty */
 	}
@@ -4230,7 +4250,7 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 			goto ZL1;
 		}
 	
-#line 4234 "src/libre/dialect/pcre/parser.c"
+#line 4254 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-concat */
 			p_expr_C_Clist_Hof_Hpieces (flags, lex_state, act_state, err, ZInode);
@@ -4251,7 +4271,7 @@ p_expr_C_Calt(flags flags, lex_state lex_state, act_state act_state, err err, t_
 			goto ZL1;
 		}
 	
-#line 4255 "src/libre/dialect/pcre/parser.c"
+#line 4275 "src/libre/dialect/pcre/parser.c"
 			}
 			/* END OF ACTION: ast-make-empty */
 		}
@@ -4294,7 +4314,7 @@ p_expr_C_Ctype(flags flags, lex_state lex_state, act_state act_state, err err, t
 			goto ZL1;
 		}
 	
-#line 4298 "src/libre/dialect/pcre/parser.c"
+#line 4318 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-make-alt */
 		/* BEGINNING OF ACTION: ast-add-alt */
@@ -4305,7 +4325,7 @@ p_expr_C_Ctype(flags flags, lex_state lex_state, act_state act_state, err err, t
 			goto ZL1;
 		}
 	
-#line 4309 "src/libre/dialect/pcre/parser.c"
+#line 4329 "src/libre/dialect/pcre/parser.c"
 		}
 		/* END OF ACTION: ast-add-alt */
 	}
@@ -4475,6 +4495,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 4479 "src/libre/dialect/pcre/parser.c"
+#line 4499 "src/libre/dialect/pcre/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/pcre/parser.sid b/src/libre/dialect/pcre/parser.sid
index 377060d..28703be 100644
--- a/src/libre/dialect/pcre/parser.sid
+++ b/src/libre/dialect/pcre/parser.sid
@@ -283,6 +283,7 @@
 						lower = <ast-range-endpoint-literal>(c);
 						(!, !, !) = RANGE;
 						(upper,end) = range-endpoint-end;
+						<mark-range>(rstart, end);
 						node1 = <ast-make-range>(lower, rstart, upper, end);
 					||
 						node1 = <ast-make-literal>(c);
@@ -309,6 +310,7 @@
 						lower = <ast-range-endpoint-literal>(c);
 						(!, !, !) = RANGE;
 						(upper, end) = range-endpoint-end;
+						<mark-range>(rstart, end);
 						node1 = <ast-make-range>(lower, rstart, upper, end);
 					||
 						node1 = <ast-make-literal>(c);
@@ -334,6 +336,7 @@
 					(upper, end) = range-endpoint-end;
 					/* FIXME: start is off by one */
 					lower = <ast-range-endpoint-literal>(cbrak);
+					<mark-range>(start, end);
 					node1 = <ast-make-range>(lower, start, upper, end);
 				||
 					node1 = <ast-make-literal>(cbrak);
@@ -357,6 +360,7 @@
 					(upper, end) = range-endpoint-end;
 					/* FIXME: start is off by one */
 					lower = <ast-range-endpoint-literal>(cbrak);
+					<mark-range>(start, end);
 					node1 = <ast-make-range>(lower, start, upper, end);
 				||
 					node1 = <ast-make-literal>(cbrak);
-- 
2.43.0


From 089e7dea4be90c8bd96c50fc8fe1cbfa762dc9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 044/111] fix: a string that ends another string in a set of
 strings

---
 src/libre/ac.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index e941260..cc9adb2 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -174,6 +174,32 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 	return g;
 }
 
+/*
+ * What ends at the failure state is a suffix of what leads to st,
+ * and so it ends at st too.
+ */
+static int
+inherit_output(struct trie_state *st, const struct trie_state *fail)
+{
+	struct state_iter si;
+	fsm_state_t id;
+
+	if (!fail->output) {
+		return 1;
+	}
+
+	st->output = 1;
+
+	state_set_reset(fail->endids, &si);
+	while (state_set_next(&si, &id)) {
+		if (!state_set_add(&st->endids, NULL, id)) {
+			return 0;
+		}
+	}
+
+	return 1;
+}
+
 int
 trie_add_failure_edges(struct trie_graph *g) {
 	struct trie_state **q;
@@ -197,6 +223,11 @@ trie_add_failure_edges(struct trie_graph *g) {
 		}
 
 		st->fail = g->root;
+		if (!inherit_output(st, g->root)) {
+			free(q);
+			return -1;
+		}
+
 		q[top++] = st;
 	}
 
@@ -233,7 +264,10 @@ trie_add_failure_edges(struct trie_graph *g) {
 				nx->fail = fs;
 			}
 
-			nx->output = nx->output | fs->output;
+			if (!inherit_output(nx, nx->fail)) {
+				free(q);
+				return -1;
+			}
 		}
 	}
 
-- 
2.43.0


From 4f0a36783e51b1201cde14bb6cd30f62de4266c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 045/111] fix: strings with end ids anchored left only may be
 followed by anything

---
 src/libre/ac.c | 120 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 114 insertions(+), 6 deletions(-)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index cc9adb2..57cc7f8 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -42,6 +42,7 @@ struct trie_graph {
 	struct trie_pool *pool;
 	size_t nstates;
 	size_t depth;
+	unsigned int have_endids:1;
 };
 
 static struct trie_state *
@@ -124,6 +125,7 @@ trie_create(void)
 	g->pool = NULL;
 	g->nstates = 0;
 	g->depth = 0;
+	g->have_endids = 0;
 
 	g->root = newstate(g);
 	if (g->root == NULL) {
@@ -170,6 +172,7 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 
 	if (endid != NULL) {
 		state_set_add(&st->endids, NULL, (fsm_state_t)*endid);
+		g->have_endids = 1;
 	}
 	return g;
 }
@@ -177,6 +180,9 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 /*
  * What ends at the failure state is a suffix of what leads to st,
  * and so it ends at st too.
+ *
+ * Likewise where a string may be followed by anything, for what ended
+ * at the parent of st.
  */
 static int
 inherit_output(struct trie_state *st, const struct trie_state *fail)
@@ -313,6 +319,24 @@ find_next_state(struct trie_state *s, int sym)
 	return nx;
 }
 
+static int
+set_output(struct fsm *fsm, fsm_state_t st, const struct trie_state *ts)
+{
+	struct state_iter si;
+	fsm_state_t id;
+
+	fsm_setend(fsm, st, 1);
+
+	state_set_reset(ts->endids, &si);
+	while (state_set_next(&si, &id)) {
+		if (!fsm_endid_set(fsm, st, (fsm_end_id_t) id)) {
+			return 0;
+		}
+	}
+
+	return 1;
+}
+
 static int
 trie_to_fsm_state(struct trie_state *ts, struct fsm *fsm,
 	int have_end, fsm_state_t single_end,
@@ -359,16 +383,89 @@ trie_to_fsm_state(struct trie_state *ts, struct fsm *fsm,
 		}
 	}
 
+	if (ts->output && !set_output(fsm, st, ts)) {
+		return 0;
+	}
+
+	*q = st;
+	return 1;
+}
+
+/*
+ * For strings with endids that are anchored left only. Once a string has
+ * ended anything may follow, but longer strings may still add their endids.
+ * So the set of endids depends on how far we got through the trie, and where
+ * no longer string is possible we go to a state which keeps that set.
+ */
+static int
+trie_to_fsm_prefix(struct trie_state *ts, struct fsm *fsm,
+	const struct trie_state *parent, fsm_state_t parent_end,
+	fsm_state_t *q)
+{
+	fsm_state_t st, end;
+	int sym, leaf;
+
+	assert(ts != NULL);
+	assert(fsm != NULL);
+	assert(q != NULL);
+
+	if (parent != NULL && !inherit_output(ts, parent)) {
+		return 0;
+	}
+
+	end = parent_end;
+
 	if (ts->output) {
-		fsm_setend(fsm, st, 1);
+		if (parent == NULL || !parent->output
+		|| state_set_count(ts->endids) > state_set_count(parent->endids))
+		{
+			if (!fsm_addstate(fsm, &end)) {
+				return 0;
+			}
+
+			if (!set_output(fsm, end, ts)) {
+				return 0;
+			}
+
+			if (!fsm_addedge_any(fsm, end, end)) {
+				return 0;
+			}
+		}
+
+		leaf = 1;
+		for (sym = 0; leaf && sym < 256; sym++) {
+			leaf = ts->children[sym] == NULL;
+		}
+
+		if (leaf) {
+			*q = end;
+			return 1;
+		}
+	}
+
+	if (!fsm_addstate(fsm, &st)) {
+		return 0;
+	}
+
+	if (ts->output && !set_output(fsm, st, ts)) {
+		return 0;
+	}
 
-		struct state_iter si;
-		fsm_state_t state;
-		state_set_reset(ts->endids, &si);
-		while (state_set_next(&si, &state)) {
-			if (!fsm_endid_set(fsm, st, (fsm_end_id_t) state)) {
+	for (sym = 0; sym < 256; sym++) {
+		fsm_state_t dst;
+
+		if (ts->children[sym] != NULL) {
+			if (!trie_to_fsm_prefix(ts->children[sym], fsm, ts, end, &dst)) {
 				return 0;
 			}
+		} else if (ts->output) {
+			dst = end;
+		} else {
+			continue;
+		}
+
+		if (!fsm_addedge_literal(fsm, st, dst, (char) sym)) {
+			return 0;
 		}
 	}
 
@@ -381,6 +478,17 @@ trie_to_fsm(struct fsm *fsm, struct trie_graph *g, int have_end, fsm_state_t end
 {
 	fsm_state_t start;
 
+	/* anchored left only; otherwise there would be failure edges */
+	if (have_end && g->have_endids && g->root->fail == NULL) {
+		if (!trie_to_fsm_prefix(g->root, fsm, NULL, end, &start)) {
+			return NULL;
+		}
+
+		fsm_setstart(fsm, start);
+
+		return fsm;
+	}
+
 	if (!trie_to_fsm_state(g->root, fsm, have_end, end, &start)) {
 		return NULL;
 	}
-- 
2.43.0


From 5108b888e68a48489137b7f63283a300806048a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 046/111] fix: space for values that are multiples of 64 in an
 idmap

---
 src/adt/idmap.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/adt/idmap.c b/src/adt/idmap.c
index e3facfa..380370a 100644
--- a/src/adt/idmap.c
+++ b/src/adt/idmap.c
@@ -40,12 +40,8 @@ struct idmap {
 
 static unsigned
 value_words(unsigned max_value) {
-	if (max_value == 0) {
-		/* Still allocate one word, for storing 0. */
-		return 1;
-	} else {
-		return u64bitset_words(max_value);
-	}
+	/* Values are counted from 0, so this is always at least one word. */
+	return max_value/64 + 1;
 }
 
 struct idmap *
-- 
2.43.0


From 83aec24cf5cdf74ab661a188f3bb5f62385a7798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 047/111] fix: a bitmap had words which hold no byte

---
 include/adt/bitmap.h | 2 +-
 src/adt/bitmap.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/adt/bitmap.h b/include/adt/bitmap.h
index 61c4f9a..ffede47 100644
--- a/include/adt/bitmap.h
+++ b/include/adt/bitmap.h
@@ -17,7 +17,7 @@ struct fsm_state;
 struct fsm_options;
 
 struct bm {
-	uint64_t map[(UCHAR_MAX + 1)/sizeof(uint64_t)];
+	uint64_t map[(UCHAR_MAX + 1)/(CHAR_BIT * sizeof(uint64_t))];
 };
 
 int
diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index 1fb0160..e0792c0 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -82,7 +82,7 @@ bm_count(const struct bm *bm)
 
 	count = 0;
 
-	for (n = 0; n < sizeof(sizeof(bm->map)/sizeof(bm->map[0])); n++) {
+	for (n = 0; n < sizeof(bm->map)/sizeof(bm->map[0]); n++) {
 		count += u64bitset_popcount(bm->map[n]);
 	}
 
-- 
2.43.0


From 45769e79043072b3aa494f3a0ce8976bdce8106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 048/111] fix: bytes missing from the text of a set of bytes

---
 src/adt/bitmap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index e0792c0..45e6842 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -173,9 +173,6 @@ bm_print(FILE *f, const struct fsm_options *opt, const struct bm *bm,
 
 		/* end of range */
 		hi = bm_next(bm, lo, mode == MODE_INVERT);
-		if (hi > UCHAR_MAX && lo < UCHAR_MAX) {
-			hi = UCHAR_MAX;
-		}
 
 		if (!isalnum((unsigned char) lo) && isalnum((unsigned char) hi)) {
 			r = escputc(f, opt, lo);
@@ -247,6 +244,9 @@ bm_print(FILE *f, const struct fsm_options *opt, const struct bm *bm,
 				return -1;
 			}
 			n += r;
+
+			/* when the endpoint was brought down, it may be in the set */
+			hi = hi - 1;
 			break;
 		}
 	}
-- 
2.43.0


From e5eaa03a807e10cf00a7662dd6e07c1f7963f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 049/111] fix: re_is_literal left the length unset for an
 unsatisfiable pattern

---
 src/libre/re.c |  1 +
 src/rx/main.c  | 12 ++++++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libre/re.c b/src/libre/re.c
index 013e2b5..1726d90 100644
--- a/src/libre/re.c
+++ b/src/libre/re.c
@@ -273,6 +273,7 @@ re_is_literal(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 	if (unsatisfiable) {
 		*category = RE_LITERAL_UNSATISFIABLE;
 		*s = NULL;
+		*n = 0;
 		r = 1;
 		goto done;
 	}
diff --git a/src/rx/main.c b/src/rx/main.c
index 4ac357b..128ea59 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -313,18 +313,18 @@ categorize(enum re_dialect dialect, enum re_flags flags,
 		return CATEGORY_ERROR;
 	}
 
-	/* empty string */
-	if (r == 1 && lit_n == 0) {
-		assert(lit_s == NULL);
-		return CATEGORY_EMPTY;
-	}
-
 	/* unsatisfiable */
 	if (r == 1 && category == RE_LITERAL_UNSATISFIABLE) {
 		assert(lit_s == NULL);
 		return CATEGORY_UNSATISFIABLE;
 	}
 
+	/* empty string */
+	if (r == 1 && lit_n == 0) {
+		assert(lit_s == NULL);
+		return CATEGORY_EMPTY;
+	}
+
 	/* is a literal */
 	if (r == 1) {
 		assert(lit_s != NULL);
-- 
2.43.0


From ca7982e871140765add44b51ad65bc16d135f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 050/111] fix: the empty literal was reported as unanchored
 with RE_ANCHORED

---
 src/libre/re.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libre/re.c b/src/libre/re.c
index 1726d90..ad01572 100644
--- a/src/libre/re.c
+++ b/src/libre/re.c
@@ -309,11 +309,12 @@ re_is_literal(enum re_dialect dialect, int (*getc)(void *opaque), void *opaque,
 		goto error;
 	}
 
+	/* RE_ANCHORED is an anchor on both sides; it is not present as AST nodes */
 	*category = RE_LITERAL_UNANCHORED;
-	if (anchor_start) {
+	if (anchor_start || (flags & RE_ANCHORED)) {
 		*category |= RE_LITERAL_ANCHOR_START;
 	}
-	if (anchor_end) {
+	if (anchor_end || (flags & RE_ANCHORED)) {
 		*category |= RE_LITERAL_ANCHOR_END;
 	}
 
-- 
2.43.0


From 4fb1dda5cf71d3b8d062b77b4eded0a564143199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 051/111] fix: PCRE output printed $ as \z

---
 src/libre/print/pcre.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 974a364..09d444a 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -222,7 +222,8 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 	case AST_EXPR_ANCHOR:
 		assert(n->u.anchor.type == AST_ANCHOR_START || n->u.anchor.type == AST_ANCHOR_END);
-		fprintf(f, "%s", n->u.anchor.type == AST_ANCHOR_START ? "^" : "\\z");
+		fprintf(f, "%s", n->u.anchor.type == AST_ANCHOR_START ? "^"
+			: n->u.anchor.is_end_nl ? "$" : "\\z");
 		break;
 
 	case AST_EXPR_SUBTRACT:
-- 
2.43.0


From 14195a0d14f3a9defb7b38ab2901f03b2da5b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 052/111] fix: PCRE output asserted for repetitions that were
 reduced to {1}

---
 src/libre/print/pcre.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 09d444a..b6ce7ec 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -175,11 +175,9 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 			const char *op;
 		} a[] = {
 #define _ AST_COUNT_UNBOUNDED
-			{ 0, 0, NULL },
 			{ 0, _, "*"  },
 			{ 0, 1, "?"  },
-			{ 1, _, "+"  },
-			{ 1, 1, NULL }
+			{ 1, _, "+"  }
 #undef _
 		};
 
@@ -189,7 +187,6 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 
 		for (i = 0; i < sizeof a / sizeof *a; i++) {
 			if (a[i].m == n->u.repeat.min && a[i].n == n->u.repeat.max) {
-				assert(a[i].op != NULL);
 				fprintf(f, "%s", a[i].op);
 				break;
 			}
-- 
2.43.0


From 7ad6ba492eb45abb486c17e9a4d8fe6fde0058b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 053/111] fix: PCRE output of ranges with punctuation as
 endpoints could not be read back

---
 src/libre/print/pcre.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index b6ce7ec..646caf8 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -12,6 +12,8 @@
 #include <stdlib.h>
 #include <inttypes.h>
 
+#include <fsm/options.h>
+
 #include <re/re.h>
 
 #include <print/esc.h>
@@ -80,7 +82,15 @@ print_endpoint(FILE *f, const struct fsm_options *opt, const struct ast_endpoint
 {
 	switch (e->type) {
 	case AST_ENDPOINT_LITERAL:
-		pcre_escputc(f, opt, e->u.literal.c);
+		/*
+		 * The escapes inside a bracket expression are not those outside,
+		 * and "-" is special there, so use hex for anything unusual.
+		 */
+		if (opt->always_hex || !isalnum((unsigned char) e->u.literal.c)) {
+			fprintf(f, "\\x%02x", (unsigned char) e->u.literal.c);
+		} else {
+			fprintf(f, "%c", e->u.literal.c);
+		}
 		break;
 
 	case AST_ENDPOINT_CODEPOINT:
-- 
2.43.0


From 60130fc93857c5981025b97e260fcfe31390e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 054/111] fix: PCRE output printed [\x00-\xff] as . which does
 not match a newline

---
 src/libre/print/pcre.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 646caf8..93f0583 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -241,7 +241,9 @@ pp_iter(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags, struct
 		break;
 
 	case AST_EXPR_RANGE:
-		if (n->u.range.from.u.literal.c == 0x00 &&
+		/* without RE_SINGLE, . is not every byte */
+		if ((n->re_flags & RE_SINGLE) &&
+			n->u.range.from.u.literal.c == 0x00 &&
 			n->u.range.to.u.literal.c == 0xff)
 		{
 			fprintf(f, ".");
-- 
2.43.0


From 92934ee4550b8b01543a77e3f2f9a8cfb4a45245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 055/111] fix: removing states left the capture actions of the
 automaton unmapped

fsm_trim() and fsm_removestate() renumber the states they keep, but the
capture actions still named the old numbers: captures were lost or placed
elsewhere, and fsm_minimise() (which trims) could run into an assertion.
---
 src/libfsm/capture.c | 63 ++++++++++++++++++++++++++++++++++++++++++++
 src/libfsm/capture.h |  6 +++++
 src/libfsm/state.c   |  7 ++++-
 3 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index d928a7b..6adf91d 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -641,6 +641,69 @@ fsm_capture_alloc(const struct fsm *fsm)
 	return NULL;
 }
 
+int
+fsm_capture_compact(struct fsm *fsm,
+    const fsm_state_t *mapping, size_t mapping_count)
+{
+	struct fsm_capture_info *ci = fsm->capture_info;
+	struct fsm_capture_action_bucket *nbuckets;
+	unsigned nused = 0;
+	size_t i, mask;
+
+	if (ci == NULL || ci->buckets_used == 0) {
+		return 1;
+	}
+
+	nbuckets = f_malloc(fsm->alloc,
+	    ci->bucket_count * sizeof(nbuckets[0]));
+	if (nbuckets == NULL) {
+		return 0;
+	}
+
+	for (i = 0; i < ci->bucket_count; i++) {
+		nbuckets[i].state = CAPTURE_NO_STATE;
+	}
+
+	mask = ci->bucket_count - 1;
+
+	/* The buckets are keyed by state, so rehash everything kept. */
+	for (i = 0; i < ci->bucket_count; i++) {
+		struct fsm_capture_action_bucket b = ci->buckets[i];
+		size_t b_i;
+
+		if (b.state == CAPTURE_NO_STATE) {
+			continue; /* empty */
+		}
+
+		assert(b.state < mapping_count);
+		b.state = mapping[b.state];
+		if (b.state == FSM_STATE_REMAP_NO_STATE) {
+			continue; /* state removed */
+		}
+
+		if (b.action.to != CAPTURE_NO_STATE) {
+			assert(b.action.to < mapping_count);
+			b.action.to = mapping[b.action.to];
+			if (b.action.to == FSM_STATE_REMAP_NO_STATE) {
+				continue; /* can no longer be followed */
+			}
+		}
+
+		b_i = hash_id(b.state) & mask;
+		while (nbuckets[b_i].state != CAPTURE_NO_STATE) {
+			b_i = (b_i + 1) & mask;
+		}
+		nbuckets[b_i] = b;
+		nused++;
+	}
+
+	f_free(fsm->alloc, ci->buckets);
+	ci->buckets = nbuckets;
+	ci->buckets_used = nused;
+
+	return 1;
+}
+
 void
 fsm_capture_update_captures(const struct fsm *fsm,
     fsm_state_t cur_state, fsm_state_t next_state, size_t offset,
diff --git a/src/libfsm/capture.h b/src/libfsm/capture.h
index 4c0ba47..50d868e 100644
--- a/src/libfsm/capture.h
+++ b/src/libfsm/capture.h
@@ -53,6 +53,12 @@ fsm_capture_add_action(struct fsm *fsm,
     fsm_state_t state, enum capture_action_type type,
     unsigned id, fsm_state_t to);
 
+/* Update capture actions after states have been renumbered, dropping
+ * the actions for those mapped to FSM_STATE_REMAP_NO_STATE. */
+int
+fsm_capture_compact(struct fsm *fsm,
+    const fsm_state_t *mapping, size_t mapping_count);
+
 /* Callback for iterating over capture actions.
  * Return 1 to continue, return 0 to halt.
  * If TO is not meaningful for a particular type, it will be
diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index fbd8888..3bcb369 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -20,6 +20,7 @@
 #include "internal.h"
 #include "endids.h"
 #include "eager_output.h"
+#include "capture.h"
 
 int
 fsm_addstate(struct fsm *fsm, fsm_state_t *state)
@@ -138,7 +139,8 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	mapping[state] = FSM_STATE_REMAP_NO_STATE;
 
 	if (!fsm_endid_compact(fsm, mapping, fsm->statecount)
-	|| !fsm_eager_output_compact(fsm, mapping, fsm->statecount)) {
+	|| !fsm_eager_output_compact(fsm, mapping, fsm->statecount)
+	|| !fsm_capture_compact(fsm, mapping, fsm->statecount)) {
 		f_free(fsm->alloc, mapping);
 		return 0;
 	}
@@ -292,6 +294,9 @@ fsm_compact_states(struct fsm *fsm,
 	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
 		return 0;
 	}
+	if (!fsm_capture_compact(fsm, mapping, orig_statecount)) {
+		return 0;
+	}
 
 	assert(dst == kept);
 	assert(kept == fsm->statecount);
-- 
2.43.0


From 4b4fae018aca0849cc49a89c027bdf675a57649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 056/111] fix: a state added in place of a removed one could
 claim its capture actions

---
 src/libfsm/state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 3bcb369..4c4f4c0 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -67,6 +67,7 @@ fsm_addstate(struct fsm *fsm, fsm_state_t *state)
 		new->epsilons = NULL;
 		new->edges    = NULL;
 		new->has_eager_outputs = 0;
+		new->has_capture_actions = 0;
 	}
 
 	fsm->statecount++;
@@ -92,6 +93,7 @@ fsm_addstate_bulk(struct fsm *fsm, size_t n)
 			new->epsilons = NULL;
 			new->edges    = NULL;
 			new->has_eager_outputs = 0;
+			new->has_capture_actions = 0;
 		}
 
 		fsm->statecount += n;
-- 
2.43.0


From 9345b46e2c01676c865dd5c9cca81e96e3fb2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 057/111] fix: fsm_exec() wrote captures through NULL when the
 caller wants none

---
 src/libfsm/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/exec.c b/src/libfsm/exec.c
index d8cebd8..7777bb1 100644
--- a/src/libfsm/exec.c
+++ b/src/libfsm/exec.c
@@ -97,7 +97,7 @@ fsm_exec(const struct fsm *fsm,
 	assert(fsm_getc != NULL);
 	assert(end != NULL);
 
-	capture_count = fsm_countcaptures(fsm);
+	capture_count = captures != NULL ? fsm_countcaptures(fsm) : 0;
 
 	/* TODO: check prerequisites; that it has literal edges, DFA, etc */
 
-- 
2.43.0


From 986b28b3528f24517f70f39a9782269743fc4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 058/111] fix: fsm_capture_set_path() did not check an
 allocation

---
 src/libfsm/capture.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index 6adf91d..9c8db13 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -148,6 +148,9 @@ fsm_capture_set_path(struct fsm *fsm, unsigned capture_id,
 	seen_words = fsm->statecount/64 + 1;
 	env.seen = f_malloc(fsm->alloc,
 	    seen_words * sizeof(env.seen[0]));
+	if (env.seen == NULL) {
+		goto cleanup;
+	}
 
 	if (!mark_capture_path(&env)) {
 		goto cleanup;
-- 
2.43.0


From 352208aa0c6b35603c1980a2a1dbf629131fb7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 059/111] fix: fsm_new() read what it had freed when an
 allocation failed

---
 src/libfsm/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/fsm.c b/src/libfsm/fsm.c
index 866650a..4072795 100644
--- a/src/libfsm/fsm.c
+++ b/src/libfsm/fsm.c
@@ -94,17 +94,17 @@ fsm_new_statealloc(const struct fsm_alloc *alloc, size_t statealloc)
 	}
 
 	if (!fsm_endid_init(new)) {
+		fsm_capture_free(new);
 		f_free(new->alloc, new->states);
 		f_free(new->alloc, new);
-		fsm_capture_free(new);
 		return NULL;
 	}
 
 	if (!fsm_eager_output_init(new)) {
-		f_free(new->alloc, new->states);
-		f_free(new->alloc, new);
 		fsm_capture_free(new);
 		fsm_endid_free(new);
+		f_free(new->alloc, new->states);
+		f_free(new->alloc, new);
 		return NULL;
 	}
 
-- 
2.43.0


From b7fc35e689969900497af3055b6168909c9f52e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 060/111] fix: a failed allocation leaked in state_set_create()
 and lost the state of a singleton set

---
 src/adt/stateset.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index 0eae74c..501eee4 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -193,6 +193,7 @@ state_set_create(const struct fsm_alloc *a)
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
@@ -242,7 +243,14 @@ state_set_add(struct state_set **setp, const struct fsm_alloc *alloc,
 
 		*setp = NULL;
 
-		return state_set_add_bulk(setp, alloc, a, sizeof a / sizeof *a);
+		if (!state_set_add_bulk(setp, alloc, a, sizeof a / sizeof *a)) {
+			if (*setp == NULL) {
+				*setp = SINGLETON_ENCODE(a[0]);
+			}
+			return 0;
+		}
+
+		return 1;
 	}
 
 	set = *setp;
@@ -316,6 +324,7 @@ state_set_add_bulk(struct state_set **setp, const struct fsm_alloc *alloc,
 
 		*setp = state_set_create(alloc);
 		if (*setp == NULL) {
+			*setp = SINGLETON_ENCODE(prev);
 			return 0;
 		}
 
-- 
2.43.0


From 414a99cc6d9cfd920055af9887918f3b5837208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 061/111] fix: set_create() leaked when its second allocation
 failed

---
 src/adt/set.inc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/adt/set.inc b/src/adt/set.inc
index 58f091f..783019b 100644
--- a/src/adt/set.inc
+++ b/src/adt/set.inc
@@ -97,6 +97,7 @@ set_create(const struct fsm_alloc *a,
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
-- 
2.43.0


From 9cf99dcab28352d386e3e53ece2463a95ceac50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 062/111] fix: epsilon_closure() ignored failed allocations and
 freed what it had not initialised

---
 src/libfsm/closure.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/closure.c b/src/libfsm/closure.c
index 165fa49..d9b66a4 100644
--- a/src/libfsm/closure.c
+++ b/src/libfsm/closure.c
@@ -34,7 +34,7 @@ epsilon_closure_single(const struct fsm *fsm, struct state_set **closures, fsm_s
 
 	q = queue_new(fsm->alloc, fsm->statecount);
 	if (q == NULL) {
-		return 1;
+		return 0;
 	}
 
 	fsm->states[s].visited = 1;
@@ -122,6 +122,10 @@ start:
 
 error:
 
+	for (p = 0; p < fsm->statecount; p++) {
+		fsm->states[p].visited = 0;
+	}
+
 	queue_free(q);
 
 	return 0;
@@ -142,9 +146,11 @@ epsilon_closure(const struct fsm *fsm)
 	}
 
 	for (s = 0; s < fsm->statecount; s++) {
-		fsm->states[s].visited = 0;
-
 		closures[s] = NULL;
+	}
+
+	for (s = 0; s < fsm->statecount; s++) {
+		fsm->states[s].visited = 0;
 
 		/*
 		 * In the simplest case of having no epsilon transitions, the
@@ -173,7 +179,9 @@ epsilon_closure(const struct fsm *fsm)
 			continue;
 		}
 
-		epsilon_closure_single(fsm, closures, s);
+		if (!epsilon_closure_single(fsm, closures, s)) {
+			goto error;
+		}
 	}
 
 	return closures;
-- 
2.43.0


From e7a643dafc8db4cd333cd4f27075d6b0e07b7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 063/111] fix: fsm_remove_epsilons() dropped capture actions
 when an allocation failed

---
 src/libfsm/epsilons.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 7543714..4977fce 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -373,6 +373,9 @@ remap_capture_actions(struct fsm *nfa, struct state_set **eclosures)
 	 * It can't be added during the iteration, because that would
 	 * modify the hash table as it's being iterated over. */
 	fsm_capture_action_iter(nfa, remap_capture_action_cb, &env);
+	if (!env.ok) {
+		goto cleanup;
+	}
 
 	/* Now that we're done iterating, add those actions. */
 	for (i = 0; i < env.count; i++) {
-- 
2.43.0


From 6b7cebee296972fe43fdeeb0b6556c2d975543d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:57 +0000
Subject: [PATCH 064/111] fix: fsm_reverse() leaked, and wrote through NULL,
 when an allocation failed

---
 src/libfsm/reverse.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/libfsm/reverse.c b/src/libfsm/reverse.c
index c709373..43b67e3 100644
--- a/src/libfsm/reverse.c
+++ b/src/libfsm/reverse.c
@@ -124,7 +124,7 @@ fsm_reverse(struct fsm *fsm)
 	}
 
 	epsilons = f_malloc(fsm->alloc, sizeof *epsilons * fsm->statecount);
-	if (edges == NULL) {
+	if (epsilons == NULL) {
 		state_set_free(endset);
 		f_free(fsm->alloc, edges);
 		return 0;
@@ -164,7 +164,7 @@ fsm_reverse(struct fsm *fsm)
 
 				for (state_set_reset(fsm->states[i].epsilons, &jt); state_set_next(&jt, &se); ) {
 					if (!state_set_add(&epsilons[se], fsm->alloc, i)) {
-						goto error1;
+						goto error;
 					}
 				}
 			}
@@ -172,7 +172,7 @@ fsm_reverse(struct fsm *fsm)
 				assert(e.state < fsm->statecount);
 
 				if (!edge_set_add(&edges[e.state], fsm->alloc, e.symbol, i)) {
-					return 0;
+					goto error;
 				}
 			}
 		}
@@ -208,7 +208,7 @@ fsm_reverse(struct fsm *fsm)
 			}
 
 			if (!state_set_add(&epsilons[start], fsm->alloc, s)) {
-				goto error1;
+				goto error;
 			}
 		}
 	} else {
@@ -279,22 +279,17 @@ fsm_reverse(struct fsm *fsm)
 
 	return 1;
 
-error1:
+error:
 
 	{
 		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
-			state_set_free(fsm->states[i].epsilons);
-			edge_set_free(fsm->alloc, fsm->states[i].edges);
-
-			fsm->states[i].epsilons = epsilons[i];
-			fsm->states[i].edges = edges[i];
+			state_set_free(epsilons[i]);
+			edge_set_free(fsm->alloc, edges[i]);
 		}
 	}
 
-error:
-
 	state_set_free(endset);
 
 	f_free(fsm->alloc, epsilons);
-- 
2.43.0


From bc86b67e64642afbcdaf81d075f735c3a384d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:57 +0000
Subject: [PATCH 065/111] fix: fsm_consolidate() leaked when an allocation
 failed, and fsm_shuffle() did not notice

---
 src/libfsm/consolidate.c | 1 +
 src/libfsm/shuffle.c     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/libfsm/consolidate.c b/src/libfsm/consolidate.c
index 55c3bfd..7057849 100644
--- a/src/libfsm/consolidate.c
+++ b/src/libfsm/consolidate.c
@@ -170,6 +170,7 @@ fsm_consolidate(const struct fsm *src,
 cleanup:
 
 	if (seen != NULL) { f_free(src->alloc, seen); }
+	if (dst != NULL) { fsm_free(dst); }
 	return NULL;
 }
 
diff --git a/src/libfsm/shuffle.c b/src/libfsm/shuffle.c
index 0a7269d..431e140 100644
--- a/src/libfsm/shuffle.c
+++ b/src/libfsm/shuffle.c
@@ -74,6 +74,7 @@ fsm_shuffle(struct fsm *fsm, unsigned seed)
 	populate_mapping(mapping, state_count, (uint32_t)seed);
 
 	dst = fsm_consolidate(fsm, mapping, state_count);
+	if (dst == NULL) { goto cleanup; }
 	fsm_move(fsm, dst);
 	dst = NULL;
 
-- 
2.43.0


From 413b141d8f60b8117ac3ffb258afec572596b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 066/111] fix: fsm_determinise() leaked, and asserted, when an
 allocation failed

---
 src/adt/internedstateset.c |  2 +-
 src/libfsm/determinise.c   | 21 +++++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/adt/internedstateset.c b/src/adt/internedstateset.c
index 990d9c9..624c64c 100644
--- a/src/adt/internedstateset.c
+++ b/src/adt/internedstateset.c
@@ -84,7 +84,7 @@ interned_state_set_pool_alloc(const struct fsm_alloc *a)
 	if (sets == NULL) { goto cleanup; }
 
 	buf = f_malloc(a, DEF_BUF * sizeof(buf[0]));
-	if (sets == NULL) { goto cleanup; }
+	if (buf == NULL) { goto cleanup; }
 
 	buckets = f_malloc(a, DEF_BUCKETS * sizeof(buckets[0]));
 	if (buckets == NULL) { goto cleanup; }
diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 3f748ae..0f8446f 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -30,6 +30,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 	struct interned_state_set_pool *issp = NULL;
 	struct map map = { NULL, 0, 0, NULL };
 	struct mapping *curr = NULL;
+	struct fsm *dfa = NULL;
 	size_t dfacount = 0;
 	const size_t state_limit = config == NULL
 	    ? 0
@@ -193,7 +194,6 @@ fsm_determinise_with_config(struct fsm *nfa,
 	{
 		struct map_iter it;
 		struct mapping *m;
-		struct fsm *dfa;
 
 		dfa = fsm_new(nfa->alloc);
 		if (dfa == NULL) {
@@ -247,6 +247,9 @@ fsm_determinise_with_config(struct fsm *nfa,
 			 * states are end states.
 			 */
 			ss = interned_state_set_get_state_set(ac_env.issp, iss_id);
+			if (ss == NULL) {
+				goto cleanup;
+			}
 			if (!state_set_has(nfa, ss, fsm_isend)) {
 				continue;
 			}
@@ -274,6 +277,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 		}
 
 		fsm_move(nfa, dfa);
+		dfa = NULL;
 	}
 
 #if EXPENSIVE_CHECKS
@@ -286,6 +290,9 @@ fsm_determinise_with_config(struct fsm *nfa,
 	res = FSM_DETERMINISE_WITH_CONFIG_OK;
 
 cleanup:
+	if (dfa != NULL) {
+		fsm_free(dfa);
+	}
 	map_free(&map);
 	stack_free(stack);
 	interned_state_set_pool_free(issp);
@@ -725,6 +732,7 @@ build_reverse_mappings(const struct map *map, struct interned_state_set_pool *is
 		interned_state_set_id iss_id = m->iss;
 		assert(m->dfastate < dst_dfa->statecount);
 		ss = interned_state_set_get_state_set(issp, iss_id);
+		if (ss == NULL) { goto cleanup; }
 
 		fsm_state_t state;
 		for (state_set_reset(ss, &si); state_set_next(&si, &state); ) {
@@ -903,11 +911,12 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 	fprintf(stderr, "%s: iss_id %lu\n", __func__, iss_id);
 #endif
 
-	analyze_closures__init_groups(env);
+	if (!analyze_closures__init_groups(env)) { return 0; }
 
 	INIT_TIMERS();
 	TIME(&pre);
 	struct state_set *ss = interned_state_set_get_state_set(env->issp, iss_id);
+	if (ss == NULL) { return 0; }
 	const size_t set_count = state_set_count(ss);
 
 #if LOG_DETERMINISE_STATE_SETS || LOG_GROUPING > 1
@@ -936,13 +945,13 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 		    env->pbuf[0],
 		    nceil * sizeof(env->pbuf[0]));
 		if (a == NULL) { return 0; }
+		env->pbuf[0] = a;
 		fsm_state_t *b = f_realloc(env->alloc,
 		    env->pbuf[1],
 		    nceil * sizeof(env->pbuf[1]));
 		if (b == NULL) { return 0; }
-		env->pbuf_ceil = nceil;
-		env->pbuf[0] = a;
 		env->pbuf[1] = b;
+		env->pbuf_ceil = nceil;
 	}
 
 	{
@@ -1073,7 +1082,7 @@ cache_single_state_analysis(struct analyze_closures_env *env, fsm_state_t state_
 	struct edge_group_iter iter;
 	struct edge_group_iter_info info;
 
-	analyze_closures__init_groups(env);
+	if (!analyze_closures__init_groups(env)) { return 0; }
 	assert(env->group_count == 0);
 
 	/* collect groups */
@@ -2619,7 +2628,7 @@ remap_eager_outputs(const struct map *map, struct interned_state_set_pool *issp,
 	struct map_iter iter;
 	for (struct mapping *b = map_first(map, &iter); b != NULL; b = map_next(&iter)) {
 		struct state_set *ss = interned_state_set_get_state_set(issp, b->iss);
-		assert(ss != NULL);
+		if (ss == NULL) { return 0; }
 
 		struct state_iter it;
 		fsm_state_t s;
-- 
2.43.0


From ccabf5e6e77ff63fd83bbbcb2f88bd68fbe6da95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 067/111] fix: fsm_complete() and fsm_complement() freed the
 caller's automaton, twice, when an allocation failed

---
 src/libfsm/complement.c | 1 -
 src/libfsm/complete.c   | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 53d61c0..492bc21 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -24,7 +24,6 @@ fsm_complement(struct fsm *fsm)
 
 	if (!fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
diff --git a/src/libfsm/complete.c b/src/libfsm/complete.c
index d74f4d6..786dd8a 100644
--- a/src/libfsm/complete.c
+++ b/src/libfsm/complete.c
@@ -32,7 +32,6 @@ fsm_complete(struct fsm *fsm,
 
 	if (!fsm_all(fsm, fsm_isdfa)) {
 		if (!fsm_determinise(fsm)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
-- 
2.43.0


From 3947acbb8a493e5216e65a0d6782f652b5429191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 068/111] fix: fsm_union() and fsm_concat() asserted when an
 allocation failed

---
 src/libfsm/concat.c | 4 +++-
 src/libfsm/union.c  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 12605e7..64f2c72 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -60,7 +60,9 @@ fsm_concat(struct fsm *a, struct fsm *b,
 	}
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		return NULL;
+	}
 
 	sq += combine_info->base_a;
 	ea += combine_info->base_a;
diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index c54a907..82a6958 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -115,7 +115,9 @@ fsm_union(struct fsm *a, struct fsm *b,
 	}
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		return NULL;
+	}
 
 	sa += combine_info->base_a;
 	sb += combine_info->base_b;
-- 
2.43.0


From 2c1740e83ca58ae5ce592ca0ad6922273102ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 069/111] fix: fsm_empty() answered "not empty" when an
 allocation failed, and so fsm_equal() answered

---
 src/libfsm/empty.c      |  8 +++++---
 src/libfsm/equal.c      |  9 +++++++--
 src/libre/ast_compile.c | 11 ++++++++++-
 src/libre/ast_rewrite.c |  5 +++++
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/empty.c b/src/libfsm/empty.c
index 7039215..f89dbd5 100644
--- a/src/libfsm/empty.c
+++ b/src/libfsm/empty.c
@@ -21,6 +21,7 @@ int
 fsm_empty(const struct fsm *fsm)
 {
 	fsm_state_t start;
+	int r;
 
 	assert(fsm != NULL);
 
@@ -34,10 +35,11 @@ fsm_empty(const struct fsm *fsm)
 	 * Note this includes the empty string (when the start state matches).
 	 */
 
-	if (fsm_reachableany(fsm, start, fsm_isend)) {
-		return 0;
+	r = fsm_reachableany(fsm, start, fsm_isend);
+	if (r == -1) {
+		return -1;
 	}
 
-	return 1;
+	return !r;
 }
 
diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index a9fd6a8..d49acc8 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -118,6 +118,7 @@ subsetof(const struct fsm *a, const struct fsm *b)
 int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
+	fsm_state_t start;
 	int a_empty, b_empty;
 	int r;
 
@@ -130,8 +131,12 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 	}
 
 	/* An FSM with no start state doesn't match anything, either. */
-	a_empty = fsm_empty(a) != 0;
-	b_empty = fsm_empty(b) != 0;
+	a_empty = fsm_getstart(a, &start) ? fsm_empty(a) : 1;
+	b_empty = fsm_getstart(b, &start) ? fsm_empty(b) : 1;
+	if (a_empty == -1 || b_empty == -1) {
+		return -1;
+	}
+
 	if (a_empty || b_empty) {
 		return a_empty && b_empty;
 	}
diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 176e7fb..ed36c81 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -910,6 +910,7 @@ comp_iter(struct comp_env *env,
 		struct fsm *a, *b;
 		struct fsm *q;
 		enum re_flags re_flags;
+		int empty;
 
 		re_flags = n->re_flags;
 
@@ -941,7 +942,15 @@ comp_iter(struct comp_env *env,
 		 * overall or not.
 		 */
 
-		if (fsm_empty(q)) {
+		empty = fsm_empty(q);
+		if (empty == -1 && errno != EINVAL) {
+			fsm_free(q);
+			return 0;
+		}
+
+		/* without a start state there is nothing to match either */
+		if (empty) {
+			fsm_free(q);
 			EPSILON(x, y);
 			break;
 		}
diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 9ef2e00..70ecd1e 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -4,6 +4,7 @@
  * See LICENCE for the full copyright terms.
  */
 
+#include <errno.h>
 #include <assert.h>
 #include <string.h>
 #include <stdint.h>
@@ -675,6 +676,10 @@ rewrite_subtract(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags
 		}
 
 		empty = fsm_empty(q);
+		if (empty == -1 && errno != EINVAL) {
+			fsm_free(q);
+			return 0;
+		}
 
 		fsm_free(q);
 	}
-- 
2.43.0


From 4cff337ec90c41577427a410e0d61443675737e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 070/111] fix: removing states ignored failed allocations and
 left edges to the states removed

---
 src/adt/edgeset.c        | 140 ++++++++-------------------------------
 src/libfsm/consolidate.c |   6 +-
 src/libfsm/state.c       |  30 +++++----
 3 files changed, 50 insertions(+), 126 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 30cb6eb..ed7655f 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -813,56 +813,32 @@ edge_set_remove_state(struct edge_set **pset, fsm_state_t state)
 	}
 }
 
-struct to_info {
-	fsm_state_t old_to;
-	fsm_state_t new_to;
-	fsm_state_t assignment;
-};
-
-static int
-collate_info_by_new_to(const void *pa, const void *pb)
-{
-	const struct to_info *a = (const struct to_info *)pa;
-	const struct to_info *b = (const struct to_info *)pb;
-	if (a->new_to < b->new_to) {
-		return -1;
-	} else if (a->new_to > b->new_to) {
-		return 1;
-	} else {
-		return 0;
-	}
-}
-
 static int
-collate_info_by_old_to(const void *pa, const void *pb)
+cmp_edge_group_by_to(const void *pa, const void *pb)
 {
-	const struct to_info *a = (const struct to_info *)pa;
-	const struct to_info *b = (const struct to_info *)pb;
-	if (a->old_to < b->old_to) {
+	const struct edge_group *a = (const struct edge_group *)pa;
+	const struct edge_group *b = (const struct edge_group *)pb;
+	if (a->to < b->to) {
 		return -1;
-	} else if (a->old_to > b->old_to) {
+	} else if (a->to > b->to) {
 		return 1;
 	} else {
-		assert(!"violated uniqueness invariant");
 		return 0;
 	}
 }
 
-#define LOG_COMPACT 0
-
 int
 edge_set_compact(struct edge_set **pset, const struct fsm_alloc *alloc,
     fsm_state_remap_fun *remap, const void *opaque)
 {
 	struct edge_set *set;
-	size_t i;
-	struct to_info *info;
-	struct edge_group *ngroups;
-	size_t ncount = 0;
+	size_t i, count;
 
 	assert(pset != NULL);
 	set = *pset;
 
+	(void) alloc;
+
 #if LOG_BITSET || LOG_COMPACT
 	fprintf(stderr, " -- edge_set_compact: set %p\n",
 	    (void *)set);
@@ -874,107 +850,47 @@ edge_set_compact(struct edge_set **pset, const struct fsm_alloc *alloc,
 
 	assert(set->count > 0);
 
-	info = f_malloc(alloc, set->count * sizeof(info[0]));
-	if (info == NULL) {
-		return 0;
-	}
-
-	ngroups = f_calloc(alloc, set->ceil, sizeof(ngroups[0]));
-	if (ngroups == NULL) {
-		f_free(alloc, info);
-		return 0;
-	}
-
-	/* first pass, construct mapping */
-	for (i = 0; i < set->count; i++) {
-		struct edge_group *eg = &set->groups[i];
-		const fsm_state_t new_to = remap(eg->to, opaque);
+	/* remap, discarding groups whose state is removed */
+	for (i = 0, count = 0; i < set->count; i++) {
+		const fsm_state_t new_to = remap(set->groups[i].to, opaque);
 #if LOG_BITSET > 1 || LOG_COMPACT
 		fprintf(stderr, "compact: %ld, old_to %d -> new_to %d\n",
-		    i, eg->to, new_to);
-#endif
-		info[i].old_to = eg->to;
-		info[i].new_to = new_to;
-		info[i].assignment = (fsm_state_t)-1; /* not yet assigned */
-	}
-
-	/* sort info by new_state */
-	qsort(info, set->count, sizeof(info[0]),
-	    collate_info_by_new_to);
-
-#if LOG_BITSET > 1 || LOG_COMPACT
-	fprintf(stderr, "== after sort by new_state\n");
-	for (i = 0; i < set->count; i++) {
-		fprintf(stderr, " -- %lu: old_to: %d, new_to: %d, assignment: %d\n",
-		    i,
-		    info[i].old_to,
-		    info[i].new_to,
-		    info[i].assignment);
-	}
+		    i, set->groups[i].to, new_to);
 #endif
-
-	info[0].assignment = 0;
-	ncount++;
-
-	for (i = 1; i < set->count; i++) {
-		const fsm_state_t prev_new_to = info[i - 1].new_to;
-		const fsm_state_t prev_assignment = info[i - 1].assignment;
-
-		assert(info[i].new_to >= prev_new_to);
-
-		if (info[i].new_to == FSM_STATE_REMAP_NO_STATE) {
-			break;
+		if (new_to == FSM_STATE_REMAP_NO_STATE) {
+			continue;
 		}
 
-		if (info[i].new_to == prev_new_to) {
-			info[i].assignment = prev_assignment;
-		} else {
-			info[i].assignment = prev_assignment + 1;
-			ncount++;
-		}
+		set->groups[count] = set->groups[i];
+		set->groups[count].to = new_to;
+		count++;
 	}
 
-	/* sort again, by old_state */
-	qsort(info, set->count, sizeof(info[0]),
-	    collate_info_by_old_to);
-
-#if LOG_BITSET > 1 || LOG_COMPACT
-	fprintf(stderr, "== after sort by old_state\n");
-	for (i = 0; i < set->count; i++) {
-		fprintf(stderr, " -- %lu: old_to: %d, new_to: %d, assignment: %d\n",
-		    i,
-		    info[i].old_to,
-		    info[i].new_to,
-		    info[i].assignment);
-	}
-#endif
+	/* groups are ordered by state */
+	qsort(set->groups, count, sizeof(set->groups[0]), cmp_edge_group_by_to);
 
-	/* second pass, copy/condense */
-	for (i = 0; i < set->count; i++) {
-		struct edge_group *g;
+	/* condense groups which now lead to the same state */
+	for (i = 0, set->count = 0; i < count; i++) {
 		size_t w_i;
-		if (info[i].new_to == FSM_STATE_REMAP_NO_STATE) {
+
+		if (set->count == 0 || set->groups[set->count - 1].to != set->groups[i].to) {
+			set->groups[set->count] = set->groups[i];
+			set->count++;
 			continue;
 		}
-		g = &ngroups[info[i].assignment];
-		g->to = info[i].new_to;
 
 		for (w_i = 0; w_i < 256/64; w_i++) {
-			g->symbols[w_i] |= set->groups[i].symbols[w_i];
+			set->groups[set->count - 1].symbols[w_i] |= set->groups[i].symbols[w_i];
 		}
 	}
 
-	f_free(alloc, info);
-	f_free(alloc, set->groups);
-	set->groups = ngroups;
-	set->count = ncount;
-
 #if LOG_BITSET > 1 || LOG_COMPACT
 	for (i = 0; i < set->count; i++) {
-		fprintf(stderr, "ngroups[%zu]: to %d\n",
+		fprintf(stderr, "groups[%zu]: to %d\n",
 		    i, set->groups[i].to);
 	}
 #endif
+
 	return 1;
 }
 
diff --git a/src/libfsm/consolidate.c b/src/libfsm/consolidate.c
index 7057849..ca303aa 100644
--- a/src/libfsm/consolidate.c
+++ b/src/libfsm/consolidate.c
@@ -133,8 +133,10 @@ fsm_consolidate(const struct fsm *src,
 				src->states[src_i].edges)) {
 				goto cleanup;
 			}
-			edge_set_compact(&dst->states[dst_i].edges,
-			    dst->alloc, mapping_cb, &closure);
+			if (!edge_set_compact(&dst->states[dst_i].edges,
+				dst->alloc, mapping_cb, &closure)) {
+				goto cleanup;
+			}
 
 			if (fsm_isend(src, src_i)) {
 				fsm_setend(dst, dst_i, 1);
diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 4c4f4c0..514d582 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -259,7 +259,10 @@ fsm_compact_states(struct fsm *fsm,
 #endif
 		state_set_compact(&s->epsilons, mapping_cb, mapping);
 		if (fsm->states[i].edges != NULL) {
-			edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping);
+			if (!edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping)) {
+				f_free(fsm->alloc, mapping);
+				return 0;
+			}
 		}
 	}
 
@@ -289,17 +292,6 @@ fsm_compact_states(struct fsm *fsm,
 		}
 	}
 
-	/* Remap end metadata */
-	if (!fsm_endid_compact(fsm, mapping, orig_statecount)) {
-		return 0;
-	}
-	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
-		return 0;
-	}
-	if (!fsm_capture_compact(fsm, mapping, orig_statecount)) {
-		return 0;
-	}
-
 	assert(dst == kept);
 	assert(kept == fsm->statecount);
 
@@ -315,6 +307,20 @@ fsm_compact_states(struct fsm *fsm,
 #endif
 	}
 
+	/* Remap end metadata */
+	if (!fsm_endid_compact(fsm, mapping, orig_statecount)) {
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
+	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
+	if (!fsm_capture_compact(fsm, mapping, orig_statecount)) {
+		f_free(fsm->alloc, mapping);
+		return 0;
+	}
+
 	if (fsm->statecount < orig_statecount/2) {
 		/* todo: resize backing array, if significantly smaller? */
 	}
-- 
2.43.0


From e4ed92b1ecdc6a41a2c563455ad337a766695b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:29 +0000
Subject: [PATCH 071/111] fix: fsm_concat: free an operand without states, and
 set combine_info

---
 src/libfsm/concat.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 64f2c72..e088c3e 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -8,6 +8,7 @@
 #include <stddef.h>
 #include <limits.h>
 #include <errno.h>
+#include <string.h>
 
 #include <fsm/fsm.h>
 #include <fsm/bool.h>
@@ -29,6 +30,8 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		combine_info = &combine_info_internal;
 	}
 
+	memset(combine_info, 0x00, sizeof(*combine_info));
+
 	assert(a != NULL);
 	assert(b != NULL);
 
@@ -37,8 +40,8 @@ fsm_concat(struct fsm *a, struct fsm *b,
 		return NULL;
 	}
 
-	if (a->statecount == 0) { return b; }
-	if (b->statecount == 0) { return a; }
+	if (a->statecount == 0) { fsm_free(a); return b; }
+	if (b->statecount == 0) { fsm_free(b); return a; }
 
 	if (!fsm_has(a, fsm_isend)) {
 		errno = EINVAL;
-- 
2.43.0


From 7cedac74d7b28ad0a598a1f3d0446e80a1ce6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:29 +0000
Subject: [PATCH 072/111] fix: fsm_union_array: free the operand fsm_union
 refuses

---
 src/libfsm/union.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 82a6958..bfd7fad 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -173,7 +173,6 @@ fsm_union_array(size_t fsm_count,
 	for (i = 1; i < fsm_count; i++) {
 		struct fsm_combine_info ci;
 		struct fsm *combined = fsm_union(res, fsms[i], &ci);
-		fsms[i] = NULL;
 		if (combined == NULL) {
 			while (i < fsm_count) {
 				fsm_free(fsms[i]);
@@ -184,6 +183,7 @@ fsm_union_array(size_t fsm_count,
 			return NULL;
 		}
 
+		fsms[i] = NULL;
 		res = combined;
 
 		if (bases == NULL) {
-- 
2.43.0


From bdc12bf281017c1ff75c60dce29459d29e020df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 073/111] fix: fsm_reverse: set the start state when the
 reversed language is empty

---
 src/libfsm/reverse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/reverse.c b/src/libfsm/reverse.c
index 43b67e3..cf190c7 100644
--- a/src/libfsm/reverse.c
+++ b/src/libfsm/reverse.c
@@ -57,11 +57,13 @@ fsm_reverse(struct fsm *fsm)
 			return 0;
 		}
 
-		if (!fsm_addstate(new, &new->start)) {
+		if (!fsm_addstate(new, &start)) {
 			fsm_free(new);
 			return 0;
 		}
 
+		fsm_setstart(new, start);
+
 		fsm_move(fsm, new);
 
 		return 1;
-- 
2.43.0


From ad5186aa7a20720097f91b6d59177a309100b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 074/111] fix: fsm_determinise: make a DFA of an automaton
 without a start state

---
 src/libfsm/determinise.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 0f8446f..46e208c 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -41,6 +41,17 @@ fsm_determinise_with_config(struct fsm *nfa,
 	assert(nfa != NULL);
 	map.alloc = nfa->alloc;
 
+	/* Without a start state the language is empty, and so is the DFA. */
+	if (!nfa->hasstart) {
+		dfa = fsm_new(nfa->alloc);
+		if (dfa == NULL) {
+			return FSM_DETERMINISE_WITH_CONFIG_ERRNO;
+		}
+
+		fsm_move(nfa, dfa);
+		return FSM_DETERMINISE_WITH_CONFIG_OK;
+	}
+
 	/*
 	 * This NFA->DFA implementation is for epsilon-free NFA only. This keeps
 	 * things a little simpler by avoiding epsilon closures, and also a little
-- 
2.43.0


From 1977aa065378100650b3868a801f687443f21676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 075/111] fix: fsm_complement: nondeterministic operands, and
 those without a start state

---
 src/libfsm/complement.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 492bc21..4625d75 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -18,10 +18,29 @@
 int
 fsm_complement(struct fsm *fsm)
 {
+	fsm_state_t start;
 	size_t i;
 
 	assert(fsm != NULL);
 
+	if (!fsm_all(fsm, fsm_isdfa)) {
+		if (!fsm_determinise(fsm)) {
+			return 0;
+		}
+	}
+
+	/*
+	 * There's no start state when the language is empty.
+	 * The complement has one.
+	 */
+	if (!fsm_getstart(fsm, &start)) {
+		if (!fsm_addstate(fsm, &start)) {
+			return 0;
+		}
+
+		fsm_setstart(fsm, start);
+	}
+
 	if (!fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
 			return 0;
-- 
2.43.0


From 9bd77a0ddff51229b82427259221235e3ea4ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 076/111] fix: sets: release memory to the allocator it came
 from

---
 src/adt/set.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/set.inc b/src/adt/set.inc
index 783019b..2cf6742 100644
--- a/src/adt/set.inc
+++ b/src/adt/set.inc
@@ -170,7 +170,7 @@ set_free(struct set *set)
 	assert(set != NULL);
 	assert(set->a != NULL);
 
-	free(set->a);
-	free(set);
+	f_free(set->alloc, set->a);
+	f_free(set->alloc, set);
 }
 
-- 
2.43.0


From 98bb66aefeafe92aee3bf00576713d3a00e58192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:15 +0000
Subject: [PATCH 077/111] fix: fsm_print: C fragments for an automaton without
 states

---
 src/libfsm/print/c.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/libfsm/print/c.c b/src/libfsm/print/c.c
index b10cd9a..cd50b8f 100644
--- a/src/libfsm/print/c.c
+++ b/src/libfsm/print/c.c
@@ -497,6 +497,15 @@ fsm_print_c_body(FILE *f, const struct ir *ir,
 		}
 	}
 
+	if (ir->n == 0) {
+		fprintf(f, "\treturn 0;");
+		if (opt->comments) {
+			fprintf(f, " /* no matches */");
+		}
+		fprintf(f, "\n");
+		return 0;
+	}
+
 	/* enum of states */
 	print_stateenum(f, ir->n);
 	fprintf(f, "\n");
@@ -642,16 +651,8 @@ fsm_print_c(FILE *f,
 			break;
 		}
 
-		if (ir->n == 0) {
-			fprintf(f, "\treturn 0;");
-			if (opt->comments) {
-				fprintf(f, " /* no matches */");
-			}
-			fprintf(f, "\n");
-		} else {
-			if (-1 == fsm_print_c_body(f, ir, opt, hooks)) {
-				return -1;
-			}
+		if (-1 == fsm_print_c_body(f, ir, opt, hooks)) {
+			return -1;
 		}
 
 		fprintf(f, "}\n");
-- 
2.43.0


From d7b04eb4cba0bc593b8225973242712610ee9f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:48 +0000
Subject: [PATCH 078/111] fix: lx: lx_example() gave the empty string for every
 token, whether or not the zone has it

---
 src/lx/print/c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 3340f0d..9f74d1d 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -1066,7 +1066,7 @@ print_example(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 		fprintf(f, "\t\tswitch (t) {\n");
 
 		for (t = ast->tl; t != NULL; t = t->next) {
-			fsm_state_t s;
+			fsm_state_t s, start;
 			char buf[50]; /* 50 looks reasonable for an on-screen limit */
 			int n;
 
@@ -1074,7 +1074,8 @@ print_example(FILE *f, const struct ast *ast, const struct fsm_options *opt)
 				return -1;
 			}
 
-			if (!fsm_getstart(z->fsm, &s)) {
+			/* the start state means this token isn't present in this zone */
+			if (!fsm_getstart(z->fsm, &start) || s == start) {
 				continue;
 			}
 
-- 
2.43.0


From 43fa39d8b2a05982baf1494d46fc5745b41f02d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:48 +0000
Subject: [PATCH 079/111] fix: lx: lx_dgetc() returned bytes above 0x7f as
 negative numbers, and 0xff as EOF

---
 src/lx/print/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 9f74d1d..aa66704 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -495,7 +495,7 @@ print_lgetc(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\t\td->len = r;\n");
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
-		fprintf(f, "\treturn d->len--, *d->p++;\n");
+		fprintf(f, "\treturn d->len--, (unsigned char) *d->p++;\n");
 		fprintf(f, "}\n");
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From 8c1109737351f4a7b81f6b53867508ad123b0edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 080/111] fix: lx: input which ends inside a token: read past
 the end (-k pair), and the position was one short

---
 src/lx/print/c.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index aa66704..d665dc4 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -311,7 +311,24 @@ reject_c(FILE *f, const struct fsm_options *opt,
 	} else {
 		fprintf(f, "\n\t\t\t\tif (!has_consumed_input) { return %sEOF; }\n", prefix.tok);
 		fprintf(f, "\t\t\t\t");
+
+		/* there's nothing to unget at the end of the input */
+		switch (opt->io) {
+		case FSM_IO_GETC:
+			fprintf(f, "if (%s != EOF) { ", env->cur_char_var);
+			break;
+
+		case FSM_IO_STR:
+			fprintf(f, "if (%s != '\\0') { ", env->cur_char_var);
+			break;
+
+		case FSM_IO_PAIR:
+			fprintf(f, "if (p != e) { ");
+			break;
+		}
+
 		unget_character(f, false, env->cur_char_var);
+		fprintf(f, "} ");
 	}
 
 	/* XXX: don't need this if complete */
-- 
2.43.0


From 6f0f3897d2aeaf3a4e6b2d9b618c1bda1a8c6f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 081/111] fix: lx: TOK_UNKNOWN for skipped text at the end of
 the input, when the mapping for it came last

---
 src/lx/print/c.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index d665dc4..f875309 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -167,7 +167,8 @@ endid_represents_dead_end(fsm_end_id_t endid, const struct ast *ast)
 		return false;
 	}
 
-	/* For each zone, check if this endid is associated with its z->ml zone.
+	/* For each zone, check if this endid is for the only mapping in that zone
+	 * which stays there, where the others lead out of the zone again.
 	 * If so, that endid is the "dead end" for that zone.
 	 *
 	 * The total number of zones and end ids (each corresponding to mapping)
@@ -175,7 +176,19 @@ endid_represents_dead_end(fsm_end_id_t endid, const struct ast *ast)
 	 * prohibitively expensive, then build a bitset of dead-end IDs upfront
 	 * in one pass. */
 	for (struct ast_zone *z = ast->zl; z != NULL; z = z->next) {
-		if (z->ml == m) { return true; }
+		bool found = false, stays = false, leaves = false;
+
+		for (const struct ast_mapping *p = z->ml; p != NULL; p = p->next) {
+			if (p == m) {
+				found = true;
+			} else if (p->to == NULL) {
+				stays = true;
+			} else if (p->to == z->parent) {
+				leaves = true;
+			}
+		}
+
+		if (found && leaves && !stays) { return true; }
 	}
 
 	return false;
-- 
2.43.0


From 5327a8c6bad3603daf9e2da0edf3d1ed03baea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 082/111] fix: lx: no token text with -k str or -k pair when
 positions are excluded, and the buffer popped regardless

---
 src/lx/print/c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index f875309..03cedcb 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -375,7 +375,7 @@ advance_c(FILE *f, const struct fsm_options *opt, const char *cur_char_var, void
 	case FSM_IO_PAIR:
 		/* When libfsm's generated code advances a character, update
 		 * lx's token name buffer and position bookkeeping. */
-		if (~api_exclude & API_POS) {
+		if ((~api_exclude & API_POS) || (~api_exclude & API_BUF)) {
 			fprintf(f, "\t\tif (!%sadvance_end(lx, %s)) { return %sERROR; }\n",
 			    prefix.api, cur_char_var, prefix.tok);
 		}
@@ -538,7 +538,7 @@ print_io(FILE *f, const struct fsm_options *opt)
 		fprintf(stderr, " io");
 	}
 
-	if (opt->io == FSM_IO_GETC || (~api_exclude & API_POS)) {
+	if (opt->io == FSM_IO_GETC || (~api_exclude & API_POS) || (~api_exclude & API_BUF)) {
 		fprintf(f, "static int\n");
 		fprintf(f, "%sadvance_end(struct %slx *lx, int c)\n", prefix.api, prefix.lx);
 		fprintf(f, "{\n");
-- 
2.43.0


From 8ba32ca8bc2dc74943404f4cce0ab32d2752360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 083/111] fix: lx: assertion for a mapping nothing can match,
 as for what an exit pattern leaves nothing of

---
 src/lx/main.c     | 7 ++++++-
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 4 ++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index 92098bf..71c89cc 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -410,7 +410,12 @@ zone_minimise(void *arg)
 				assert(!"failed");
 			}
 
-			(void) fsm_getstart(m->fsm, &ms);
+			/* there's no start state if nothing can match this mapping */
+			if (!fsm_getstart(m->fsm, &ms)) {
+				fsm_free(m->fsm);
+				m->fsm = NULL;
+				continue;
+			}
 
 			z->fsm = fsm_merge(z->fsm, m->fsm, &combine_info);
 			if (z->fsm == NULL) {
diff --git a/src/lx/parser.act b/src/lx/parser.act
index 0db0c3b..bdccb0e 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -338,7 +338,7 @@
 				@!;
 			}
 
-			(void) fsm_getstart(fsm, &ms);
+			if (!fsm_getstart(fsm, &ms)) { fsm_free(fsm); continue; } /* nothing can match */
 
 			@r = fsm_merge(@r, fsm, &combine_info);
 			if (@r == NULL) {
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 4ab69ce..219a2ec 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -301,7 +301,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 				goto ZL1;
 			}
 
-			(void) fsm_getstart(fsm, &ms);
+			if (!fsm_getstart(fsm, &ms)) { fsm_free(fsm); continue; } /* nothing can match */
 
 			(ZIr) = fsm_merge((ZIr), fsm, &combine_info);
 			if ((ZIr) == NULL) {
@@ -734,7 +734,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 				goto ZL1;
 			}
 
-			(void) fsm_getstart(fsm, &ms);
+			if (!fsm_getstart(fsm, &ms)) { fsm_free(fsm); continue; } /* nothing can match */
 
 			(ZI254) = fsm_merge((ZI254), fsm, &combine_info);
 			if ((ZI254) == NULL) {
-- 
2.43.0


From 62bfd06636d316033663b3a14b199041c2ee99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 084/111] fix: lx: assertion for an undefined variable inside a
 zone

---
 src/lx/parser.act | 2 +-
 src/lx/parser.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index bdccb0e..f732725 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -286,7 +286,7 @@
 				break;
 			}
 
-			if (@z->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", @s);
 				@!;
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 219a2ec..e4446ad 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -227,7 +227,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 				break;
 			}
 
-			if ((ZIz)->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", (ZIn));
 				goto ZL1;
@@ -3224,7 +3224,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				break;
 			}
 
-			if ((*ZIz)->parent == NULL) {
+			if (z->parent == NULL) {
 				/* TODO: use *err */
 				err(lex_state, "No such variable: %s", (*ZIn));
 				goto ZL1;
-- 
2.43.0


From 250944ac85fb8b7f12f9e7f72184ecba4501aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 085/111] fix: lx: an unrecognised character in a specification
 was read as whatever token was on the stack

---
 src/lx/parser.act | 5 +++++
 src/lx/parser.c   | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index f732725..2b1aa78 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -851,6 +851,11 @@
 
 		act_state->alloc = alloc;
 
+		/* the lexer's own TOK_UNKNOWN is ERROR_TERMINAL, with nothing saved for it */
+		act_state->lex_tok_save = TOK_UNKNOWN;
+
+		ast = NULL;
+
 		if (print_progress) {
 			act_state->zn = 0;
 		}
diff --git a/src/lx/parser.c b/src/lx/parser.c
index e4446ad..838f4c3 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -3334,6 +3334,11 @@ ZL1:;
 
 		act_state->alloc = alloc;
 
+		/* the lexer's own TOK_UNKNOWN is ERROR_TERMINAL, with nothing saved for it */
+		act_state->lex_tok_save = TOK_UNKNOWN;
+
+		ast = NULL;
+
 		if (print_progress) {
 			act_state->zn = 0;
 		}
@@ -3360,6 +3365,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3364 "src/lx/parser.c"
+#line 3369 "src/lx/parser.c"
 
 /* END OF FILE */
-- 
2.43.0


From fb7c3cd629bd921329eb84e39249759195561b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 086/111] fix: lx: buffer overflow for patterns over 512
 characters

---
 src/lx/parser.act |   6 +-
 src/lx/parser.c   | 256 +++++++++++++++++++++++-----------------------
 2 files changed, 135 insertions(+), 127 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 2b1aa78..5484a3e 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -245,7 +245,11 @@
 %actions%
 
 	<pattern-char>: (c :char) -> () = @{
-		/* TODO */
+		if (lex_state->p == lex_state->a + sizeof lex_state->a) {
+			err(lex_state, "Pattern too long: expected at most %zu characters", sizeof lex_state->a);
+			exit(EXIT_FAILURE);
+		}
+
 		*lex_state->p++ = @c;
 	@};
 
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 838f4c3..9a847c1 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -182,7 +182,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-list */
 		{
-#line 814 "src/lx/parser.act"
+#line 818 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
@@ -214,7 +214,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 277 "src/lx/parser.act"
+#line 281 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -263,7 +263,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 304 "src/lx/parser.act"
+#line 308 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -374,7 +374,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 676 "src/lx/parser.act"
+#line 680 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -398,7 +398,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI231) != NULL);
 
@@ -449,7 +449,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 667 "src/lx/parser.act"
+#line 671 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -473,7 +473,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI239) != NULL);
 
@@ -563,7 +563,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI248) != NULL);
 
@@ -614,7 +614,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 658 "src/lx/parser.act"
+#line 662 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -638,7 +638,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI223) != NULL);
 
@@ -696,7 +696,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 304 "src/lx/parser.act"
+#line 308 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -769,7 +769,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI259) != NULL);
 
@@ -829,7 +829,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI268) != NULL);
 
@@ -869,7 +869,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-thing */
 		{
-#line 810 "src/lx/parser.act"
+#line 814 "src/lx/parser.act"
 
 		err_expected(lex_state, "mapping, binding or zone");
 	
@@ -899,7 +899,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-open */
 		{
-#line 798 "src/lx/parser.act"
+#line 802 "src/lx/parser.act"
 
 		err_expected(lex_state, "'{'");
 	
@@ -929,7 +929,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-close */
 		{
-#line 802 "src/lx/parser.act"
+#line 806 "src/lx/parser.act"
 
 		err_expected(lex_state, "'}'");
 	
@@ -1079,10 +1079,14 @@ ZL2_pattern_C_Cbody:;
 			{
 #line 247 "src/lx/parser.act"
 
-		/* TODO */
+		if (lex_state->p == lex_state->a + sizeof lex_state->a) {
+			err(lex_state, "Pattern too long: expected at most %zu characters", sizeof lex_state->a);
+			exit(EXIT_FAILURE);
+		}
+
 		*lex_state->p++ = (ZIc);
 	
-#line 1086 "src/lx/parser.c"
+#line 1090 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-char */
 			/* BEGINNING OF INLINE: pattern::body */
@@ -1211,7 +1215,7 @@ ZL2_180:;
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 724 "src/lx/parser.act"
+#line 728 "src/lx/parser.act"
 
 		assert((ZI177) != NULL);
 		assert((ZIb) != NULL);
@@ -1222,7 +1226,7 @@ ZL2_180:;
 			goto ZL1;
 		}
 	
-#line 1226 "src/lx/parser.c"
+#line 1230 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: 180 */
@@ -1291,7 +1295,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 676 "src/lx/parser.act"
+#line 680 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1300,7 +1304,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1304 "src/lx/parser.c"
+#line 1308 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-reverse */
 		}
@@ -1315,7 +1319,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 667 "src/lx/parser.act"
+#line 671 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1324,7 +1328,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1328 "src/lx/parser.c"
+#line 1332 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 		}
@@ -1339,7 +1343,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 658 "src/lx/parser.act"
+#line 662 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1348,7 +1352,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1352 "src/lx/parser.c"
+#line 1356 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 		}
@@ -1398,7 +1402,7 @@ ZL2_186:;
 			}
 			/* BEGINNING OF ACTION: op-intersect */
 			{
-#line 713 "src/lx/parser.act"
+#line 717 "src/lx/parser.act"
 
 		assert((ZI183) != NULL);
 		assert((ZIb) != NULL);
@@ -1409,7 +1413,7 @@ ZL2_186:;
 			goto ZL1;
 		}
 	
-#line 1413 "src/lx/parser.c"
+#line 1417 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-intersect */
 			/* BEGINNING OF INLINE: 186 */
@@ -1455,7 +1459,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 724 "src/lx/parser.act"
+#line 728 "src/lx/parser.act"
 
 		assert((ZIold_Hexit) != NULL);
 		assert((ZInew_Hexit) != NULL);
@@ -1466,7 +1470,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			goto ZL1;
 		}
 	
-#line 1470 "src/lx/parser.c"
+#line 1474 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-to-mappings::list-of-zone-to-mappings-x */
@@ -1554,7 +1558,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-cross */
 						{
-#line 568 "src/lx/parser.act"
+#line 572 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1599,7 +1603,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1603 "src/lx/parser.c"
+#line 1607 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-cross */
 						/* BEGINNING OF INLINE: 197 */
@@ -1613,7 +1617,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-qmark */
 						{
-#line 613 "src/lx/parser.act"
+#line 617 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1658,7 +1662,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1662 "src/lx/parser.c"
+#line 1666 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-qmark */
 						/* BEGINNING OF INLINE: 197 */
@@ -1672,7 +1676,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-star */
 						{
-#line 518 "src/lx/parser.act"
+#line 522 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1722,7 +1726,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1726 "src/lx/parser.c"
+#line 1730 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-star */
 						/* BEGINNING OF INLINE: 197 */
@@ -1795,7 +1799,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-subtract */
 			{
-#line 702 "src/lx/parser.act"
+#line 706 "src/lx/parser.act"
 
 		assert((*ZI202) != NULL);
 		assert((ZIb) != NULL);
@@ -1806,7 +1810,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1810 "src/lx/parser.c"
+#line 1814 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-subtract */
 		}
@@ -1870,7 +1874,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-concat */
 			{
-#line 685 "src/lx/parser.act"
+#line 689 "src/lx/parser.act"
 
 		assert((*ZI206) != NULL);
 		assert((ZIb) != NULL);
@@ -1881,7 +1885,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1885 "src/lx/parser.c"
+#line 1889 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-concat */
 		}
@@ -1920,13 +1924,13 @@ p_212(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI210, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-product */
 			{
-#line 696 "src/lx/parser.act"
+#line 700 "src/lx/parser.act"
 
 		fprintf(stderr, "unimplemented\n");
 		(ZIq) = NULL;
 		goto ZL1;
 	
-#line 1930 "src/lx/parser.c"
+#line 1934 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-product */
 		}
@@ -1974,13 +1978,13 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		ZIf |= RE_ANCHORED; /* regexps in lx are implicitly anchored */
 		ZIf |= RE_SINGLE;   /* we can't assume we're lexing text */
 	
-#line 1978 "src/lx/parser.c"
+#line 1982 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: RE */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: pattern-buffer */
 			{
-#line 252 "src/lx/parser.act"
+#line 256 "src/lx/parser.act"
 
 		size_t len;
 
@@ -2005,12 +2009,12 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2009 "src/lx/parser.c"
+#line 2013 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-regex */
 			{
-#line 376 "src/lx/parser.act"
+#line 380 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2025,16 +2029,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2029 "src/lx/parser.c"
+#line 2033 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-regex */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 765 "src/lx/parser.act"
+#line 769 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2038 "src/lx/parser.c"
+#line 2042 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2046,7 +2050,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: pattern-buffer */
 			{
-#line 252 "src/lx/parser.act"
+#line 256 "src/lx/parser.act"
 
 		size_t len;
 
@@ -2071,12 +2075,12 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2075 "src/lx/parser.c"
+#line 2079 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-literal */
 			{
-#line 361 "src/lx/parser.act"
+#line 365 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2091,16 +2095,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2095 "src/lx/parser.c"
+#line 2099 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-literal */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 765 "src/lx/parser.act"
+#line 769 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2104 "src/lx/parser.c"
+#line 2108 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2164,7 +2168,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2184,12 +2188,12 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 		}
 	
-#line 2188 "src/lx/parser.c"
+#line 2192 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2222,7 +2226,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			nmappings++;
 		}
 	
-#line 2226 "src/lx/parser.c"
+#line 2230 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-from-mappings::list-of-zone-from-mappings-x */
@@ -2256,16 +2260,16 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		/* BEGINNING OF ACTION: no-zone */
 		{
-#line 514 "src/lx/parser.act"
+#line 518 "src/lx/parser.act"
 
 		(ZIparent) = NULL;
 	
-#line 2264 "src/lx/parser.c"
+#line 2268 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-zone */
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 423 "src/lx/parser.act"
+#line 427 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2273,12 +2277,12 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2277 "src/lx/parser.c"
+#line 2281 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: make-zone */
 		{
-#line 431 "src/lx/parser.act"
+#line 435 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 
@@ -2296,28 +2300,28 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2300 "src/lx/parser.c"
+#line 2304 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-zone */
 		/* BEGINNING OF ACTION: no-exit */
 		{
-#line 510 "src/lx/parser.act"
+#line 514 "src/lx/parser.act"
 
 		(ZIexit) = NULL;
 	
-#line 2309 "src/lx/parser.c"
+#line 2313 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-exit */
 		/* BEGINNING OF ACTION: set-globalzone */
 		{
-#line 499 "src/lx/parser.act"
+#line 503 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 		assert((ZIz) != NULL);
 
 		(ZIa)->global = (ZIz);
 	
-#line 2321 "src/lx/parser.c"
+#line 2325 "src/lx/parser.c"
 		}
 		/* END OF ACTION: set-globalzone */
 		p_list_Hof_Hthings (lex_state, act_state, ZIa, ZIz, ZIexit);
@@ -2341,11 +2345,11 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 806 "src/lx/parser.act"
+#line 810 "src/lx/parser.act"
 
 		err_expected(lex_state, "EOF");
 	
-#line 2349 "src/lx/parser.c"
+#line 2353 "src/lx/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2358,7 +2362,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 423 "src/lx/parser.act"
+#line 427 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2366,17 +2370,17 @@ ZL1:;
 			goto ZL4;
 		}
 	
-#line 2370 "src/lx/parser.c"
+#line 2374 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: err-syntax */
 		{
-#line 773 "src/lx/parser.act"
+#line 777 "src/lx/parser.act"
 
 		err(lex_state, "Syntax error");
 		exit(EXIT_FAILURE);
 	
-#line 2380 "src/lx/parser.c"
+#line 2384 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-syntax */
 	}
@@ -2433,7 +2437,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 		}
 		/* BEGINNING OF ACTION: add-mapping */
 		{
-#line 449 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2466,12 +2470,12 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2470 "src/lx/parser.c"
+#line 2474 "src/lx/parser.c"
 		}
 		/* END OF ACTION: add-mapping */
 		/* BEGINNING OF ACTION: clone */
 		{
-#line 755 "src/lx/parser.act"
+#line 759 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2481,7 +2485,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			goto ZL1;
 		}
 	
-#line 2485 "src/lx/parser.c"
+#line 2489 "src/lx/parser.c"
 		}
 		/* END OF ACTION: clone */
 	}
@@ -2517,11 +2521,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 				{
 					/* BEGINNING OF ACTION: err-expected-map */
 					{
-#line 782 "src/lx/parser.act"
+#line 786 "src/lx/parser.act"
 
 		err_expected(lex_state, "'->'");
 	
-#line 2525 "src/lx/parser.c"
+#line 2529 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-map */
 				}
@@ -2537,7 +2541,7 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 2541 "src/lx/parser.c"
+#line 2545 "src/lx/parser.c"
 				}
 				/* END OF EXTRACT: TOKEN */
 				break;
@@ -2551,11 +2555,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		{
 			/* BEGINNING OF ACTION: no-token */
 			{
-#line 506 "src/lx/parser.act"
+#line 510 "src/lx/parser.act"
 
 		(ZIt) = NULL;
 	
-#line 2559 "src/lx/parser.c"
+#line 2563 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-token */
 		}
@@ -2644,11 +2648,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-semi */
 		{
-#line 790 "src/lx/parser.act"
+#line 794 "src/lx/parser.act"
 
 		err_expected(lex_state, "';'");
 	
-#line 2652 "src/lx/parser.c"
+#line 2656 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-semi */
 	}
@@ -2695,16 +2699,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: no-zone */
 			{
-#line 514 "src/lx/parser.act"
+#line 518 "src/lx/parser.act"
 
 		(ZIto) = NULL;
 	
-#line 2703 "src/lx/parser.c"
+#line 2707 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2737,7 +2741,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2741 "src/lx/parser.c"
+#line 2745 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 		}
@@ -2749,7 +2753,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 431 "src/lx/parser.act"
+#line 435 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -2767,12 +2771,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 2771 "src/lx/parser.c"
+#line 2775 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2805,7 +2809,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2809 "src/lx/parser.c"
+#line 2813 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			p_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Hof_Hzone_Hfrom_Hmappings_Hx (lex_state, act_state, *ZIa, *ZIz, ZIchild, *ZIexit);
@@ -2829,11 +2833,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-to */
 					{
-#line 794 "src/lx/parser.act"
+#line 798 "src/lx/parser.act"
 
 		err_expected(lex_state, "'..'");
 	
-#line 2837 "src/lx/parser.c"
+#line 2841 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-to */
 				}
@@ -2858,25 +2862,25 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 						}
 						/* BEGINNING OF ACTION: no-zone */
 						{
-#line 514 "src/lx/parser.act"
+#line 518 "src/lx/parser.act"
 
 		(ZIx) = NULL;
 	
-#line 2866 "src/lx/parser.c"
+#line 2870 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-zone */
 						/* BEGINNING OF ACTION: no-token */
 						{
-#line 506 "src/lx/parser.act"
+#line 510 "src/lx/parser.act"
 
 		(ZIy) = NULL;
 	
-#line 2875 "src/lx/parser.c"
+#line 2879 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-token */
 						/* BEGINNING OF ACTION: regex-any */
 						{
-#line 392 "src/lx/parser.act"
+#line 396 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 
@@ -2907,12 +2911,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		fsm_setstart((ZIw), start);
 		fsm_setend((ZIw), end, 1);
 	
-#line 2911 "src/lx/parser.c"
+#line 2915 "src/lx/parser.c"
 						}
 						/* END OF ACTION: regex-any */
 						/* BEGINNING OF ACTION: subtract-exit */
 						{
-#line 735 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZIw) != NULL);
 
@@ -2932,12 +2936,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 2936 "src/lx/parser.c"
+#line 2940 "src/lx/parser.c"
 						}
 						/* END OF ACTION: subtract-exit */
 						/* BEGINNING OF ACTION: add-mapping */
 						{
-#line 449 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2970,7 +2974,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2974 "src/lx/parser.c"
+#line 2978 "src/lx/parser.c"
 						}
 						/* END OF ACTION: add-mapping */
 					}
@@ -2997,11 +3001,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 814 "src/lx/parser.act"
+#line 818 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3005 "src/lx/parser.c"
+#line 3009 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3017,16 +3021,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: no-exit */
 			{
-#line 510 "src/lx/parser.act"
+#line 514 "src/lx/parser.act"
 
 		(ZIr2) = NULL;
 	
-#line 3025 "src/lx/parser.c"
+#line 3029 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-exit */
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 431 "src/lx/parser.act"
+#line 435 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -3044,12 +3048,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3048 "src/lx/parser.c"
+#line 3052 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 449 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -3082,7 +3086,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 3086 "src/lx/parser.c"
+#line 3090 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: 131 */
@@ -3101,11 +3105,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 814 "src/lx/parser.act"
+#line 818 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3109 "src/lx/parser.c"
+#line 3113 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3149,11 +3153,11 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-bind */
 					{
-#line 786 "src/lx/parser.act"
+#line 790 "src/lx/parser.act"
 
 		err_expected(lex_state, "'='");
 	
-#line 3157 "src/lx/parser.c"
+#line 3161 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-bind */
 				}
@@ -3168,7 +3172,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: add-binding */
 			{
-#line 482 "src/lx/parser.act"
+#line 486 "src/lx/parser.act"
 
 		struct var *v;
 
@@ -3185,7 +3189,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3189 "src/lx/parser.c"
+#line 3193 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-binding */
 		}
@@ -3211,7 +3215,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 277 "src/lx/parser.act"
+#line 281 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -3238,7 +3242,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3242 "src/lx/parser.c"
+#line 3246 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-var */
 			p_197 (lex_state, act_state, ZI273, &ZI210);
@@ -3254,7 +3258,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 735 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI278) != NULL);
 
@@ -3274,7 +3278,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 3278 "src/lx/parser.c"
+#line 3282 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, ZIa, ZIz, ZIexit, &ZI279, &ZI280);
@@ -3297,7 +3301,7 @@ ZL1:;
 
 /* BEGINNING OF TRAILER */
 
-#line 818 "src/lx/parser.act"
+#line 822 "src/lx/parser.act"
 
 
 	struct ast *lx_parse(FILE *f, const struct fsm_alloc *alloc) {
@@ -3365,6 +3369,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3369 "src/lx/parser.c"
+#line 3373 "src/lx/parser.c"
 
 /* END OF FILE */
-- 
2.43.0


From a12408aea29760d64c9dbe32410ab83b5bc8a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 087/111] fix: lx: assertion for a NUL inside a pattern

---
 src/lx/parser.act |   3 +-
 src/lx/parser.c   | 275 +++++++++++++++++++++++-----------------------
 2 files changed, 138 insertions(+), 140 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 5484a3e..9c3484a 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -213,8 +213,7 @@
 	@};
 
 	CHAR: () -> (c :char) = @{
-		assert(lex_state->buf.a[0] != '\0');
-		assert(lex_state->buf.a[1] == '\0');
+		assert(lex_state->buf.a[0] == '\0' || lex_state->buf.a[1] == '\0');
 
 		@c = lex_state->buf.a[0];
 	@};
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 9a847c1..5c868a6 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -182,7 +182,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-list */
 		{
-#line 818 "src/lx/parser.act"
+#line 817 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
@@ -204,7 +204,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 
 			/* BEGINNING OF EXTRACT: IDENT */
 			{
-#line 227 "src/lx/parser.act"
+#line 226 "src/lx/parser.act"
 
 		ZIn = xstrdup(lex_state->buf.a);
 	
@@ -214,7 +214,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 281 "src/lx/parser.act"
+#line 280 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -252,7 +252,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 
 			/* BEGINNING OF EXTRACT: TOKEN */
 			{
-#line 222 "src/lx/parser.act"
+#line 221 "src/lx/parser.act"
 
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
@@ -263,7 +263,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 308 "src/lx/parser.act"
+#line 307 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -374,7 +374,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 680 "src/lx/parser.act"
+#line 679 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -398,7 +398,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 739 "src/lx/parser.act"
+#line 738 "src/lx/parser.act"
 
 		assert((ZI231) != NULL);
 
@@ -449,7 +449,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 671 "src/lx/parser.act"
+#line 670 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -473,7 +473,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 739 "src/lx/parser.act"
+#line 738 "src/lx/parser.act"
 
 		assert((ZI239) != NULL);
 
@@ -509,7 +509,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 			/* BEGINNING OF EXTRACT: IDENT */
 			{
-#line 227 "src/lx/parser.act"
+#line 226 "src/lx/parser.act"
 
 		ZIn = xstrdup(lex_state->buf.a);
 	
@@ -563,7 +563,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 739 "src/lx/parser.act"
+#line 738 "src/lx/parser.act"
 
 		assert((ZI248) != NULL);
 
@@ -614,7 +614,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 662 "src/lx/parser.act"
+#line 661 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -638,7 +638,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 739 "src/lx/parser.act"
+#line 738 "src/lx/parser.act"
 
 		assert((ZI223) != NULL);
 
@@ -685,7 +685,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 			/* BEGINNING OF EXTRACT: TOKEN */
 			{
-#line 222 "src/lx/parser.act"
+#line 221 "src/lx/parser.act"
 
 		/* TODO: submatch addressing */
 		ZI253 = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
@@ -696,7 +696,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 308 "src/lx/parser.act"
+#line 307 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -769,7 +769,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 739 "src/lx/parser.act"
+#line 738 "src/lx/parser.act"
 
 		assert((ZI259) != NULL);
 
@@ -829,7 +829,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 739 "src/lx/parser.act"
+#line 738 "src/lx/parser.act"
 
 		assert((ZI268) != NULL);
 
@@ -869,7 +869,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-thing */
 		{
-#line 814 "src/lx/parser.act"
+#line 813 "src/lx/parser.act"
 
 		err_expected(lex_state, "mapping, binding or zone");
 	
@@ -899,7 +899,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-open */
 		{
-#line 802 "src/lx/parser.act"
+#line 801 "src/lx/parser.act"
 
 		err_expected(lex_state, "'{'");
 	
@@ -929,7 +929,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-close */
 		{
-#line 806 "src/lx/parser.act"
+#line 805 "src/lx/parser.act"
 
 		err_expected(lex_state, "'}'");
 	
@@ -957,12 +957,11 @@ ZL2_pattern_C_Cbody:;
 						{
 #line 215 "src/lx/parser.act"
 
-		assert(lex_state->buf.a[0] != '\0');
-		assert(lex_state->buf.a[1] == '\0');
+		assert(lex_state->buf.a[0] == '\0' || lex_state->buf.a[1] == '\0');
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 966 "src/lx/parser.c"
+#line 965 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: CHAR */
 						ADVANCE_LEXER;
@@ -990,7 +989,7 @@ ZL2_pattern_C_Cbody:;
 		default:   ZIc = '\0'; break; /* TODO: handle error */
 		}
 	
-#line 994 "src/lx/parser.c"
+#line 993 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: ESC */
 						ADVANCE_LEXER;
@@ -1027,7 +1026,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1031 "src/lx/parser.c"
+#line 1030 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: HEX */
 						ADVANCE_LEXER;
@@ -1064,7 +1063,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1068 "src/lx/parser.c"
+#line 1067 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: OCT */
 						ADVANCE_LEXER;
@@ -1077,7 +1076,7 @@ ZL2_pattern_C_Cbody:;
 			/* END OF INLINE: 84 */
 			/* BEGINNING OF ACTION: pattern-char */
 			{
-#line 247 "src/lx/parser.act"
+#line 246 "src/lx/parser.act"
 
 		if (lex_state->p == lex_state->a + sizeof lex_state->a) {
 			err(lex_state, "Pattern too long: expected at most %zu characters", sizeof lex_state->a);
@@ -1086,7 +1085,7 @@ ZL2_pattern_C_Cbody:;
 
 		*lex_state->p++ = (ZIc);
 	
-#line 1090 "src/lx/parser.c"
+#line 1089 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-char */
 			/* BEGINNING OF INLINE: pattern::body */
@@ -1215,7 +1214,7 @@ ZL2_180:;
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 728 "src/lx/parser.act"
+#line 727 "src/lx/parser.act"
 
 		assert((ZI177) != NULL);
 		assert((ZIb) != NULL);
@@ -1226,7 +1225,7 @@ ZL2_180:;
 			goto ZL1;
 		}
 	
-#line 1230 "src/lx/parser.c"
+#line 1229 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: 180 */
@@ -1295,7 +1294,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 680 "src/lx/parser.act"
+#line 679 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1304,7 +1303,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1308 "src/lx/parser.c"
+#line 1307 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-reverse */
 		}
@@ -1319,7 +1318,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 671 "src/lx/parser.act"
+#line 670 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1328,7 +1327,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1332 "src/lx/parser.c"
+#line 1331 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 		}
@@ -1343,7 +1342,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 662 "src/lx/parser.act"
+#line 661 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1352,7 +1351,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1356 "src/lx/parser.c"
+#line 1355 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 		}
@@ -1402,7 +1401,7 @@ ZL2_186:;
 			}
 			/* BEGINNING OF ACTION: op-intersect */
 			{
-#line 717 "src/lx/parser.act"
+#line 716 "src/lx/parser.act"
 
 		assert((ZI183) != NULL);
 		assert((ZIb) != NULL);
@@ -1413,7 +1412,7 @@ ZL2_186:;
 			goto ZL1;
 		}
 	
-#line 1417 "src/lx/parser.c"
+#line 1416 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-intersect */
 			/* BEGINNING OF INLINE: 186 */
@@ -1459,7 +1458,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 728 "src/lx/parser.act"
+#line 727 "src/lx/parser.act"
 
 		assert((ZIold_Hexit) != NULL);
 		assert((ZInew_Hexit) != NULL);
@@ -1470,7 +1469,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			goto ZL1;
 		}
 	
-#line 1474 "src/lx/parser.c"
+#line 1473 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-to-mappings::list-of-zone-to-mappings-x */
@@ -1558,7 +1557,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-cross */
 						{
-#line 572 "src/lx/parser.act"
+#line 571 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1603,7 +1602,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1607 "src/lx/parser.c"
+#line 1606 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-cross */
 						/* BEGINNING OF INLINE: 197 */
@@ -1617,7 +1616,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-qmark */
 						{
-#line 617 "src/lx/parser.act"
+#line 616 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1662,7 +1661,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1666 "src/lx/parser.c"
+#line 1665 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-qmark */
 						/* BEGINNING OF INLINE: 197 */
@@ -1676,7 +1675,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-star */
 						{
-#line 522 "src/lx/parser.act"
+#line 521 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1726,7 +1725,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1730 "src/lx/parser.c"
+#line 1729 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-star */
 						/* BEGINNING OF INLINE: 197 */
@@ -1799,7 +1798,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-subtract */
 			{
-#line 706 "src/lx/parser.act"
+#line 705 "src/lx/parser.act"
 
 		assert((*ZI202) != NULL);
 		assert((ZIb) != NULL);
@@ -1810,7 +1809,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1814 "src/lx/parser.c"
+#line 1813 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-subtract */
 		}
@@ -1874,7 +1873,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-concat */
 			{
-#line 689 "src/lx/parser.act"
+#line 688 "src/lx/parser.act"
 
 		assert((*ZI206) != NULL);
 		assert((ZIb) != NULL);
@@ -1885,7 +1884,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1889 "src/lx/parser.c"
+#line 1888 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-concat */
 		}
@@ -1924,13 +1923,13 @@ p_212(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI210, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-product */
 			{
-#line 700 "src/lx/parser.act"
+#line 699 "src/lx/parser.act"
 
 		fprintf(stderr, "unimplemented\n");
 		(ZIq) = NULL;
 		goto ZL1;
 	
-#line 1934 "src/lx/parser.c"
+#line 1933 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-product */
 		}
@@ -1964,7 +1963,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 			/* BEGINNING OF EXTRACT: RE */
 			{
-#line 231 "src/lx/parser.act"
+#line 230 "src/lx/parser.act"
 
 		assert(lex_state->buf.a[0] == '/');
 
@@ -1978,13 +1977,13 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		ZIf |= RE_ANCHORED; /* regexps in lx are implicitly anchored */
 		ZIf |= RE_SINGLE;   /* we can't assume we're lexing text */
 	
-#line 1982 "src/lx/parser.c"
+#line 1981 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: RE */
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: pattern-buffer */
 			{
-#line 256 "src/lx/parser.act"
+#line 255 "src/lx/parser.act"
 
 		size_t len;
 
@@ -2009,12 +2008,12 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2013 "src/lx/parser.c"
+#line 2012 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-regex */
 			{
-#line 380 "src/lx/parser.act"
+#line 379 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2029,16 +2028,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2033 "src/lx/parser.c"
+#line 2032 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-regex */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 769 "src/lx/parser.act"
+#line 768 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2042 "src/lx/parser.c"
+#line 2041 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2050,7 +2049,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: pattern-buffer */
 			{
-#line 256 "src/lx/parser.act"
+#line 255 "src/lx/parser.act"
 
 		size_t len;
 
@@ -2075,12 +2074,12 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2079 "src/lx/parser.c"
+#line 2078 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-literal */
 			{
-#line 365 "src/lx/parser.act"
+#line 364 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2095,16 +2094,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2099 "src/lx/parser.c"
+#line 2098 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-literal */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 769 "src/lx/parser.act"
+#line 768 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2108 "src/lx/parser.c"
+#line 2107 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2168,7 +2167,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 739 "src/lx/parser.act"
+#line 738 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2188,12 +2187,12 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 		}
 	
-#line 2192 "src/lx/parser.c"
+#line 2191 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 453 "src/lx/parser.act"
+#line 452 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2226,7 +2225,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			nmappings++;
 		}
 	
-#line 2230 "src/lx/parser.c"
+#line 2229 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-from-mappings::list-of-zone-from-mappings-x */
@@ -2260,16 +2259,16 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		/* BEGINNING OF ACTION: no-zone */
 		{
-#line 518 "src/lx/parser.act"
+#line 517 "src/lx/parser.act"
 
 		(ZIparent) = NULL;
 	
-#line 2268 "src/lx/parser.c"
+#line 2267 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-zone */
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 427 "src/lx/parser.act"
+#line 426 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2277,12 +2276,12 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2281 "src/lx/parser.c"
+#line 2280 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: make-zone */
 		{
-#line 435 "src/lx/parser.act"
+#line 434 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 
@@ -2300,28 +2299,28 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2304 "src/lx/parser.c"
+#line 2303 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-zone */
 		/* BEGINNING OF ACTION: no-exit */
 		{
-#line 514 "src/lx/parser.act"
+#line 513 "src/lx/parser.act"
 
 		(ZIexit) = NULL;
 	
-#line 2313 "src/lx/parser.c"
+#line 2312 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-exit */
 		/* BEGINNING OF ACTION: set-globalzone */
 		{
-#line 503 "src/lx/parser.act"
+#line 502 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 		assert((ZIz) != NULL);
 
 		(ZIa)->global = (ZIz);
 	
-#line 2325 "src/lx/parser.c"
+#line 2324 "src/lx/parser.c"
 		}
 		/* END OF ACTION: set-globalzone */
 		p_list_Hof_Hthings (lex_state, act_state, ZIa, ZIz, ZIexit);
@@ -2345,11 +2344,11 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 810 "src/lx/parser.act"
+#line 809 "src/lx/parser.act"
 
 		err_expected(lex_state, "EOF");
 	
-#line 2353 "src/lx/parser.c"
+#line 2352 "src/lx/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2362,7 +2361,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 427 "src/lx/parser.act"
+#line 426 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2370,17 +2369,17 @@ ZL1:;
 			goto ZL4;
 		}
 	
-#line 2374 "src/lx/parser.c"
+#line 2373 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: err-syntax */
 		{
-#line 777 "src/lx/parser.act"
+#line 776 "src/lx/parser.act"
 
 		err(lex_state, "Syntax error");
 		exit(EXIT_FAILURE);
 	
-#line 2384 "src/lx/parser.c"
+#line 2383 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-syntax */
 	}
@@ -2437,7 +2436,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 		}
 		/* BEGINNING OF ACTION: add-mapping */
 		{
-#line 453 "src/lx/parser.act"
+#line 452 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2470,12 +2469,12 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2474 "src/lx/parser.c"
+#line 2473 "src/lx/parser.c"
 		}
 		/* END OF ACTION: add-mapping */
 		/* BEGINNING OF ACTION: clone */
 		{
-#line 759 "src/lx/parser.act"
+#line 758 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2485,7 +2484,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			goto ZL1;
 		}
 	
-#line 2489 "src/lx/parser.c"
+#line 2488 "src/lx/parser.c"
 		}
 		/* END OF ACTION: clone */
 	}
@@ -2521,11 +2520,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 				{
 					/* BEGINNING OF ACTION: err-expected-map */
 					{
-#line 786 "src/lx/parser.act"
+#line 785 "src/lx/parser.act"
 
 		err_expected(lex_state, "'->'");
 	
-#line 2529 "src/lx/parser.c"
+#line 2528 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-map */
 				}
@@ -2536,12 +2535,12 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 			case (TOK_TOKEN):
 				/* BEGINNING OF EXTRACT: TOKEN */
 				{
-#line 222 "src/lx/parser.act"
+#line 221 "src/lx/parser.act"
 
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 2545 "src/lx/parser.c"
+#line 2544 "src/lx/parser.c"
 				}
 				/* END OF EXTRACT: TOKEN */
 				break;
@@ -2555,11 +2554,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		{
 			/* BEGINNING OF ACTION: no-token */
 			{
-#line 510 "src/lx/parser.act"
+#line 509 "src/lx/parser.act"
 
 		(ZIt) = NULL;
 	
-#line 2563 "src/lx/parser.c"
+#line 2562 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-token */
 		}
@@ -2648,11 +2647,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-semi */
 		{
-#line 794 "src/lx/parser.act"
+#line 793 "src/lx/parser.act"
 
 		err_expected(lex_state, "';'");
 	
-#line 2656 "src/lx/parser.c"
+#line 2655 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-semi */
 	}
@@ -2699,16 +2698,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: no-zone */
 			{
-#line 518 "src/lx/parser.act"
+#line 517 "src/lx/parser.act"
 
 		(ZIto) = NULL;
 	
-#line 2707 "src/lx/parser.c"
+#line 2706 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 453 "src/lx/parser.act"
+#line 452 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2741,7 +2740,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2745 "src/lx/parser.c"
+#line 2744 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 		}
@@ -2753,7 +2752,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 435 "src/lx/parser.act"
+#line 434 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -2771,12 +2770,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 2775 "src/lx/parser.c"
+#line 2774 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 453 "src/lx/parser.act"
+#line 452 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2809,7 +2808,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2813 "src/lx/parser.c"
+#line 2812 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			p_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Hof_Hzone_Hfrom_Hmappings_Hx (lex_state, act_state, *ZIa, *ZIz, ZIchild, *ZIexit);
@@ -2833,11 +2832,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-to */
 					{
-#line 798 "src/lx/parser.act"
+#line 797 "src/lx/parser.act"
 
 		err_expected(lex_state, "'..'");
 	
-#line 2841 "src/lx/parser.c"
+#line 2840 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-to */
 				}
@@ -2862,25 +2861,25 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 						}
 						/* BEGINNING OF ACTION: no-zone */
 						{
-#line 518 "src/lx/parser.act"
+#line 517 "src/lx/parser.act"
 
 		(ZIx) = NULL;
 	
-#line 2870 "src/lx/parser.c"
+#line 2869 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-zone */
 						/* BEGINNING OF ACTION: no-token */
 						{
-#line 510 "src/lx/parser.act"
+#line 509 "src/lx/parser.act"
 
 		(ZIy) = NULL;
 	
-#line 2879 "src/lx/parser.c"
+#line 2878 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-token */
 						/* BEGINNING OF ACTION: regex-any */
 						{
-#line 396 "src/lx/parser.act"
+#line 395 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 
@@ -2911,12 +2910,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		fsm_setstart((ZIw), start);
 		fsm_setend((ZIw), end, 1);
 	
-#line 2915 "src/lx/parser.c"
+#line 2914 "src/lx/parser.c"
 						}
 						/* END OF ACTION: regex-any */
 						/* BEGINNING OF ACTION: subtract-exit */
 						{
-#line 739 "src/lx/parser.act"
+#line 738 "src/lx/parser.act"
 
 		assert((ZIw) != NULL);
 
@@ -2936,12 +2935,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 2940 "src/lx/parser.c"
+#line 2939 "src/lx/parser.c"
 						}
 						/* END OF ACTION: subtract-exit */
 						/* BEGINNING OF ACTION: add-mapping */
 						{
-#line 453 "src/lx/parser.act"
+#line 452 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2974,7 +2973,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2978 "src/lx/parser.c"
+#line 2977 "src/lx/parser.c"
 						}
 						/* END OF ACTION: add-mapping */
 					}
@@ -3001,11 +3000,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 818 "src/lx/parser.act"
+#line 817 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3009 "src/lx/parser.c"
+#line 3008 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3021,16 +3020,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: no-exit */
 			{
-#line 514 "src/lx/parser.act"
+#line 513 "src/lx/parser.act"
 
 		(ZIr2) = NULL;
 	
-#line 3029 "src/lx/parser.c"
+#line 3028 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-exit */
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 435 "src/lx/parser.act"
+#line 434 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -3048,12 +3047,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3052 "src/lx/parser.c"
+#line 3051 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 453 "src/lx/parser.act"
+#line 452 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -3086,7 +3085,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 3090 "src/lx/parser.c"
+#line 3089 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: 131 */
@@ -3105,11 +3104,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 818 "src/lx/parser.act"
+#line 817 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3113 "src/lx/parser.c"
+#line 3112 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3153,11 +3152,11 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-bind */
 					{
-#line 790 "src/lx/parser.act"
+#line 789 "src/lx/parser.act"
 
 		err_expected(lex_state, "'='");
 	
-#line 3161 "src/lx/parser.c"
+#line 3160 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-bind */
 				}
@@ -3172,7 +3171,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: add-binding */
 			{
-#line 486 "src/lx/parser.act"
+#line 485 "src/lx/parser.act"
 
 		struct var *v;
 
@@ -3189,7 +3188,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3193 "src/lx/parser.c"
+#line 3192 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-binding */
 		}
@@ -3215,7 +3214,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 281 "src/lx/parser.act"
+#line 280 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -3242,7 +3241,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3246 "src/lx/parser.c"
+#line 3245 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-var */
 			p_197 (lex_state, act_state, ZI273, &ZI210);
@@ -3258,7 +3257,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 739 "src/lx/parser.act"
+#line 738 "src/lx/parser.act"
 
 		assert((ZI278) != NULL);
 
@@ -3278,7 +3277,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 3282 "src/lx/parser.c"
+#line 3281 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, ZIa, ZIz, ZIexit, &ZI279, &ZI280);
@@ -3301,7 +3300,7 @@ ZL1:;
 
 /* BEGINNING OF TRAILER */
 
-#line 822 "src/lx/parser.act"
+#line 821 "src/lx/parser.act"
 
 
 	struct ast *lx_parse(FILE *f, const struct fsm_alloc *alloc) {
@@ -3369,6 +3368,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3373 "src/lx/parser.c"
+#line 3372 "src/lx/parser.c"
 
 /* END OF FILE */
-- 
2.43.0


From a5f26c7f1b1780267846181d276eaa030f5be617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 088/111] fix: lx: a pattern with a syntax error was printed
 from where reading stopped, and past its end

---
 src/lx/parser.act |   7 +-
 src/lx/parser.c   | 228 +++++++++++++++++++++++-----------------------
 2 files changed, 119 insertions(+), 116 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 9c3484a..8c21220 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -263,7 +263,7 @@
 
 		len = lex_state->p - lex_state->a;
 
-		@a = malloc(sizeof *@a + len);
+		@a = malloc(sizeof *@a + len + 1);
 		if (@a == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -273,6 +273,7 @@
 		@a->p   = (char *) @a + sizeof *@a;
 
 		memcpy(@a->p, lex_state->a, @a->len);
+		@a->p[len] = '\0'; /* for re_perror() */
 
 		lex_state->p = lex_state->a;
 	@};
@@ -371,7 +372,7 @@
 		if (@r == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_LITERAL, &err, NULL, @a->p); /* XXX */
+			re_perror(RE_LITERAL, &err, NULL, (char *) (@a + 1)); /* XXX */
 			exit(EXIT_FAILURE);
 		}
 	@};
@@ -386,7 +387,7 @@
 		if (@r == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_NATIVE, &err, NULL, @a->p);
+			re_perror(RE_NATIVE, &err, NULL, (char *) (@a + 1));
 			exit(EXIT_FAILURE);
 		}
 	@};
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 5c868a6..add6b57 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -182,7 +182,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-list */
 		{
-#line 817 "src/lx/parser.act"
+#line 818 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
@@ -214,7 +214,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 280 "src/lx/parser.act"
+#line 281 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -263,7 +263,7 @@ p_pattern(lex_state lex_state, act_state act_state, zone ZIz, fsm *ZOr)
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 307 "src/lx/parser.act"
+#line 308 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -374,7 +374,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 679 "src/lx/parser.act"
+#line 680 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -398,7 +398,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 738 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI231) != NULL);
 
@@ -449,7 +449,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 670 "src/lx/parser.act"
+#line 671 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -473,7 +473,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 738 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI239) != NULL);
 
@@ -563,7 +563,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 738 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI248) != NULL);
 
@@ -614,7 +614,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 661 "src/lx/parser.act"
+#line 662 "src/lx/parser.act"
 
 		assert((ZI210) != NULL);
 
@@ -638,7 +638,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 738 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI223) != NULL);
 
@@ -696,7 +696,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			ADVANCE_LEXER;
 			/* BEGINNING OF ACTION: deref-token */
 			{
-#line 307 "src/lx/parser.act"
+#line 308 "src/lx/parser.act"
 
 		const struct ast_mapping *m;
 		fsm_state_t start;
@@ -769,7 +769,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 738 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI259) != NULL);
 
@@ -829,7 +829,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 738 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI268) != NULL);
 
@@ -869,7 +869,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-thing */
 		{
-#line 813 "src/lx/parser.act"
+#line 814 "src/lx/parser.act"
 
 		err_expected(lex_state, "mapping, binding or zone");
 	
@@ -899,7 +899,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-open */
 		{
-#line 801 "src/lx/parser.act"
+#line 802 "src/lx/parser.act"
 
 		err_expected(lex_state, "'{'");
 	
@@ -929,7 +929,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-close */
 		{
-#line 805 "src/lx/parser.act"
+#line 806 "src/lx/parser.act"
 
 		err_expected(lex_state, "'}'");
 	
@@ -1214,7 +1214,7 @@ ZL2_180:;
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 727 "src/lx/parser.act"
+#line 728 "src/lx/parser.act"
 
 		assert((ZI177) != NULL);
 		assert((ZIb) != NULL);
@@ -1294,7 +1294,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-reverse */
 			{
-#line 679 "src/lx/parser.act"
+#line 680 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1318,7 +1318,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complete */
 			{
-#line 670 "src/lx/parser.act"
+#line 671 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1342,7 +1342,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			}
 			/* BEGINNING OF ACTION: op-complement */
 			{
-#line 661 "src/lx/parser.act"
+#line 662 "src/lx/parser.act"
 
 		assert((ZIq) != NULL);
 
@@ -1401,7 +1401,7 @@ ZL2_186:;
 			}
 			/* BEGINNING OF ACTION: op-intersect */
 			{
-#line 716 "src/lx/parser.act"
+#line 717 "src/lx/parser.act"
 
 		assert((ZI183) != NULL);
 		assert((ZIb) != NULL);
@@ -1458,7 +1458,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			}
 			/* BEGINNING OF ACTION: op-alt */
 			{
-#line 727 "src/lx/parser.act"
+#line 728 "src/lx/parser.act"
 
 		assert((ZIold_Hexit) != NULL);
 		assert((ZInew_Hexit) != NULL);
@@ -1557,7 +1557,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-cross */
 						{
-#line 571 "src/lx/parser.act"
+#line 572 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1616,7 +1616,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-qmark */
 						{
-#line 616 "src/lx/parser.act"
+#line 617 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1675,7 +1675,7 @@ ZL2_197:;
 						ADVANCE_LEXER;
 						/* BEGINNING OF ACTION: op-star */
 						{
-#line 521 "src/lx/parser.act"
+#line 522 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 		fsm_state_t old;
@@ -1798,7 +1798,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-subtract */
 			{
-#line 705 "src/lx/parser.act"
+#line 706 "src/lx/parser.act"
 
 		assert((*ZI202) != NULL);
 		assert((ZIb) != NULL);
@@ -1873,7 +1873,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-concat */
 			{
-#line 688 "src/lx/parser.act"
+#line 689 "src/lx/parser.act"
 
 		assert((*ZI206) != NULL);
 		assert((ZIb) != NULL);
@@ -1923,7 +1923,7 @@ p_212(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI210, fsm *ZOq)
 			}
 			/* BEGINNING OF ACTION: op-product */
 			{
-#line 699 "src/lx/parser.act"
+#line 700 "src/lx/parser.act"
 
 		fprintf(stderr, "unimplemented\n");
 		(ZIq) = NULL;
@@ -1995,7 +1995,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		len = lex_state->p - lex_state->a;
 
-		(ZIa) = malloc(sizeof *(ZIa) + len);
+		(ZIa) = malloc(sizeof *(ZIa) + len + 1);
 		if ((ZIa) == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -2005,15 +2005,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		(ZIa)->p   = (char *) (ZIa) + sizeof *(ZIa);
 
 		memcpy((ZIa)->p, lex_state->a, (ZIa)->len);
+		(ZIa)->p[len] = '\0'; /* for re_perror() */
 
 		lex_state->p = lex_state->a;
 	
-#line 2012 "src/lx/parser.c"
+#line 2013 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-regex */
 			{
-#line 379 "src/lx/parser.act"
+#line 380 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2024,20 +2025,20 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		if ((ZIr) == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_NATIVE, &err, NULL, (ZIa)->p);
+			re_perror(RE_NATIVE, &err, NULL, (char *) ((ZIa) + 1));
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2032 "src/lx/parser.c"
+#line 2033 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-regex */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 768 "src/lx/parser.act"
+#line 769 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2041 "src/lx/parser.c"
+#line 2042 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2061,7 +2062,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		len = lex_state->p - lex_state->a;
 
-		(ZIa) = malloc(sizeof *(ZIa) + len);
+		(ZIa) = malloc(sizeof *(ZIa) + len + 1);
 		if ((ZIa) == NULL) {
 			perror("malloc");
 			exit(EXIT_FAILURE);
@@ -2071,15 +2072,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		(ZIa)->p   = (char *) (ZIa) + sizeof *(ZIa);
 
 		memcpy((ZIa)->p, lex_state->a, (ZIa)->len);
+		(ZIa)->p[len] = '\0'; /* for re_perror() */
 
 		lex_state->p = lex_state->a;
 	
-#line 2078 "src/lx/parser.c"
+#line 2080 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-literal */
 			{
-#line 364 "src/lx/parser.act"
+#line 365 "src/lx/parser.act"
 
 		struct re_err err;
 
@@ -2090,20 +2092,20 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		if ((ZIr) == NULL) {
 			assert(err.e != RE_EBADDIALECT);
 			/* TODO: pass filename for .lx source */
-			re_perror(RE_LITERAL, &err, NULL, (ZIa)->p); /* XXX */
+			re_perror(RE_LITERAL, &err, NULL, (char *) ((ZIa) + 1)); /* XXX */
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2098 "src/lx/parser.c"
+#line 2100 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-literal */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 768 "src/lx/parser.act"
+#line 769 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2107 "src/lx/parser.c"
+#line 2109 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2167,7 +2169,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 738 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2187,12 +2189,12 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			}
 		}
 	
-#line 2191 "src/lx/parser.c"
+#line 2193 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 452 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2225,7 +2227,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			nmappings++;
 		}
 	
-#line 2229 "src/lx/parser.c"
+#line 2231 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-from-mappings::list-of-zone-from-mappings-x */
@@ -2259,16 +2261,16 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		/* BEGINNING OF ACTION: no-zone */
 		{
-#line 517 "src/lx/parser.act"
+#line 518 "src/lx/parser.act"
 
 		(ZIparent) = NULL;
 	
-#line 2267 "src/lx/parser.c"
+#line 2269 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-zone */
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 426 "src/lx/parser.act"
+#line 427 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2276,12 +2278,12 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2280 "src/lx/parser.c"
+#line 2282 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: make-zone */
 		{
-#line 434 "src/lx/parser.act"
+#line 435 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 
@@ -2299,28 +2301,28 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2303 "src/lx/parser.c"
+#line 2305 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-zone */
 		/* BEGINNING OF ACTION: no-exit */
 		{
-#line 513 "src/lx/parser.act"
+#line 514 "src/lx/parser.act"
 
 		(ZIexit) = NULL;
 	
-#line 2312 "src/lx/parser.c"
+#line 2314 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-exit */
 		/* BEGINNING OF ACTION: set-globalzone */
 		{
-#line 502 "src/lx/parser.act"
+#line 503 "src/lx/parser.act"
 
 		assert((ZIa) != NULL);
 		assert((ZIz) != NULL);
 
 		(ZIa)->global = (ZIz);
 	
-#line 2324 "src/lx/parser.c"
+#line 2326 "src/lx/parser.c"
 		}
 		/* END OF ACTION: set-globalzone */
 		p_list_Hof_Hthings (lex_state, act_state, ZIa, ZIz, ZIexit);
@@ -2344,11 +2346,11 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 809 "src/lx/parser.act"
+#line 810 "src/lx/parser.act"
 
 		err_expected(lex_state, "EOF");
 	
-#line 2352 "src/lx/parser.c"
+#line 2354 "src/lx/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2361,7 +2363,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: make-ast */
 		{
-#line 426 "src/lx/parser.act"
+#line 427 "src/lx/parser.act"
 
 		(ZIa) = ast_new();
 		if ((ZIa) == NULL) {
@@ -2369,17 +2371,17 @@ ZL1:;
 			goto ZL4;
 		}
 	
-#line 2373 "src/lx/parser.c"
+#line 2375 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: err-syntax */
 		{
-#line 776 "src/lx/parser.act"
+#line 777 "src/lx/parser.act"
 
 		err(lex_state, "Syntax error");
 		exit(EXIT_FAILURE);
 	
-#line 2383 "src/lx/parser.c"
+#line 2385 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-syntax */
 	}
@@ -2436,7 +2438,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 		}
 		/* BEGINNING OF ACTION: add-mapping */
 		{
-#line 452 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2469,12 +2471,12 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2473 "src/lx/parser.c"
+#line 2475 "src/lx/parser.c"
 		}
 		/* END OF ACTION: add-mapping */
 		/* BEGINNING OF ACTION: clone */
 		{
-#line 758 "src/lx/parser.act"
+#line 759 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2484,7 +2486,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			goto ZL1;
 		}
 	
-#line 2488 "src/lx/parser.c"
+#line 2490 "src/lx/parser.c"
 		}
 		/* END OF ACTION: clone */
 	}
@@ -2520,11 +2522,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 				{
 					/* BEGINNING OF ACTION: err-expected-map */
 					{
-#line 785 "src/lx/parser.act"
+#line 786 "src/lx/parser.act"
 
 		err_expected(lex_state, "'->'");
 	
-#line 2528 "src/lx/parser.c"
+#line 2530 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-map */
 				}
@@ -2540,7 +2542,7 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 2544 "src/lx/parser.c"
+#line 2546 "src/lx/parser.c"
 				}
 				/* END OF EXTRACT: TOKEN */
 				break;
@@ -2554,11 +2556,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		{
 			/* BEGINNING OF ACTION: no-token */
 			{
-#line 509 "src/lx/parser.act"
+#line 510 "src/lx/parser.act"
 
 		(ZIt) = NULL;
 	
-#line 2562 "src/lx/parser.c"
+#line 2564 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-token */
 		}
@@ -2647,11 +2649,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-semi */
 		{
-#line 793 "src/lx/parser.act"
+#line 794 "src/lx/parser.act"
 
 		err_expected(lex_state, "';'");
 	
-#line 2655 "src/lx/parser.c"
+#line 2657 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-semi */
 	}
@@ -2698,16 +2700,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: no-zone */
 			{
-#line 517 "src/lx/parser.act"
+#line 518 "src/lx/parser.act"
 
 		(ZIto) = NULL;
 	
-#line 2706 "src/lx/parser.c"
+#line 2708 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 452 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2740,7 +2742,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2744 "src/lx/parser.c"
+#line 2746 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 		}
@@ -2752,7 +2754,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 434 "src/lx/parser.act"
+#line 435 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -2770,12 +2772,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 2774 "src/lx/parser.c"
+#line 2776 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 452 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2808,7 +2810,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2812 "src/lx/parser.c"
+#line 2814 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			p_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Hof_Hzone_Hfrom_Hmappings_Hx (lex_state, act_state, *ZIa, *ZIz, ZIchild, *ZIexit);
@@ -2832,11 +2834,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-to */
 					{
-#line 797 "src/lx/parser.act"
+#line 798 "src/lx/parser.act"
 
 		err_expected(lex_state, "'..'");
 	
-#line 2840 "src/lx/parser.c"
+#line 2842 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-to */
 				}
@@ -2861,25 +2863,25 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 						}
 						/* BEGINNING OF ACTION: no-zone */
 						{
-#line 517 "src/lx/parser.act"
+#line 518 "src/lx/parser.act"
 
 		(ZIx) = NULL;
 	
-#line 2869 "src/lx/parser.c"
+#line 2871 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-zone */
 						/* BEGINNING OF ACTION: no-token */
 						{
-#line 509 "src/lx/parser.act"
+#line 510 "src/lx/parser.act"
 
 		(ZIy) = NULL;
 	
-#line 2878 "src/lx/parser.c"
+#line 2880 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-token */
 						/* BEGINNING OF ACTION: regex-any */
 						{
-#line 395 "src/lx/parser.act"
+#line 396 "src/lx/parser.act"
 
 		fsm_state_t start, end;
 
@@ -2910,12 +2912,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		fsm_setstart((ZIw), start);
 		fsm_setend((ZIw), end, 1);
 	
-#line 2914 "src/lx/parser.c"
+#line 2916 "src/lx/parser.c"
 						}
 						/* END OF ACTION: regex-any */
 						/* BEGINNING OF ACTION: subtract-exit */
 						{
-#line 738 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZIw) != NULL);
 
@@ -2935,12 +2937,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 2939 "src/lx/parser.c"
+#line 2941 "src/lx/parser.c"
 						}
 						/* END OF ACTION: subtract-exit */
 						/* BEGINNING OF ACTION: add-mapping */
 						{
-#line 452 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -2973,7 +2975,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2977 "src/lx/parser.c"
+#line 2979 "src/lx/parser.c"
 						}
 						/* END OF ACTION: add-mapping */
 					}
@@ -3000,11 +3002,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 817 "src/lx/parser.act"
+#line 818 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3008 "src/lx/parser.c"
+#line 3010 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3020,16 +3022,16 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: no-exit */
 			{
-#line 513 "src/lx/parser.act"
+#line 514 "src/lx/parser.act"
 
 		(ZIr2) = NULL;
 	
-#line 3028 "src/lx/parser.c"
+#line 3030 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-exit */
 			/* BEGINNING OF ACTION: make-zone */
 			{
-#line 434 "src/lx/parser.act"
+#line 435 "src/lx/parser.act"
 
 		assert((*ZIa) != NULL);
 
@@ -3047,12 +3049,12 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3051 "src/lx/parser.c"
+#line 3053 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
 			{
-#line 452 "src/lx/parser.act"
+#line 453 "src/lx/parser.act"
 
 		struct ast_token *t;
 		struct ast_mapping *m;
@@ -3085,7 +3087,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 3089 "src/lx/parser.c"
+#line 3091 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: 131 */
@@ -3104,11 +3106,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 817 "src/lx/parser.act"
+#line 818 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3112 "src/lx/parser.c"
+#line 3114 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3152,11 +3154,11 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-bind */
 					{
-#line 789 "src/lx/parser.act"
+#line 790 "src/lx/parser.act"
 
 		err_expected(lex_state, "'='");
 	
-#line 3160 "src/lx/parser.c"
+#line 3162 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-bind */
 				}
@@ -3171,7 +3173,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: add-binding */
 			{
-#line 485 "src/lx/parser.act"
+#line 486 "src/lx/parser.act"
 
 		struct var *v;
 
@@ -3188,7 +3190,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3192 "src/lx/parser.c"
+#line 3194 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-binding */
 		}
@@ -3214,7 +3216,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 			/* BEGINNING OF ACTION: deref-var */
 			{
-#line 280 "src/lx/parser.act"
+#line 281 "src/lx/parser.act"
 
 		struct ast_zone *z;
 
@@ -3241,7 +3243,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3245 "src/lx/parser.c"
+#line 3247 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-var */
 			p_197 (lex_state, act_state, ZI273, &ZI210);
@@ -3257,7 +3259,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 			/* BEGINNING OF ACTION: subtract-exit */
 			{
-#line 738 "src/lx/parser.act"
+#line 739 "src/lx/parser.act"
 
 		assert((ZI278) != NULL);
 
@@ -3277,7 +3279,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			}
 		}
 	
-#line 3281 "src/lx/parser.c"
+#line 3283 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, ZIa, ZIz, ZIexit, &ZI279, &ZI280);
@@ -3300,7 +3302,7 @@ ZL1:;
 
 /* BEGINNING OF TRAILER */
 
-#line 821 "src/lx/parser.act"
+#line 822 "src/lx/parser.act"
 
 
 	struct ast *lx_parse(FILE *f, const struct fsm_alloc *alloc) {
@@ -3368,6 +3370,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3372 "src/lx/parser.c"
+#line 3374 "src/lx/parser.c"
 
 /* END OF FILE */
-- 
2.43.0


From 018fe3cd531667e123855e9bc79bf69499ae79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 089/111] fix: lx: use after free for several exits from a zone
 with the same token

---
 src/lx/parser.c   | 32 ++++++++++++++++----------------
 src/lx/parser.sid |  4 ++--
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/lx/parser.c b/src/lx/parser.c
index add6b57..4fd55fd 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -2436,6 +2436,21 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			RESTORE_LEXER;
 			goto ZL1;
 		}
+		/* BEGINNING OF ACTION: clone */
+		{
+#line 759 "src/lx/parser.act"
+
+		assert((ZIr) != NULL);
+
+		(ZIexit) = fsm_clone((ZIr));
+		if ((ZIexit) == NULL) {
+			perror("fsm_clone");
+			goto ZL1;
+		}
+	
+#line 2452 "src/lx/parser.c"
+		}
+		/* END OF ACTION: clone */
 		/* BEGINNING OF ACTION: add-mapping */
 		{
 #line 453 "src/lx/parser.act"
@@ -2471,24 +2486,9 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2475 "src/lx/parser.c"
-		}
-		/* END OF ACTION: add-mapping */
-		/* BEGINNING OF ACTION: clone */
-		{
-#line 759 "src/lx/parser.act"
-
-		assert((ZIr) != NULL);
-
-		(ZIexit) = fsm_clone((ZIr));
-		if ((ZIexit) == NULL) {
-			perror("fsm_clone");
-			goto ZL1;
-		}
-	
 #line 2490 "src/lx/parser.c"
 		}
-		/* END OF ACTION: clone */
+		/* END OF ACTION: add-mapping */
 	}
 	goto ZL0;
 ZL1:;
diff --git a/src/lx/parser.sid b/src/lx/parser.sid
index 3c375e2..2950113 100644
--- a/src/lx/parser.sid
+++ b/src/lx/parser.sid
@@ -372,9 +372,9 @@
 			zone-to-mapping: (a :ast, parent :zone, child :zone) -> (exit :fsm) = {
 				(r, t) = token-mapping(parent);
 
-				<add-mapping>(a, child, parent, r, t);
-
 				exit = <clone>(r);
+
+				<add-mapping>(a, child, parent, r, t);
 			};
 
 			list-of-zone-to-mappings: (a :ast, parent :zone, child :zone) -> (exit :fsm) [
-- 
2.43.0


From 2f275b9ce51a555b3c001462b84cf80503a135e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:21 +0000
Subject: [PATCH 090/111] fix: lx: use after free for several mappings into a
 zone from inside another zone

---
 src/lx/parser.act |   9 +-
 src/lx/parser.c   | 261 +++++++++++++++++++++++++---------------------
 2 files changed, 150 insertions(+), 120 deletions(-)

diff --git a/src/lx/parser.act b/src/lx/parser.act
index 8c21220..b1a70fe 100644
--- a/src/lx/parser.act
+++ b/src/lx/parser.act
@@ -742,13 +742,16 @@
 		if (@b == NULL) {
 			@q = @a;
 		} else {
-			@b = fsm_clone(@b);
-			if (@b == NULL) {
+			struct fsm *clone;
+
+			/* the exit pattern itself is wanted again */
+			clone = fsm_clone(@b);
+			if (clone == NULL) {
 				perror("fsm_clone");
 				@!;
 			}
 
-			@q = fsm_subtract(@a, @b);
+			@q = fsm_subtract(@a, clone);
 			if (@q == NULL) {
 				perror("fsm_subtract");
 				@!;
diff --git a/src/lx/parser.c b/src/lx/parser.c
index 4fd55fd..af65e7b 100644
--- a/src/lx/parser.c
+++ b/src/lx/parser.c
@@ -182,7 +182,7 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-list */
 		{
-#line 818 "src/lx/parser.act"
+#line 821 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
@@ -405,20 +405,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI233) = (ZI231);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *clone;
+
+			/* the exit pattern itself is wanted again */
+			clone = fsm_clone((ZIexit));
+			if (clone == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI233) = fsm_subtract((ZI231), (ZIexit));
+			(ZI233) = fsm_subtract((ZI231), clone);
 			if ((ZI233) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 422 "src/lx/parser.c"
+#line 425 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI232, &ZI233);
@@ -458,7 +461,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			goto ZL1;
 		}
 	
-#line 462 "src/lx/parser.c"
+#line 465 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 			p_212 (lex_state, act_state, &ZIz, &ZI210, &ZI206);
@@ -480,20 +483,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI241) = (ZI239);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *clone;
+
+			/* the exit pattern itself is wanted again */
+			clone = fsm_clone((ZIexit));
+			if (clone == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI241) = fsm_subtract((ZI239), (ZIexit));
+			(ZI241) = fsm_subtract((ZI239), clone);
 			if ((ZI241) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 497 "src/lx/parser.c"
+#line 503 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI240, &ZI241);
@@ -513,7 +519,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 		ZIn = xstrdup(lex_state->buf.a);
 	
-#line 517 "src/lx/parser.c"
+#line 523 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: IDENT */
 			ADVANCE_LEXER;
@@ -570,20 +576,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI250) = (ZI248);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *clone;
+
+			/* the exit pattern itself is wanted again */
+			clone = fsm_clone((ZIexit));
+			if (clone == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI250) = fsm_subtract((ZI248), (ZIexit));
+			(ZI250) = fsm_subtract((ZI248), clone);
 			if ((ZI250) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 587 "src/lx/parser.c"
+#line 596 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI249, &ZI250);
@@ -623,7 +632,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 			goto ZL1;
 		}
 	
-#line 627 "src/lx/parser.c"
+#line 636 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 			p_212 (lex_state, act_state, &ZIz, &ZI210, &ZI206);
@@ -645,20 +654,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI225) = (ZI223);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *clone;
+
+			/* the exit pattern itself is wanted again */
+			clone = fsm_clone((ZIexit));
+			if (clone == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI225) = fsm_subtract((ZI223), (ZIexit));
+			(ZI225) = fsm_subtract((ZI223), clone);
 			if ((ZI225) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 662 "src/lx/parser.c"
+#line 674 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI224, &ZI225);
@@ -690,7 +702,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		/* TODO: submatch addressing */
 		ZI253 = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 694 "src/lx/parser.c"
+#line 706 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: TOKEN */
 			ADVANCE_LEXER;
@@ -753,7 +765,7 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 
 		fsm_setstart((ZI254), start);
 	
-#line 757 "src/lx/parser.c"
+#line 769 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-token */
 			p_197 (lex_state, act_state, ZI254, &ZI210);
@@ -776,20 +788,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI261) = (ZI259);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *clone;
+
+			/* the exit pattern itself is wanted again */
+			clone = fsm_clone((ZIexit));
+			if (clone == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI261) = fsm_subtract((ZI259), (ZIexit));
+			(ZI261) = fsm_subtract((ZI259), clone);
 			if ((ZI261) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 793 "src/lx/parser.c"
+#line 808 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI260, &ZI261);
@@ -836,20 +851,23 @@ p_list_Hof_Hthings_C_Cthing(lex_state lex_state, act_state act_state, ast ZIa, z
 		if ((ZIexit) == NULL) {
 			(ZI270) = (ZI268);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *clone;
+
+			/* the exit pattern itself is wanted again */
+			clone = fsm_clone((ZIexit));
+			if (clone == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI270) = fsm_subtract((ZI268), (ZIexit));
+			(ZI270) = fsm_subtract((ZI268), clone);
 			if ((ZI270) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 853 "src/lx/parser.c"
+#line 871 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, &ZIa, &ZIz, &ZIexit, &ZI269, &ZI270);
@@ -869,11 +887,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-thing */
 		{
-#line 814 "src/lx/parser.act"
+#line 817 "src/lx/parser.act"
 
 		err_expected(lex_state, "mapping, binding or zone");
 	
-#line 877 "src/lx/parser.c"
+#line 895 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-thing */
 	}
@@ -899,11 +917,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-open */
 		{
-#line 802 "src/lx/parser.act"
+#line 805 "src/lx/parser.act"
 
 		err_expected(lex_state, "'{'");
 	
-#line 907 "src/lx/parser.c"
+#line 925 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-open */
 	}
@@ -929,11 +947,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-close */
 		{
-#line 806 "src/lx/parser.act"
+#line 809 "src/lx/parser.act"
 
 		err_expected(lex_state, "'}'");
 	
-#line 937 "src/lx/parser.c"
+#line 955 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-close */
 	}
@@ -961,7 +979,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = lex_state->buf.a[0];
 	
-#line 965 "src/lx/parser.c"
+#line 983 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: CHAR */
 						ADVANCE_LEXER;
@@ -989,7 +1007,7 @@ ZL2_pattern_C_Cbody:;
 		default:   ZIc = '\0'; break; /* TODO: handle error */
 		}
 	
-#line 993 "src/lx/parser.c"
+#line 1011 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: ESC */
 						ADVANCE_LEXER;
@@ -1026,7 +1044,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1030 "src/lx/parser.c"
+#line 1048 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: HEX */
 						ADVANCE_LEXER;
@@ -1063,7 +1081,7 @@ ZL2_pattern_C_Cbody:;
 
 		ZIc = (char) (unsigned char) u;
 	
-#line 1067 "src/lx/parser.c"
+#line 1085 "src/lx/parser.c"
 						}
 						/* END OF EXTRACT: OCT */
 						ADVANCE_LEXER;
@@ -1085,7 +1103,7 @@ ZL2_pattern_C_Cbody:;
 
 		*lex_state->p++ = (ZIc);
 	
-#line 1089 "src/lx/parser.c"
+#line 1107 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-char */
 			/* BEGINNING OF INLINE: pattern::body */
@@ -1225,7 +1243,7 @@ ZL2_180:;
 			goto ZL1;
 		}
 	
-#line 1229 "src/lx/parser.c"
+#line 1247 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: 180 */
@@ -1303,7 +1321,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1307 "src/lx/parser.c"
+#line 1325 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-reverse */
 		}
@@ -1327,7 +1345,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1331 "src/lx/parser.c"
+#line 1349 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complete */
 		}
@@ -1351,7 +1369,7 @@ p_expr_C_Cprefix_Hexpr(lex_state lex_state, act_state act_state, zone ZIz, fsm *
 			goto ZL1;
 		}
 	
-#line 1355 "src/lx/parser.c"
+#line 1373 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-complement */
 		}
@@ -1412,7 +1430,7 @@ ZL2_186:;
 			goto ZL1;
 		}
 	
-#line 1416 "src/lx/parser.c"
+#line 1434 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-intersect */
 			/* BEGINNING OF INLINE: 186 */
@@ -1469,7 +1487,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hto_Hmappings_C_Clist_Hof_
 			goto ZL1;
 		}
 	
-#line 1473 "src/lx/parser.c"
+#line 1491 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-alt */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-to-mappings::list-of-zone-to-mappings-x */
@@ -1602,7 +1620,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1606 "src/lx/parser.c"
+#line 1624 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-cross */
 						/* BEGINNING OF INLINE: 197 */
@@ -1661,7 +1679,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1665 "src/lx/parser.c"
+#line 1683 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-qmark */
 						/* BEGINNING OF INLINE: 197 */
@@ -1725,7 +1743,7 @@ ZL2_197:;
 
 		fsm_setstart((ZIq), start);
 	
-#line 1729 "src/lx/parser.c"
+#line 1747 "src/lx/parser.c"
 						}
 						/* END OF ACTION: op-star */
 						/* BEGINNING OF INLINE: 197 */
@@ -1809,7 +1827,7 @@ p_204(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI202, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1813 "src/lx/parser.c"
+#line 1831 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-subtract */
 		}
@@ -1884,7 +1902,7 @@ p_208(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI206, fsm *ZOq)
 			goto ZL1;
 		}
 	
-#line 1888 "src/lx/parser.c"
+#line 1906 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-concat */
 		}
@@ -1929,7 +1947,7 @@ p_212(lex_state lex_state, act_state act_state, zone *ZIz, fsm *ZI210, fsm *ZOq)
 		(ZIq) = NULL;
 		goto ZL1;
 	
-#line 1933 "src/lx/parser.c"
+#line 1951 "src/lx/parser.c"
 			}
 			/* END OF ACTION: op-product */
 		}
@@ -1977,7 +1995,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 		ZIf |= RE_ANCHORED; /* regexps in lx are implicitly anchored */
 		ZIf |= RE_SINGLE;   /* we can't assume we're lexing text */
 	
-#line 1981 "src/lx/parser.c"
+#line 1999 "src/lx/parser.c"
 			}
 			/* END OF EXTRACT: RE */
 			ADVANCE_LEXER;
@@ -2009,7 +2027,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2013 "src/lx/parser.c"
+#line 2031 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-regex */
@@ -2029,16 +2047,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2033 "src/lx/parser.c"
+#line 2051 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-regex */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 769 "src/lx/parser.act"
+#line 772 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2042 "src/lx/parser.c"
+#line 2060 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2076,7 +2094,7 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 
 		lex_state->p = lex_state->a;
 	
-#line 2080 "src/lx/parser.c"
+#line 2098 "src/lx/parser.c"
 			}
 			/* END OF ACTION: pattern-buffer */
 			/* BEGINNING OF ACTION: compile-literal */
@@ -2096,16 +2114,16 @@ p_215(lex_state lex_state, act_state act_state, fsm *ZOr)
 			exit(EXIT_FAILURE);
 		}
 	
-#line 2100 "src/lx/parser.c"
+#line 2118 "src/lx/parser.c"
 			}
 			/* END OF ACTION: compile-literal */
 			/* BEGINNING OF ACTION: free-arr */
 			{
-#line 769 "src/lx/parser.act"
+#line 772 "src/lx/parser.act"
 
 		free((ZIa));
 	
-#line 2109 "src/lx/parser.c"
+#line 2127 "src/lx/parser.c"
 			}
 			/* END OF ACTION: free-arr */
 		}
@@ -2176,20 +2194,23 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 		if ((ZIexit) == NULL) {
 			(ZIq) = (ZIr);
 		} else {
-			(ZIexit) = fsm_clone((ZIexit));
-			if ((ZIexit) == NULL) {
+			struct fsm *clone;
+
+			/* the exit pattern itself is wanted again */
+			clone = fsm_clone((ZIexit));
+			if (clone == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZIq) = fsm_subtract((ZIr), (ZIexit));
+			(ZIq) = fsm_subtract((ZIr), clone);
 			if ((ZIq) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 2193 "src/lx/parser.c"
+#line 2214 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			/* BEGINNING OF ACTION: add-mapping */
@@ -2227,7 +2248,7 @@ ZL2_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Ho
 			nmappings++;
 		}
 	
-#line 2231 "src/lx/parser.c"
+#line 2252 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: list-of-things::zone-thing::list-of-zone-from-mappings::list-of-zone-from-mappings-x */
@@ -2265,7 +2286,7 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		(ZIparent) = NULL;
 	
-#line 2269 "src/lx/parser.c"
+#line 2290 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-zone */
 		/* BEGINNING OF ACTION: make-ast */
@@ -2278,7 +2299,7 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2282 "src/lx/parser.c"
+#line 2303 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: make-zone */
@@ -2301,7 +2322,7 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			goto ZL1;
 		}
 	
-#line 2305 "src/lx/parser.c"
+#line 2326 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-zone */
 		/* BEGINNING OF ACTION: no-exit */
@@ -2310,7 +2331,7 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		(ZIexit) = NULL;
 	
-#line 2314 "src/lx/parser.c"
+#line 2335 "src/lx/parser.c"
 		}
 		/* END OF ACTION: no-exit */
 		/* BEGINNING OF ACTION: set-globalzone */
@@ -2322,7 +2343,7 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 
 		(ZIa)->global = (ZIz);
 	
-#line 2326 "src/lx/parser.c"
+#line 2347 "src/lx/parser.c"
 		}
 		/* END OF ACTION: set-globalzone */
 		p_list_Hof_Hthings (lex_state, act_state, ZIa, ZIz, ZIexit);
@@ -2346,11 +2367,11 @@ p_lx(lex_state lex_state, act_state act_state, ast *ZOa)
 			{
 				/* BEGINNING OF ACTION: err-expected-eof */
 				{
-#line 810 "src/lx/parser.act"
+#line 813 "src/lx/parser.act"
 
 		err_expected(lex_state, "EOF");
 	
-#line 2354 "src/lx/parser.c"
+#line 2375 "src/lx/parser.c"
 				}
 				/* END OF ACTION: err-expected-eof */
 			}
@@ -2371,17 +2392,17 @@ ZL1:;
 			goto ZL4;
 		}
 	
-#line 2375 "src/lx/parser.c"
+#line 2396 "src/lx/parser.c"
 		}
 		/* END OF ACTION: make-ast */
 		/* BEGINNING OF ACTION: err-syntax */
 		{
-#line 777 "src/lx/parser.act"
+#line 780 "src/lx/parser.act"
 
 		err(lex_state, "Syntax error");
 		exit(EXIT_FAILURE);
 	
-#line 2385 "src/lx/parser.c"
+#line 2406 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-syntax */
 	}
@@ -2438,7 +2459,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 		}
 		/* BEGINNING OF ACTION: clone */
 		{
-#line 759 "src/lx/parser.act"
+#line 762 "src/lx/parser.act"
 
 		assert((ZIr) != NULL);
 
@@ -2448,7 +2469,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			goto ZL1;
 		}
 	
-#line 2452 "src/lx/parser.c"
+#line 2473 "src/lx/parser.c"
 		}
 		/* END OF ACTION: clone */
 		/* BEGINNING OF ACTION: add-mapping */
@@ -2486,7 +2507,7 @@ p_list_Hof_Hthings_C_Czone_Hthing_C_Czone_Hto_Hmapping(lex_state lex_state, act_
 			nmappings++;
 		}
 	
-#line 2490 "src/lx/parser.c"
+#line 2511 "src/lx/parser.c"
 		}
 		/* END OF ACTION: add-mapping */
 	}
@@ -2522,11 +2543,11 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 				{
 					/* BEGINNING OF ACTION: err-expected-map */
 					{
-#line 786 "src/lx/parser.act"
+#line 789 "src/lx/parser.act"
 
 		err_expected(lex_state, "'->'");
 	
-#line 2530 "src/lx/parser.c"
+#line 2551 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-map */
 				}
@@ -2542,7 +2563,7 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 		/* TODO: submatch addressing */
 		ZIt = xstrdup(lex_state->buf.a + 1); /* +1 for '$' prefix */
 	
-#line 2546 "src/lx/parser.c"
+#line 2567 "src/lx/parser.c"
 				}
 				/* END OF EXTRACT: TOKEN */
 				break;
@@ -2560,7 +2581,7 @@ p_112(lex_state lex_state, act_state act_state, string *ZOt)
 
 		(ZIt) = NULL;
 	
-#line 2564 "src/lx/parser.c"
+#line 2585 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-token */
 		}
@@ -2649,11 +2670,11 @@ ZL1:;
 	{
 		/* BEGINNING OF ACTION: err-expected-semi */
 		{
-#line 794 "src/lx/parser.act"
+#line 797 "src/lx/parser.act"
 
 		err_expected(lex_state, "';'");
 	
-#line 2657 "src/lx/parser.c"
+#line 2678 "src/lx/parser.c"
 		}
 		/* END OF ACTION: err-expected-semi */
 	}
@@ -2704,7 +2725,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 		(ZIto) = NULL;
 	
-#line 2708 "src/lx/parser.c"
+#line 2729 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-zone */
 			/* BEGINNING OF ACTION: add-mapping */
@@ -2742,7 +2763,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2746 "src/lx/parser.c"
+#line 2767 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 		}
@@ -2772,7 +2793,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 2776 "src/lx/parser.c"
+#line 2797 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
@@ -2810,7 +2831,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2814 "src/lx/parser.c"
+#line 2835 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			p_list_Hof_Hthings_C_Czone_Hthing_C_Clist_Hof_Hzone_Hfrom_Hmappings_C_Clist_Hof_Hzone_Hfrom_Hmappings_Hx (lex_state, act_state, *ZIa, *ZIz, ZIchild, *ZIexit);
@@ -2834,11 +2855,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-to */
 					{
-#line 798 "src/lx/parser.act"
+#line 801 "src/lx/parser.act"
 
 		err_expected(lex_state, "'..'");
 	
-#line 2842 "src/lx/parser.c"
+#line 2863 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-to */
 				}
@@ -2867,7 +2888,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 		(ZIx) = NULL;
 	
-#line 2871 "src/lx/parser.c"
+#line 2892 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-zone */
 						/* BEGINNING OF ACTION: no-token */
@@ -2876,7 +2897,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 		(ZIy) = NULL;
 	
-#line 2880 "src/lx/parser.c"
+#line 2901 "src/lx/parser.c"
 						}
 						/* END OF ACTION: no-token */
 						/* BEGINNING OF ACTION: regex-any */
@@ -2912,7 +2933,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		fsm_setstart((ZIw), start);
 		fsm_setend((ZIw), end, 1);
 	
-#line 2916 "src/lx/parser.c"
+#line 2937 "src/lx/parser.c"
 						}
 						/* END OF ACTION: regex-any */
 						/* BEGINNING OF ACTION: subtract-exit */
@@ -2924,20 +2945,23 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		if ((ZIchild_Hexit) == NULL) {
 			(ZIv) = (ZIw);
 		} else {
-			(ZIchild_Hexit) = fsm_clone((ZIchild_Hexit));
-			if ((ZIchild_Hexit) == NULL) {
+			struct fsm *clone;
+
+			/* the exit pattern itself is wanted again */
+			clone = fsm_clone((ZIchild_Hexit));
+			if (clone == NULL) {
 				perror("fsm_clone");
 				goto ZL5;
 			}
 
-			(ZIv) = fsm_subtract((ZIw), (ZIchild_Hexit));
+			(ZIv) = fsm_subtract((ZIw), clone);
 			if ((ZIv) == NULL) {
 				perror("fsm_subtract");
 				goto ZL5;
 			}
 		}
 	
-#line 2941 "src/lx/parser.c"
+#line 2965 "src/lx/parser.c"
 						}
 						/* END OF ACTION: subtract-exit */
 						/* BEGINNING OF ACTION: add-mapping */
@@ -2975,7 +2999,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 2979 "src/lx/parser.c"
+#line 3003 "src/lx/parser.c"
 						}
 						/* END OF ACTION: add-mapping */
 					}
@@ -3002,11 +3026,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 818 "src/lx/parser.act"
+#line 821 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3010 "src/lx/parser.c"
+#line 3034 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3026,7 +3050,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 
 		(ZIr2) = NULL;
 	
-#line 3030 "src/lx/parser.c"
+#line 3054 "src/lx/parser.c"
 			}
 			/* END OF ACTION: no-exit */
 			/* BEGINNING OF ACTION: make-zone */
@@ -3049,7 +3073,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3053 "src/lx/parser.c"
+#line 3077 "src/lx/parser.c"
 			}
 			/* END OF ACTION: make-zone */
 			/* BEGINNING OF ACTION: add-mapping */
@@ -3087,7 +3111,7 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			nmappings++;
 		}
 	
-#line 3091 "src/lx/parser.c"
+#line 3115 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-mapping */
 			/* BEGINNING OF INLINE: 131 */
@@ -3106,11 +3130,11 @@ p_251(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-list */
 					{
-#line 818 "src/lx/parser.act"
+#line 821 "src/lx/parser.act"
 
 		err_expected(lex_state, "list of mappings, bindings or zones");
 	
-#line 3114 "src/lx/parser.c"
+#line 3138 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-list */
 				}
@@ -3154,11 +3178,11 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 				{
 					/* BEGINNING OF ACTION: err-expected-bind */
 					{
-#line 790 "src/lx/parser.act"
+#line 793 "src/lx/parser.act"
 
 		err_expected(lex_state, "'='");
 	
-#line 3162 "src/lx/parser.c"
+#line 3186 "src/lx/parser.c"
 					}
 					/* END OF ACTION: err-expected-bind */
 				}
@@ -3190,7 +3214,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3194 "src/lx/parser.c"
+#line 3218 "src/lx/parser.c"
 			}
 			/* END OF ACTION: add-binding */
 		}
@@ -3243,7 +3267,7 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 			goto ZL1;
 		}
 	
-#line 3247 "src/lx/parser.c"
+#line 3271 "src/lx/parser.c"
 			}
 			/* END OF ACTION: deref-var */
 			p_197 (lex_state, act_state, ZI273, &ZI210);
@@ -3266,20 +3290,23 @@ p_252(lex_state lex_state, act_state act_state, ast *ZIa, zone *ZIz, fsm *ZIexit
 		if ((*ZIexit) == NULL) {
 			(ZI280) = (ZI278);
 		} else {
-			(*ZIexit) = fsm_clone((*ZIexit));
-			if ((*ZIexit) == NULL) {
+			struct fsm *clone;
+
+			/* the exit pattern itself is wanted again */
+			clone = fsm_clone((*ZIexit));
+			if (clone == NULL) {
 				perror("fsm_clone");
 				goto ZL1;
 			}
 
-			(ZI280) = fsm_subtract((ZI278), (*ZIexit));
+			(ZI280) = fsm_subtract((ZI278), clone);
 			if ((ZI280) == NULL) {
 				perror("fsm_subtract");
 				goto ZL1;
 			}
 		}
 	
-#line 3283 "src/lx/parser.c"
+#line 3310 "src/lx/parser.c"
 			}
 			/* END OF ACTION: subtract-exit */
 			p_251 (lex_state, act_state, ZIa, ZIz, ZIexit, &ZI279, &ZI280);
@@ -3302,7 +3329,7 @@ ZL1:;
 
 /* BEGINNING OF TRAILER */
 
-#line 822 "src/lx/parser.act"
+#line 825 "src/lx/parser.act"
 
 
 	struct ast *lx_parse(FILE *f, const struct fsm_alloc *alloc) {
@@ -3370,6 +3397,6 @@ ZL1:;
 		return ast;
 	}
 
-#line 3374 "src/lx/parser.c"
+#line 3401 "src/lx/parser.c"
 
 /* END OF FILE */
-- 
2.43.0


From d30ef9915fdf93680e4e8cb86baba2f7cb126dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 091/111] fix: libre: assertion failed for an exact count of an
 exact count

---
 src/libre/ast_rewrite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 70ecd1e..1f7d9e5 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -502,8 +502,8 @@ rewrite_repeat(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags f
 		 * the sum of the ranges of the two inputs.
 		 */
 		if (i != AST_COUNT_UNBOUNDED && k != AST_COUNT_UNBOUNDED) {
-			/* I don't know why this is true */
-			assert(w - v > i - h + k - j);
+			/* w - v = i * (k - j) + j * (i - h), equal for exact counts */
+			assert(w - v >= i - h + k - j);
 		}
 
 		/*
-- 
2.43.0


From 8998e4ebe34a67ebe23adc7f6ef9fd35c4d79669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 092/111] fix: libre: parentheses for a repetition of a
 repetition when printing as PCRE

---
 src/libre/print/pcre.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libre/print/pcre.c b/src/libre/print/pcre.c
index 93f0583..80a65b9 100644
--- a/src/libre/print/pcre.c
+++ b/src/libre/print/pcre.c
@@ -110,7 +110,8 @@ pp_atomic(FILE *f, const struct fsm_options *opt, enum re_flags *re_flags,
 	assert(f != NULL);
 	assert(opt != NULL);
 
-	if (prec(n) <= prec(parent)) {
+	/* a repetition of a repetition needs parentheses: "a{2}*" is a syntax error */
+	if (prec(n) <= prec(parent) && !(n->type == AST_EXPR_REPEAT && parent->type == AST_EXPR_REPEAT)) {
 		pp_iter(f, opt, re_flags, n);
 	} else {
 		enum re_flags local_flags = *re_flags;
-- 
2.43.0


From 724ced4f49a3c90b54778c11931c186a9dcd0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 093/111] fix: re: -z named the wrong patterns after --

---
 src/re/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/re/main.c b/src/re/main.c
index 9059af9..952ecec 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -817,6 +817,9 @@ main(int argc, char *argv[])
 
 	fsm_to_cleanup = fsm;
 
+	/* argv[] advances past "--" below */
+	matchv = argv;
+
 	{
 		int i;
 
@@ -925,7 +928,6 @@ main(int argc, char *argv[])
 			}
 		}
 
-		matchv = argv;
 		matchc = i;
 
 		argc -= i;
-- 
2.43.0


From c485366f9de45f88116716677e97b355126bf238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 094/111] fix: re: assertion for -z with several patterns
 matched under -u

---
 src/re/main.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/re/main.c b/src/re/main.c
index 952ecec..a5c8db7 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -1152,12 +1152,15 @@ main(int argc, char *argv[])
 				}
 
 				if (patterns) {
-					fsm_end_id_t ids[1];
+					fsm_end_id_t *ids;
 					size_t count, i;
 					int res;
 
+					/* there may be several for AMBIG_MULTIPLE */
 					count = fsm_endid_count(fsm, state);
-					assert(count == 1);
+					assert(count >= 1);
+
+					ids = xmalloc(count * sizeof *ids);
 
 					res = fsm_endid_get(fsm, state, count, ids);
 					assert(res == 1);
@@ -1166,6 +1169,8 @@ main(int argc, char *argv[])
 						/* TODO: print nicely */
 						printf("match: /%s/\n", matchv[ids[i]]);
 					}
+
+					free(ids);
 				}
 			}
 		}
-- 
2.43.0


From 6cdac3e022ea48a9d1ebd23c3af54064a6997a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 095/111] fix: fsm: -x read the first file for every file

---
 src/fsm/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index f9d1bb3..7394495 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -738,7 +738,7 @@ main(int argc, char *argv[])
 			if (xfiles) {
 				FILE *f;
 
-				f = xopen(argv[0]);
+				f = xopen(argv[i]);
 
 				e = fsm_exec(fsm, fsm_fgetc, f, &state, NULL);
 
-- 
2.43.0


From fd53828bf2ae2b7827a991600d69354cf31c727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 096/111] fix: fsm: assertion for -U when an operation fails

---
 src/fsm/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsm/main.c b/src/fsm/main.c
index 7394495..3e70746 100644
--- a/src/fsm/main.c
+++ b/src/fsm/main.c
@@ -588,7 +588,7 @@ main(int argc, char *argv[])
 		 * We can't include \0 here because optarg is a string, and I don't
 		 * want to invent a syntax for character sets.
 		 */
-		if (charset != NULL) {
+		if (charset != NULL && q != NULL) {
 			if (!fsm_determinise(q)) {
 				perror("fsm_determinise");
 				exit(EXIT_FAILURE);
-- 
2.43.0


From 35c70b53c35e1ef2080d25ebdbc9da63273a0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 097/111] fix: rx: assertion for a last line without a newline

---
 src/rx/main.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index 128ea59..aeb0149 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -124,9 +124,8 @@ xgetline(FILE *f)
 		exit(EXIT_FAILURE);
 	}
 
-	/* n == 0 for an empty line */
-	if (n > 0) {
-		assert(buf[n - 1] == '\n');
+	/* the last line might not end with a newline */
+	if (n > 0 && buf[n - 1] == '\n') {
 		buf[n - 1] = '\0';
 	}
 
-- 
2.43.0


From 1bc5e25eaacf6ce0a43d5c426133c1ddd98b77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 098/111] fix: rx: conflicting patterns were read past the end,
 or named wrongly

---
 src/rx/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index aeb0149..f6bb6aa 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -609,10 +609,10 @@ conflict(FILE *f, const struct fsm_options *opt,
 
 		for (size_t j = 0; j < env->general->count; j++) {
 			// TODO: delimiters per dialect, centralise with libre's re_perror()
-			if (env->general->a[i].id == state_metadata->end_ids[i]) {
+			if (env->general->a[j].id == state_metadata->end_ids[i]) {
 				fprintf(stderr, "#%u: /%s/\n",
 					state_metadata->end_ids[i],
-					env->general->a[i].s);
+					env->general->a[j].s);
 				goto next;
 			}
 		}
-- 
2.43.0


From 1cbbe27fd88398682b2a44cf7706f89266cad60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 099/111] fix: rx: exit status was success for conflicting
 patterns

---
 src/rx/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index f6bb6aa..ba2784f 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -1376,7 +1376,8 @@ main(int argc, char *argv[])
 			fprintf(stderr, "dfa: %u states\n", fsm_countstates(fsm));
 		}
 
-		if (-1 == fsm_print(stdout, fsm, &opt, &hooks, fsm_lang)) {
+		/* 1 for conflicts */
+		if (0 != fsm_print(stdout, fsm, &opt, &hooks, fsm_lang)) {
 			exit(EXIT_FAILURE);
 		}
 
-- 
2.43.0


From 8272c1896cab0f1ebeaa0eb0e07ce68ed3e65248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 100/111] fix: rx: -i exited for unsupported patterns, which
 are declined

---
 src/rx/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/main.c b/src/rx/main.c
index ba2784f..a815e07 100644
--- a/src/rx/main.c
+++ b/src/rx/main.c
@@ -1156,7 +1156,8 @@ main(int argc, char *argv[])
 				break;
 
 			default:
-				if (strict) {
+				/* unsupported patterns are not errors */
+				if (strict && r != CATEGORY_UNSUPPORTED) {
 					exit(EXIT_FAILURE);
 				}
 
-- 
2.43.0


From 76ca13fbe45365d20adbf7ee0ff35dde9bff1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:22 +0000
Subject: [PATCH 101/111] fix: a hook that fails makes printing Go and Rust
 fail

The result of print_end() was ignored in places, and so fsm_print()
reported success though a hook had failed.
---
 src/libfsm/print/go.c   | 8 ++++++--
 src/libfsm/print/rust.c | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 650da6a..c5a08b9 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -334,12 +334,16 @@ fsm_print_gofrag(FILE *f,
 		switch (op->instr) {
 		case VM_OP_STOP:
 			print_cond(f, op, opt);
-			print_end(f, op, opt, hooks, retlist, op->u.stop.end_bits);
+			if (-1 == print_end(f, op, opt, hooks, retlist, op->u.stop.end_bits)) {
+				return -1;
+			}
 			break;
 
 		case VM_OP_FETCH:
 			print_fetch(f, opt);
-			print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits);
+			if (-1 == print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits)) {
+				return -1;
+			}
 			break;
 
 		case VM_OP_BRANCH:
diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index 9a9cc7b..2f26817 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -420,7 +420,9 @@ fsm_print_rustfrag(FILE *f,
 
 				fprintf(f, "                    ");
 				fprintf(f, "None => ");
-				print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits);
+				if (-1 == print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits)) {
+					return -1;
+				}
 				fprintf(f, ",\n");
 				fprintf(f, "                    ");
 
-- 
2.43.0


From 898de902a3bd4a0bd57ab6e0c4f0d5320514a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 102/111] fix: release the ids and the example of a state when
 a hook fails

---
 src/libfsm/print.c      | 3 +++
 src/libfsm/print/dot.c  | 2 ++
 src/libfsm/print/fsm.c  | 2 ++
 src/libfsm/print/json.c | 1 +
 4 files changed, 8 insertions(+)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index bdb092d..1c878ea 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -199,6 +199,7 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 
 		ids = f_malloc(fsm->alloc, count * sizeof *ids);
 		if (ids == NULL) {
+			f_free(fsm->alloc, example);
 			goto error;
 		}
 
@@ -220,6 +221,8 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 			&state_metadata,
 			example))
 		{
+			f_free(fsm->alloc, example);
+			f_free(fsm->alloc, ids);
 			goto error;
 		}
 
diff --git a/src/libfsm/print/dot.c b/src/libfsm/print/dot.c
index 69cce10..ca28a0f 100644
--- a/src/libfsm/print/dot.c
+++ b/src/libfsm/print/dot.c
@@ -267,6 +267,7 @@ print_dotfrag(FILE *f,
 				&state_metadata,
 				default_accept, &s))
 			{
+				f_free(fsm->alloc, ids);
 				return -1;
 			}
 
@@ -276,6 +277,7 @@ print_dotfrag(FILE *f,
 				if (-1 == print_hook_comment(f, opt, hooks,
 					&state_metadata))
 				{
+					f_free(fsm->alloc, ids);
 					return -1;
 				}
 			}
diff --git a/src/libfsm/print/fsm.c b/src/libfsm/print/fsm.c
index eccbbdf..7a1484c 100644
--- a/src/libfsm/print/fsm.c
+++ b/src/libfsm/print/fsm.c
@@ -369,12 +369,14 @@ fsm_print_fsm(FILE *f,
 			default_accept,
 			NULL))
 		{
+			f_free(fsm->alloc, ids);
 			return -1;
 		}
 
 		if (-1 == print_hook_comment(f, opt, hooks,
 			&state_metadata))
 		{
+			f_free(fsm->alloc, ids);
 			return -1;
 		}
 
diff --git a/src/libfsm/print/json.c b/src/libfsm/print/json.c
index b1e9f0c..a2300d5 100644
--- a/src/libfsm/print/json.c
+++ b/src/libfsm/print/json.c
@@ -289,6 +289,7 @@ fsm_print_json(FILE *f,
 				&state_metadata,
 				NULL, NULL))
 			{
+				f_free(fsm->alloc, ids);
 				return -1;
 			}
 
-- 
2.43.0


From 5216d04aed81a2198097e11ab095333daf0d2dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:03 +0000
Subject: [PATCH 103/111] fix: printing Rust fails exactly when there is an
 error

A fragment was printed and then reported as a failure; and a hook that
failed was not reported.
---
 src/libfsm/print/rust.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index 2f26817..09cf74c 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -496,8 +496,7 @@ fsm_print_rust(FILE *f,
 	fprintf(f, "// generated\n");
 
 	if (opt->fragment) {
-		fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
-		goto error;
+		return fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
 	}
 
 	fprintf(f, "\n");
@@ -551,15 +550,13 @@ fsm_print_rust(FILE *f,
 	fprintf(f, " {\n");
 	fprintf(f, "    use Label::*;\n");
 
-	fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
+	if (-1 == fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp)) {
+		return -1;
+	}
 
 	fprintf(f, "}\n");
 	fprintf(f, "\n");
 
 	return 0;
-
-error:
-
-	return -1;
 }
 
-- 
2.43.0


From 17c45c1a84fa23154f9c72ffc43f78b8947c9041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 104/111] fix: the result type of Go code for several ids went
 to stdout

---
 src/libfsm/print/go.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index c5a08b9..49d39a5 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -448,7 +448,7 @@ fsm_print_go(FILE *f,
 			break;
 
 		case AMBIG_MULTIPLE:
-			fprintf(stdout, "(bool, []uint)");
+			fprintf(f, "(bool, []uint)");
 			break;
 
 		default:
-- 
2.43.0


From bf38bde6dea0881447be215e7ed6e0c6b4efe2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 105/111] fix: Go and Rust code declared an unused index, or
 read from an undeclared input, when nothing is read

---
 src/libfsm/print/go.c   | 16 +++++++++++++++-
 src/libfsm/print/rust.c |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 49d39a5..7970c73 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -148,6 +148,20 @@ default_reject(FILE *f, const struct fsm_options *opt,
     return 0;
 }
 
+static int
+has_op(const struct dfavm_op_ir *ops, enum dfavm_op_instr instr)
+{
+	const struct dfavm_op_ir *op;
+
+	for (op = ops; op != NULL; op = op->next) {
+		if (op->instr == instr) {
+			return 1;
+		}
+	}
+
+	return 0;
+}
+
 static void
 print_label(FILE *f, const struct dfavm_op_ir *op, const struct fsm_options *opt)
 {
@@ -297,7 +311,7 @@ fsm_print_gofrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
+	if (!has_op(ops, VM_OP_FETCH)) {
 		/* nothing to declare */
 	} else {
 		switch (opt->io) {
diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index 09cf74c..e2142d6 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -280,7 +280,7 @@ fsm_print_rustfrag(FILE *f,
 	/*
 	 * Only declare variables if we're actually going to use them.
 	 */
-	if (ops->cmp == VM_CMP_ALWAYS && ops->instr == VM_OP_STOP && ops->next == NULL) {
+	if (!has_op(ops, VM_OP_FETCH)) {
 		fprintf(f, "\n");
 	} else {
 		switch (opt->io) {
-- 
2.43.0


From 356fe9a2e8950a6c1f15862d69064248e9f8a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 106/111] fix: Rust code for unreachable states was not valid
 Rust

---
 src/libfsm/print/rust.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index e2142d6..52ed76b 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -324,6 +324,11 @@ fsm_print_rustfrag(FILE *f,
 	fallthrough = true;
 
 	for (op = ops; op != NULL; op = op->next) {
+		/* unreachable: nothing branches here, and the op before doesn't continue */
+		if (op->num_incoming == 0 && !fallthrough) {
+			continue;
+		}
+
 		if (op == ops || op->num_incoming > 0) {
 			if (op != ops) {
 				if (fallthrough) {
-- 
2.43.0


From 4a5f36dbdba0323d5c108cf4eedbd36e5896ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 107/111] fix: examples in awk code were regular expressions
 rather than comments

---
 src/libfsm/print/awk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/awk.c b/src/libfsm/print/awk.c
index 4d952cb..b4b5db7 100644
--- a/src/libfsm/print/awk.c
+++ b/src/libfsm/print/awk.c
@@ -248,9 +248,9 @@ fsm_print_awkfrag(FILE *f,
 			fprintf(f, ":");
 
 			if (op->example != NULL) {
-				fprintf(f, " /* e.g. \"");
+				fprintf(f, " # e.g. \"");
 				escputs(f, opt, c_escputc_str, op->example);
-				fprintf(f, "\" */");
+				fprintf(f, "\"");
 			}
 
 			fprintf(f, "\n");
-- 
2.43.0


From 650d6698c1f21cefbe86803dc1bd4b02b096d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 108/111] fix: awk code compared characters with numbers, and
 did not escape quotes

---
 src/print/awk.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/print/awk.c b/src/print/awk.c
index ff3bf5d..1f1492a 100644
--- a/src/print/awk.c
+++ b/src/print/awk.c
@@ -27,7 +27,7 @@ awk_escputc_char(FILE *f, const struct fsm_options *opt, char c)
 
 	switch (c) {
 	case '\\': return fputs("\\\\", f);
-	case '\'': return fputs("\\\'", f);
+	case '\"': return fputs("\\\"", f);
 
 	case '\a': return fputs("\\a", f);
 	case '\b': return fputs("\\b", f);
@@ -54,10 +54,6 @@ awk_escputcharlit(FILE *f, const struct fsm_options *opt, char c)
 	assert(f != NULL);
 	assert(opt != NULL);
 
-	if (opt->always_hex || (unsigned char) c > SCHAR_MAX) {
-		return fprintf(f, "0x%02x", (unsigned char) c);
-	}
-
 	fprintf(f, "\"");
 	awk_escputc_char(f, opt, c);
 	fprintf(f, "\"");
-- 
2.43.0


From 419a2576652fca80f10246089dd077523833a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 109/111] fix: shell code had an unbalanced quote for the
 character '

---
 src/libfsm/print/sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/sh.c b/src/libfsm/print/sh.c
index 5322e4f..d0ef061 100644
--- a/src/libfsm/print/sh.c
+++ b/src/libfsm/print/sh.c
@@ -179,7 +179,7 @@ print_cond(FILE *f, const struct dfavm_op_ir *op)
 			fprintf(f, " || $c %s ''", str_operator(VM_CMP_EQ));
 		}
 	} else if (c == '\'') {
-		fprintf(f, "$c %s \'", str_operator(op->cmp));
+		fprintf(f, "$c %s \\'", str_operator(op->cmp));
 		if (op->cmp == VM_CMP_LE || op->cmp == VM_CMP_GE) {
 			fprintf(f, " || $c %s \\'", str_operator(VM_CMP_EQ));
 		}
-- 
2.43.0


From 1cdbed62a27641d12a5cbe2e3785a4f68fc7899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 110/111] fix: NASM code had constants that start with a letter

---
 src/libfsm/print/vmasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index bf55514..aa838ec 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -241,7 +241,7 @@ print_asm_amd64(FILE *f,
 							break;
 
 						case AMD64_NASM:
-							fprintf(f, "\tCMP   %s,%02xh\n", chr_reg, (unsigned)op->cmp_arg);
+							fprintf(f, "\tCMP   %s,0%02xh\n", chr_reg, (unsigned)op->cmp_arg);
 							break;
 
 						case AMD64_GO:
@@ -311,7 +311,7 @@ print_asm_amd64(FILE *f,
 						break;
 
 					case AMD64_NASM:
-						fprintf(f, "\tCMP   %s, %02xh\n", chr_reg, (unsigned)op->cmp_arg);
+						fprintf(f, "\tCMP   %s, 0%02xh\n", chr_reg, (unsigned)op->cmp_arg);
 						break;
 
 					case AMD64_GO:
-- 
2.43.0


From 516228ea758c398b0a10b678ce6aa5a10aa262fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:56 +0000
Subject: [PATCH 111/111] fix: Go assembly for strings left the prefix out of
 the function's name

---
 src/libfsm/print/vmasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/vmasm.c b/src/libfsm/print/vmasm.c
index aa838ec..a71f780 100644
--- a/src/libfsm/print/vmasm.c
+++ b/src/libfsm/print/vmasm.c
@@ -168,7 +168,7 @@ print_asm_amd64(FILE *f,
 			if (opt->comments) {
 				fprintf(f, "// func %s%s(data string) int\n", prefix, "Match");
 			}
-			fprintf(f, "TEXT    ·%s(SB), NOSPLIT, $0-24\n", "Match");
+			fprintf(f, "TEXT    ·%s%s(SB), NOSPLIT, $0-24\n", prefix, "Match");
 			break;
 
 		case FSM_IO_PAIR:
-- 
2.43.0

