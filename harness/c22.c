#define HOOK check22
#include "c15.c"
#include "c22.h"
/* an automaton turned into an expression */
static struct aut A;
static void from(struct fsm *f) { /* got: its language */
	struct ast *ast = ast_new_from_fsm(f); struct fsm *g; static const struct ext *ep = &got;
	sx_assert(ast, "ast_new_from_fsm failed"); fsm_free(f);
	print_ast(ast, 0, sx_param("hex", 0)); ast_free(ast); g = comp_text(RE_ANCHORED);
	if (sx_param("survey", 0)) { if (!g) { strcat(ptext, " REJECTED"); sx_reach(ptext); return; } x_of_re(&gp, g); fsm_free(g); if (x_differ(ep, &gp)) sx_reach(ptext); return; }
	sx_assert(g, "the expression of an automaton does not compile");
	x_of_re(&gp, g); fsm_free(g); x_lang(&gp, &got, "the expression of an automaton has another language"); sx_reach("printed"); NO_LEAK("turning an automaton into an expression");
}
void h_from(void) {
	draw_aut(&A, sx_param("N", 3), sx_param("E", 3), sx_param("labels", 2), 1, sx_param("anystart", 1));
	if (sx_param("nostart", 1) && !A.start && sx_choice("no start", 2)) A.hasstart = 0;
	x_aut(&got, &A); from(build(&A, NULL));
}
void h_from_label(void) { /* two transitions between two states on unconstrained bytes, next to one on b */
	struct fsm *f = fsm_new(NULL); unsigned i, n = sx_param("n", 2), K = sx_param("K", 2);
	sx_assert(f && fsm_addstate_bulk(f, n), "fsm_addstate_bulk failed"); fsm_setstart(f, 0); x_init(&got, n); got.hasstart = 1; got.start = 0;
	for (i = 0; i < K; i++) { unsigned a = sx_choice("from", n), b = sx_choice("to", n), c = i == 0 ? sx_byte("label") : i == 1 && sx_param("two", 0) ? sx_byte("label") : 'b'; sx_assert(fsm_addedge_literal(f, a, b, c), "fsm_addedge_literal failed"); x_edge(&got, a, b, c, c); }
	for (i = 0; i < n; i++) if (sx_choice("end", 2)) { fsm_setend(f, i, 1); x_end(&got, i); }
	from(f);
}
