/* Patterns printed as PCRE and compiled again. Included after c15.c, c16.c or c17.c, whose patterns are used. */
#include <fsm/options.h>
#include "libre/ast.h"
#include "libre/print.h"
#include "libre/ast_new_from_fsm.h"
static struct ext gp;
static char ptext[4000];
static void print_ast(const struct ast *ast, unsigned flags, int hex) {
	struct fsm_options opt; FILE *w = sx_mem_writer(); const char *d; size_t n, i;
	memset(&opt, 0, sizeof opt); opt.always_hex = hex;
	sx_assert(ast_print(w, ast, &opt, (enum re_flags) flags, AST_PRINT_PCRE) == 0, "ast_print failed");
	d = sx_mem_data(w, &n); sx_assert(n > 0 && n < sizeof ptext && d[n - 1] == '\n', "the printed pattern has no end"); n--;
	for (i = 0; i < n; i++) ptext[i] = d[i];
	npt = n; ptext[n] = 0; sx_mem_close(w); if (!sx_param("symbolic", 0)) sx_log("printed: %s (%ld)\n", ptext, (long) n);
}
static struct fsm *comp_text(unsigned flags) {
	rb.p = (unsigned char *) ptext; rb.n = npt; rb.i = 0; memset(&rerr, 0, sizeof rerr);
	return re_comp(RE_PCRE, wgetc, &rb, NULL, (enum re_flags) flags, &rerr);
}
static int keep_sub; /* printing a subtraction of sets is not implemented (known finding) */
static int has_sub(const struct ast_expr *n) {
	size_t i;
	if (!n) return 0;
	switch (n->type) {
	case AST_EXPR_SUBTRACT: return 1;
	case AST_EXPR_CONCAT: for (i = 0; i < n->u.concat.count; i++) if (has_sub(n->u.concat.n[i])) return 1; return 0;
	case AST_EXPR_ALT: for (i = 0; i < n->u.alt.count; i++) if (has_sub(n->u.alt.n[i])) return 1; return 0;
	case AST_EXPR_REPEAT: return has_sub(n->u.repeat.e);
	case AST_EXPR_GROUP: return has_sub(n->u.group.e);
	default: return 0;
	}
}
/* pt holds a pattern */
static void check22(enum re_dialect d, unsigned flags) {
	unsigned whole = d == RE_GLOB || d == RE_LIKE || d == RE_SQL || d == RE_LITERAL, pflags = (flags & ~(unsigned) RE_EXTENDED) | (whole ? RE_ANCHORED : 0); struct ast *ast; struct fsm *f, *g;
	f = r_comp(d, flags); if (!f) { sx_reach("refused"); return; }
	x_of_re(&got, f); fsm_free(f);
	rb.i = 0; ast = re_parse(d, wgetc, &rb, (enum re_flags) flags, &rerr, NULL); sx_assert(ast, "a pattern that compiles does not parse");
	if (!keep_sub && has_sub(ast->expr)) { ast_free(ast); sx_reach("subtraction"); return; }
	print_ast(ast, flags & ~(unsigned) RE_EXTENDED, sx_param("hex", 0)); ast_free(ast);
	g = comp_text(pflags);
	if (sx_param("survey", 0)) { if (!g) { strcat(p_text, " REJECTED "); strcat(p_text, ptext); sx_reach(p_text); return; } x_of_re(&gp, g); fsm_free(g); if (x_differ(&got, &gp)) { strcat(p_text, "  "); strcat(p_text, ptext); sx_reach(p_text); } return; }
	if (!g) sx_assert(rerr.e == RE_EUNSUPPORTED && rerr.e == RE_ESUCCESS, "the printed pattern does not compile");
	x_of_re(&gp, g); fsm_free(g); x_lang(&gp, &got, "the printed pattern has another language"); sx_reach("printed"); NO_LEAK("printing a pattern");
}

void h_known_subtract(void) { npt = 0; p_put("[^a]"); keep_sub = 1; check22(RE_PCRE, 0); }
