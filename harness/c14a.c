#include "h.h"
#include "c14api.h"
/* The printed API calls, compiled from the text the library prints now, build the automaton between two states. */
extern void (*const gen_fn[])(void); extern const char *const gen_msg[]; extern const unsigned gen_count;
void h_api(void) {
	unsigned i = sx_choice("item", gen_count), k; struct api a; static struct ext x, y; struct fsm *f; fsm_state_t sx, sy; unsigned pre = sx_choice("states before", 2);
	if (!gen_fn[i]) sx_fail(gen_msg[i]);
	api_item(i, &a); f = fsm_new(NULL); if (pre) fsm_addstate_bulk(f, 2); fsm_addstate(f, &sx); fsm_addstate(f, &sy); fsm_setstart(f, sx); fsm_setend(f, sy, 1);
	sx_assert(1 == ((int (*)(struct fsm *, fsm_state_t *, fsm_state_t *)) gen_fn[i])(f, &sx, &sy), "the generated calls failed");
	x_init(&x, a.n); x.hasstart = 1; x.start = a.start;
	for (k = 0; k < a.n; k++) if (a.end[k]) x_col(&x, k, 1 | ((1u << a.nids) - 1) << 1);
	for (k = 0; k < a.ne; k++) if (a.e[k].eps) x_eps(&x, a.e[k].from, a.e[k].to); else x_edge(&x, a.e[k].from, a.e[k].to, a.e[k].lo, a.e[k].hi);
	x_of(&y, f); x_ids(&y, f, a.ids, a.nids, NULL, 0); sx_assert(fsm_count(f, fsm_isend) == 1 && fsm_isend(f, sy), "accepting states were changed");
	x_equiv(&x, &y, "the generated calls build another automaton");
	sx_reach("api"); fsm_free(f); NO_LEAK("generated calls");
}
