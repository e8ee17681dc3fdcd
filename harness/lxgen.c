/* lxgen DIR KIND WAYS FIRST COUNT: item*.lx, item*.args, item*.pre, item*.post */
#include "lxcorpus.h"
#include <stdlib.h>
#include <ctype.h>
int main(int c, char **v) {
	unsigned kind = atoi(v[2]), ways = atoi(v[3]), first = atoi(v[4]), count = atoi(v[5]), i, j, n; char t[4096], p[512]; (void) c;
	static const char *const G[] = { "agetc", "sgetc", "fgetc", "fdgetc" };
	for (i = first; i < first + count; i++) {
		struct lxopt o; const char *s = lx_item(kind, ways, i, t, &o), *q; FILE *f; char toks[32][32]; const char *P, *T;
		sprintf(p, "%s/item%u.lx", v[1], i); f = fopen(p, "w"); fputs(s, f); fclose(f);
		sprintf(p, "%s/item%u.args", v[1], i); f = fopen(p, "w");
		if (o.io <= LX_FDGETC) fprintf(f, "-g %s ", G[o.io]);
		if (o.io == LX_STR) fprintf(f, "-k str "); if (o.io == LX_PAIR) fprintf(f, "-k pair ");
		if (!(o.flags & LXF_NOBUF)) fprintf(f, "-b %s ", o.flags & LXF_FIXED ? "fixed" : "dyn"); else fprintf(f, "-x buf ");
		if (o.flags & LXF_NOPOS) fprintf(f, "-x pos "); if (o.flags & LXF_NOEX) fprintf(f, "-x example "); if (o.flags & LXF_NONAME) fprintf(f, "-x name "); if (o.flags & LXF_NOCOM) fprintf(f, "-x comments ");
		if (o.flags & LXF_HEX) fprintf(f, "-X "); if (o.flags & LXF_PREFIX) fprintf(f, "-e pq_ "); if (o.flags & LXF_TOK) fprintf(f, "-t QQ "); fclose(f);
		P = o.flags & LXF_PREFIX ? "pq_" : "lx_"; T = o.flags & LXF_TOK ? "QQ" : "TOK_";
		/* names with external linkage differ from item to item */
		sprintf(p, "%s/item%u.pre", v[1], i); f = fopen(p, "w");
		{ static const char *const N[] = { "init", "next", "name", "example", "agetc", "sgetc", "fgetc", "dgetc", "dynpush", "dynclear", "dynfree", "fixedpush", "fixedclear", "input_str" };
		for (j = 0; j < sizeof N / sizeof *N; j++) fprintf(f, "#define %s%s f%u_%s\n", P, N[j], i, N[j]); }
		fprintf(f, "#define LX_DYN_LOW 1\n#define LX_DYN_HIGH 2\n#define LX_DYN_FACTOR 2\n"); if (o.io == LX_FDGETC) fprintf(f, "#define read lxw_read\n#define fcntl lxw_fcntl\n"); fclose(f);
		sprintf(p, "%s/item%u.post", v[1], i); f = fopen(p, "w");
		fprintf(f, "#define FN(x) f%u_##x\n#define LXT struct %slx\n#define TOKT enum %stoken\n#define IO %u\n#define FLAGS %u\n#define W f%u_w\n", i, o.flags & LXF_PREFIX ? "pq_" : "", P, o.io, o.flags, i);
		/* tokens in order of appearance */
		for (n = 0, q = s; *q; q++) if (*q == '$' && isalpha((unsigned char) q[1])) { char u[32]; unsigned k = 0; while (isalnum((unsigned char) q[1 + k])) { u[k] = q[1 + k]; k++; } u[k] = 0; for (j = 0; j < n; j++) if (!strcmp(toks[j], u)) break; if (j == n) strcpy(toks[n++], u); }
		fprintf(f, "static const int TV[] = { "); for (j = 0; j < n; j++) { char *z; fprintf(f, "%s", T); for (z = toks[j]; *z; z++) fputc(toupper((unsigned char) *z), f); fprintf(f, ", "); }
		fprintf(f, "};\n#define NTOK %u\n#define T_EOF %sEOF\n#define T_ERROR %sERROR\n#define T_UNKNOWN %sUNKNOWN\n#include \"lxwrap.h\"\n", n, T, T, T); fclose(f);
	}
	return 0;
}
