#include "h.h"
#include <errno.h>
#include <fsm/print.h>
#include <fsm/options.h>
/* C13: the text printed as Go, Rust, awk, shell and AMD64 assembly is read with the meaning of its language, and run together with
 * the DFA on unconstrained bytes until the pair (place in the text, state) was seen before: words of any length. */
enum lang { GO, RUST, AWK, SH, ATT, NASM, GOASM };
static const enum fsm_print_lang PL[] = { FSM_PRINT_GO, FSM_PRINT_RUST, FSM_PRINT_AWK, FSM_PRINT_SH, FSM_PRINT_AMD64_ATT, FSM_PRINT_AMD64_NASM, FSM_PRINT_AMD64_GO };
static enum lang lang; static struct aut A; static struct fsm_options O; static const char *T; static int ambig;
static const fsm_end_id_t IDS[] = { 7, 41, 0x80000001u }; static unsigned idset[8];
/* tokens: identifiers (with dots, and slashes apart from comments), numbers, bytes, strings, punctuation */
enum { K_END, K_ID, K_NUM, K_CHR, K_STR, K_NL, K_P };
static int k; static char id[64], str[64]; static unsigned long num; static unsigned slen;
static void bad(const char *m) { sx_log("before: %s (%ld)\n", T, 0); sx_fail(m); }
static int idch(int c, int first) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c == '.' && (first || lang >= ATT)) || (!first && c >= '0' && c <= '9') || c == 0xc2 || c == 0xb7; }
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int esc1(void) { /* a character of a literal, T after a backslash */
	int c = (unsigned char) *T++;
	switch (c) {
	case 'n': return '\n'; case 'r': return '\r'; case 't': return '\t'; case '\\': return '\\';
	case '\'': if (lang == AWK) return '\''; return '\''; case '"': return '"';
	case 'a': case 'b': case 'f': case 'v': if (lang == RUST) bad("an escape the language does not have"); return c == 'a' ? 7 : c == 'b' ? 8 : c == 'f' ? 12 : 11;
	case 'x': { int h = hexv((unsigned char) T[0]), l = h < 0 ? -1 : hexv((unsigned char) T[1]); if (h < 0 || l < 0) bad("a hexadecimal escape without two digits"); T += 2; return h << 4 | l; }
	default: bad("an escape the language does not have"); return 0;
	}
}
static void line_end(void) { while (*T && *T != '\n') T++; }
static void next(void) {
	unsigned i = 0; int c;
	for (;;) {
		c = (unsigned char) *T;
		if (c == ' ' || c == '\t') { T++; continue; }
		if (lang == RUST && !strncmp(T, "'static", 7)) { T += 7; continue; }
		if ((lang == GO || lang == RUST || lang == GOASM) && c == '/' && T[1] == '/') { line_end(); continue; }
		if ((lang == AWK || lang == SH || lang == ATT) && c == '#' ) { line_end(); continue; }
		if (lang == GOASM && c == '#') { line_end(); continue; }
		if (lang == NASM && c == ';') { line_end(); continue; }
		break;
	}
	if (!c) { k = K_END; return; }
	if (c == '\n') { T++; k = K_NL; return; }
	if (idch(c, 1) && !(lang == RUST && c == 'b' && T[1] == '\'')) { do { if (i < 63) id[i++] = *T; T++; } while (idch((unsigned char) *T, 0)); id[i] = 0; k = K_ID; return; }
	if (c >= '0' && c <= '9') {
		num = 0; k = K_NUM;
		if (lang == NASM) { unsigned long d = 0, x = 0; int hex = 0, dec = 1; const char *p; for (p = T; hexv((unsigned char) *p) >= 0; p++) { x = x * 16 + hexv((unsigned char) *p); if (*p > '9') dec = 0; d = d * 10 + (*p - '0'); } hex = *p == 'h'; T = p + hex; if (!hex && !dec) bad("a number with letters"); num = hex ? x : d; return; }
		if (T[0] == '0' && T[1] == 'x') { T += 2; while (hexv((unsigned char) *T) >= 0) num = num * 16 + hexv((unsigned char) *T++); }
		else { while (*T >= '0' && *T <= '9') num = num * 10 + (*T++ - '0'); }
		if (idch((unsigned char) *T, 0)) bad("a number with letters");
		return;
	}
	if (lang == RUST && c == 'b') { T++; c = '\''; goto chr; }
	if (c == '\'' && lang == SH) { T++; for (; *T && *T != '\''; T++) if (slen = i, i < 63) str[i++] = *T; if (!*T) bad("a quote that does not end"); T++; slen = i; str[i] = 0; k = K_STR; return; }
	if (c == '\'') { chr: T++; if (*T == '\'' || *T == '\n' || !*T) bad("an empty character literal"); if (*T == '\\') { T++; num = esc1(); } else num = (unsigned char) *T++; if (*T != '\'') bad("a character literal that does not end"); T++; if (lang != GO && lang != RUST) bad("a character literal in a language without them"); k = K_CHR; return; }
	if (c == '"') {
		T++; while (*T && *T != '"' && *T != '\n') { int b = (unsigned char) *T; if (b == '\\' && lang != SH) { T++; b = esc1(); } else T++; if (i < 63) str[i++] = b; }
		if (*T != '"') bad("a string that does not end"); T++; slen = i; k = K_STR; return;
	}
	if (c == '\\' && lang == SH) { T++; str[0] = *T++; slen = 1; k = K_STR; return; }
	k = K_P; id[0] = c; id[1] = id[2] = 0; T++;
	{ static const char *const two[] = { "<=", ">=", "==", "!=", "++", "=>", "&&", "||", "->", "::", "[[", "]]", ";&", ";;", NULL }; unsigned j; for (j = 0; two[j]; j++) if (c == two[j][0] && *T == two[j][1]) { if ((lang == GO || lang == RUST || lang == AWK) && (c == '[' || c == ']' || c == ';')) continue; id[1] = *T++; break; } }
}
static int is(const char *s) { return (k == K_ID || k == K_P) && !strcmp(id, s); }
static void want(const char *s) { if (!is(s)) bad("the text is not what the language's grammar allows here"); next(); }
static void nls(void) { while (k == K_NL) next(); }
static void skipto(const char *s) { while (!is(s)) { if (k == K_END) bad("the text ends early"); next(); } next(); }
static int starts(const char *s) { return k == K_ID && !strncmp(id, s, strlen(s)); }
static unsigned long dec(const char *s) { unsigned long n = 0; if (!*s) bad("a number is missing"); for (; *s; s++) { if (*s < '0' || *s > '9') bad("a number with letters"); n = n * 10 + (*s - '0'); } return n; }
/* what is returned: not accepted, accepted, accepted with ids */
struct ret { int acc, n; unsigned long v[4]; };
static struct ret rets[8]; static unsigned nrets; /* named lists */
/* the program */
enum op { FETCH, CMPBR, CMPRET, MOV, CMPI, CMPE, LOAD, ADV, ADDN, JCC, RETN };
enum cc { LT, LE, EQ, GE, GT, NE, ALWAYS };
static struct ins { uint8_t op, cc; int used; unsigned imm; unsigned long label; struct ret r; } P[256]; static unsigned np;
static struct { unsigned long name; unsigned at; } LB[64]; static unsigned nlb; static int hasstart; 
#define LSTART 0x10000ul
#define LFINISH 0x10001ul
static struct ins *emit(enum op o) { if (np == 256) bad("the text is too long for the harness"); memset(&P[np], 0, sizeof P[np]); P[np].op = o; P[np].cc = ALWAYS; return &P[np++]; }
static void label(unsigned long n) { unsigned i; for (i = 0; i < nlb; i++) if (LB[i].name == n) bad("a label is defined twice"); if (nlb == 64) bad("too many labels for the harness"); LB[nlb].name = n; LB[nlb++].at = np; }
static unsigned find(unsigned long n) { unsigned i; for (i = 0; i < nlb; i++) if (LB[i].name == n) return LB[i].at; bad("a jump to a label that does not exist"); return 0; }
static enum cc cmp_op(void) { static const char *const s[] = { "<", "<=", "==", ">=", ">", "!=" }; unsigned i; for (i = 0; i < 6; i++) if (is(s[i])) { next(); return (enum cc) i; } bad("no comparison where there should be one"); return ALWAYS; }
/* Go */
static struct ret go_ret(void) { struct ret r; memset(&r, 0, sizeof r); next(); if (is("true")) r.acc = 1; else if (!is("false")) bad("neither true nor false is returned"); next();
	if (ambig == 0) return r; want(","); 
	if (ambig == 4) { if (!r.acc) { want("nil"); return r; } if (!starts("ret")) bad("no list of ids is returned"); { unsigned i = dec(id + 3); if (i >= nrets) bad("a list of ids that does not exist"); r = rets[i]; } next(); return r; }
	if (k != K_NUM) bad("no id is returned"); r.v[0] = num; r.n = r.acc; next(); return r; }
static void go_list(void) { struct ret *r = &rets[nrets]; if (nrets == 8) bad("too many lists"); memset(r, 0, sizeof *r); r->acc = 1; while (k == K_NUM) { if (r->n == 4) bad("too many ids"); r->v[r->n++] = num; next(); if (is(",")) next(); } nrets++; }
static void go_body(struct ins *i, enum op ret) { want("{"); nls(); 
	if (is("goto")) { if (ret == FETCH) bad("a jump at the end of the input"); next(); if (!starts("l")) bad("no label"); i->op = CMPBR; i->label = dec(id + 1); next(); }
	else if (is("return")) { i->op = ret; i->r = go_ret(); } else bad("neither a jump nor a return");
	nls(); want("}"); if (k != K_NL) bad("two statements on a line"); nls(); }
static void parse_go(void) {
	struct ins *i;
	if (!O.fragment) {
		want("package"); want("pfsm"); nls();
		while (is("var")) { next(); if (!starts("ret") || dec(id + 3) != nrets) bad("lists of ids out of order"); next(); want("["); want("]"); want("uint"); want("="); want("["); want("]"); want("uint"); want("{"); go_list(); want("}"); nls(); }
		want("func"); want("pMatch"); want("("); want("data"); if (O.io == FSM_IO_PAIR) { want("["); want("]"); want("byte"); } else want("string"); want(")");
		if (ambig == 0) want("bool"); else { want("("); want("bool"); want(","); if (ambig == 4) { want("["); want("]"); } want("uint"); want(")"); }
		want("{"); } nls();
	if (is("var")) { next(); want("idx"); want("="); want("^"); want("uint"); want("("); if (k != K_NUM || num) bad("the index starts elsewhere"); next(); want(")"); nls(); hasstart = 1; }
	for (nls(); k != K_END && !is("}"); nls()) {
		if (is("if")) {
			next();
			if (is("idx")) { if (!hasstart) bad("idx is not declared"); next(); want("++"); if (!is(";")) bad("no condition"); next(); want("idx"); want(">="); want("uint"); want("("); want("len"); want("("); want("data"); want(")"); want(")"); go_body(emit(FETCH), FETCH); }
			else { enum cc c; want("data"); want("["); want("idx"); want("]"); c = cmp_op(); if (k != K_NUM && k != K_CHR) bad("no byte to compare with"); i = emit(CMPRET); i->cc = c; i->imm = (unsigned) num; if (num > 255) bad("a constant that does not fit a byte"); next(); go_body(i, CMPRET); }
		} else if (is("{")) go_body(emit(CMPRET), CMPRET);
		else if (starts("l")) { label(dec(id + 1)); next(); want(":"); }
		else bad("a statement that is not understood");
	}
	if (!O.fragment) { want("}"); nls(); } if (k != K_END) bad("text after the end");
	{ unsigned j, m; for (m = 0; m < np; m++) if (P[m].op == FETCH) break; if (hasstart && m == np) bad("a variable that is not used (Go refuses it)"); for (j = 0; j < nlb; j++) { for (m = 0; m < np; m++) if (P[m].op == CMPBR && P[m].label == LB[j].name) break; if (m == np) bad("a label that is not used (Go refuses it)"); } }
}
/* Rust */
static unsigned long rs_label(void) { unsigned long n = 0; if (k != K_ID || id[0] != 'L') bad("no label"); n = !strcmp(id, "Ls") ? LSTART : dec(id + 1); next(); return n; }
static struct ret rs_ret(void) { struct ret r; memset(&r, 0, sizeof r); want("return"); if (is("None")) { next(); return r; } want("Some"); want("("); r.acc = 1;
	if (ambig == 0) { want("("); want(")"); } else if (ambig == 4) { want("&"); if (!starts("RET")) bad("no list of ids is returned"); { unsigned i = dec(id + 3); if (i >= nrets) bad("a list of ids that does not exist"); r = rets[i]; } next(); }
	else { if (k != K_NUM) bad("no id is returned"); r.v[0] = num; r.n = 1; next(); } want(")"); return r; }
static void rs_act(struct ins *i) { if (is("l")) { next(); want("="); i->op = CMPBR; i->label = rs_label(); want(";"); want("continue"); want(";"); } else { i->op = CMPRET; i->r = rs_ret(); } }
static void parse_rust(void) {
	struct ins *i; unsigned n = 0, ndecl = 0; unsigned long decl[64]; int declared = 0, mut;
	nls();
	if (!O.fragment) { want("pub"); want("fn"); want("pmain"); want("("); 
		if (O.io == FSM_IO_GETC) { want("mut"); want("bytes"); want(":"); want("impl"); want("Iterator"); want("<"); want("Item"); want("="); want("u8"); want(">"); declared = 1; }
		else { if (!is("input") && !is("_input")) bad("the argument"); declared = 0; n = is("_input"); next(); want(":"); want("&"); if (O.io == FSM_IO_STR) want("str"); else { want("["); want("u8"); want("]"); } }
		want(")"); want("->"); want("Option"); want("<"); if (ambig == 0) { want("("); want(")"); } else if (ambig == 4) { want("&"); want("["); want("u32"); want("]"); } else want("u32"); want(">"); want("{"); nls();
		want("use"); want("Label"); want("::"); want("*"); want(";"); } else if (O.io == FSM_IO_GETC) declared = 1;
	nls();
	while (is("static")) { unsigned c; next(); if (!starts("RET") || dec(id + 3) != nrets) bad("lists of ids out of order"); next(); want(":"); want("["); want("u32"); want(";"); if (k != K_NUM) bad("no count"); c = (unsigned) num; next(); want("]"); want("="); want("["); go_list(); if ((unsigned) rets[nrets - 1].n != c) bad("the count of a list is wrong"); want("]"); want(";"); nls(); }
	if (is("let")) { const char *save = T; next(); if (is("mut")) { next(); if (is("bytes")) { next(); want("="); want("input"); if (is(".bytes")) { if (O.io != FSM_IO_STR) bad("a slice has no bytes()"); } else if (is(".iter")) { if (O.io != FSM_IO_PAIR) bad("a str has no iter()"); } else bad("not read"); next(); want("("); want(")"); want(";"); nls(); declared = 1; if (n) bad("_input is not input"); } else { T = save; k = K_ID; strcpy(id, "let"); } } else { T = save; k = K_ID; strcpy(id, "let"); } }
	nls();
	want("pub"); want("enum"); want("Label"); want("{"); for (nls(); !is("}"); nls()) { if (ndecl == 64) bad("too many labels"); decl[ndecl++] = rs_label(); want(","); } next(); nls();
	want("let"); mut = is("mut"); if (mut) next(); want("l"); want("="); if (rs_label() != LSTART) bad("another start"); want(";"); nls();
	want("loop"); want("{"); nls(); want("match"); want("l"); want("{"); nls();
	while (!is("}")) {
		unsigned before = np; unsigned long l = rs_label(); unsigned j; int open = 1, has_c = 0;
		for (j = 0; j < ndecl; j++) if (decl[j] == l) break; if (j == ndecl) bad("a label that the enumeration lacks"); 
		label(l); want("=>"); want("{"); nls();
		while (!is("}")) {
			if (!open) bad("text that cannot be reached");
			if (is("let")) {
				int amp = 0; char v[8]; next(); if (is("&")) { amp = 1; next(); } if (amp != (O.io == FSM_IO_PAIR)) bad("a reference where a byte is read, or a byte where a reference is"); if (k != K_ID) bad("no name"); strncpy(v, id, 7); v[7] = 0; has_c = !strcmp(v, "c"); next(); want("=");
				i = emit(FETCH); if (!declared) bad("bytes is not declared");
				if (is("match")) { next(); want("bytes"); want(".next"); want("("); want(")"); want("{"); nls(); want("None"); want("=>"); i->r = rs_ret(); want(","); nls(); want("Some"); want("("); want(v); want(")"); want("=>"); want(v); want(","); nls(); want("}"); want(";"); }
				else { want("bytes"); want(".next"); want("("); want(")"); want("?"); want(";"); }
			} else if (is("if")) { enum cc c; next(); if (!has_c) bad("c is not declared"); want("c"); c = cmp_op(); if (k != K_CHR && k != K_NUM) bad("no byte"); i = emit(CMPRET); i->cc = c; i->imm = (unsigned) num; if (k == K_CHR && num > 127 && 0) bad(""); if (num > 255) bad("a constant that does not fit a byte"); next(); want("{"); rs_act(i); want("}"); }
			else { i = emit(CMPRET); rs_act(i); open = 0; }
			if (k != K_NL) bad("two statements on a line"); nls();
		}
		if (open || before == np) bad("an arm that goes nowhere"); next(); nls();
	}
	next(); nls(); want("}"); nls(); if (!O.fragment) { want("}"); nls(); } if (k != K_END) bad("text after the end");
	if (nlb != ndecl) bad("the match does not have every label");
	for (n = 0; n < np; n++) if (P[n].op == CMPBR && !mut) bad("l is not mutable");
}
/* awk */
static struct ret awk_ids(void) { struct ret r; memset(&r, 0, sizeof r); 
	if (k == K_NUM) { if (ambig == 0) r.acc = num == 1; else if (num) { r.acc = 1; r.n = 1; r.v[0] = num; } if (ambig == 0 && num > 1) bad("another number is returned"); next(); return r; }
	if (k == K_STR && ambig == 4) { unsigned i = 0; r.acc = 1; if (!slen) bad("no ids"); while (i < slen) { unsigned long n = 0; if (r.n == 4) bad("too many ids"); for (; i < slen && str[i] != ','; i++) { if (str[i] < '0' || str[i] > '9') bad("not a number"); n = n * 10 + (str[i] - '0'); } r.v[r.n++] = n; i++; } next(); return r; }
	bad("nothing is returned"); return r; }
static unsigned long awk_label(void) { unsigned long n = 0; if (k == K_STR && slen == 0) n = LSTART; else if (k == K_NUM) n = num; else bad("no label"); next(); return n; }
static void awk_act(struct ins *i) { want("return"); if (is("pmain")) { if (i->op == FETCH) bad("a jump at the end of the input"); next(); want("("); want("s"); want(","); i->op = CMPBR; i->label = awk_label(); want(")"); } else { i->r = awk_ids(); if (i->op != FETCH) i->op = CMPRET; } while (is(";")) next(); if (k != K_NL) bad("two statements on a line"); nls(); }
static void parse_awk(void) {
	struct ins *i; nls();
	if (!O.fragment) { want("function"); want("pmain"); want("("); want("s"); want(","); want("l"); want(","); want("c"); want(")"); want("{"); nls(); }
	want("switch"); want("("); want("l"); want(")"); want("{"); nls();
	while (!is("}")) {
		if (is("case")) { next(); label(awk_label()); want(":"); if (k != K_NL) bad("text after a label"); nls(); if (nlb == 1 && np) bad("text before the first label"); continue; }
		if (is("if")) { next(); want("("); 
			if (is("s")) { unsigned j; next(); want("=="); if (k != K_STR || slen) bad("the end of the input"); next(); want(")"); i = emit(FETCH); awk_act(i); want("c"); want("="); want("substr"); want("("); want("s"); want(","); for (j = 0; j < 2; j++) { if (k != K_NUM || num != 1) bad("another character is taken"); next(); want(j ? ")" : ","); } nls(); want("s"); want("="); want("substr"); want("("); want("s"); want(","); if (k != K_NUM || num != 2) bad("the rest of the input"); next(); want(")"); nls(); }
			else { enum cc c; want("c"); c = cmp_op(); if (k != K_STR || slen != 1) bad("a character is not compared with a character"); i = emit(CMPRET); i->cc = c; i->imm = (unsigned char) str[0]; next(); want(")"); awk_act(i); } }
		else { i = emit(CMPRET); awk_act(i); }
	}
	next(); nls(); if (!O.fragment) { want("}"); nls(); } if (k != K_END) bad("text after the end");
}
/* shell: a character is compared as text, or by its number; <= and >= as text are two comparisons */
static enum cc sh_cc(void) { static const char *const s[] = { "<", "", "=", "", ">", "!=" }; unsigned i; for (i = 0; i < 6; i++) if (*s[i] && is(s[i])) { next(); return (enum cc) i; } bad("no comparison where there should be one"); return ALWAYS; }
static int sh_byte(void) { int c = 0; if (k != K_STR) bad("no character to compare with"); if (slen > 1) bad("more than a character"); c = slen ? (unsigned char) str[0] : 0; next(); return c; }
static struct ret sh_ret(void) { struct ret r; memset(&r, 0, sizeof r); if (is("fail")) { next(); return r; } want("matched"); r.acc = 1; while (k == K_NUM) { if (r.n == 4) bad("too many ids"); r.v[r.n++] = num; next(); } return r; }
static void parse_sh(void) {
	struct ins *i; int open = 0;
	while (!is("while")) { if (k == K_END) bad("the text ends early"); next(); } /* functions and variables: run by the demonstrations */
	skipto("do"); nls(); want("case"); want("$"); want("l"); want("in"); nls(); want("start"); want(")"); nls(); label(LSTART); open = 1;
	for (;;) {
		if (is(";&")) { if (!open) bad("two ends"); next(); nls(); if (!starts("l")) bad("no label"); label(dec(id + 1)); next(); want(")"); nls(); continue; }
		if (is(";;")) { next(); nls(); break; }
		if (starts("l") && k == K_ID) { label(dec(id + 1)); next(); want(")"); nls(); if (np) bad("a label which does not fall through"); continue; }
		if (is("read")) { next(); want("-"); want("rn"); if (k != K_NUM || num != 1) bad("another number of characters is read"); next(); want("c"); want("||"); i = emit(FETCH); i->r = sh_ret(); }
		else {
			enum cc c = ALWAYS, d; int b = 0;
			if (is("[[")) {
				next(); want("$");
				if (is("c")) { next(); c = sh_cc(); b = sh_byte(); if (is("||")) { next(); want("$"); want("c"); d = sh_cc(); if (d != EQ || (c != LT && c != GT)) bad("an odd pair of comparisons"); if (sh_byte() != b) bad("two different characters"); c = c == LT ? LE : GE; } }
				else { static const char *const n[] = { "lt", "le", "eq", "ge", "gt", "ne" }; unsigned j; want("("); want("ord"); if (k != K_STR || slen != 2 || str[0] != '$' || str[1] != 'c') bad("the number of something else"); next(); want(")"); want("-"); for (j = 0; j < 6; j++) if (is(n[j])) c = (enum cc) j; if (c == ALWAYS) bad("no comparison"); next(); if (k != K_NUM || num > 255) bad("no number"); b = (int) num; next(); }
				want("]]"); want("&&");
			}
			i = emit(CMPRET); i->cc = c; i->imm = b;
			if (is("{")) { next(); want("l"); want("="); i->op = CMPBR; if (!starts("l")) bad("no label"); i->label = dec(id + 1); next(); want(";"); want("continue"); want(";"); want("}"); }
			else i->r = sh_ret();
		}
		if (k != K_NL) bad("two statements on a line"); nls();
	}
	want("esac"); nls(); want("done"); nls(); if (k != K_END) bad("text after the end");
}
/* AMD64 assembly in three dialects */
enum reg { RDI, RSI, EDX, EAX, NOREG };
static enum reg reg(void) { static const char *const r[3][4] = { { "rdi", "rsi", "edx", "eax" }, { "rdi", "rsi", "edx", "eax" }, { "DI", "SI", "DX", "AX" } }; unsigned i; if (lang == ATT) { want("%"); } for (i = 0; i < 4; i++) if (is(r[lang - ATT][i])) { next(); return (enum reg) i; } bad("another register"); return NOREG; }
static unsigned long imm(void) { unsigned long n; if (lang != NASM) want("$"); if (k != K_NUM) bad("no constant"); n = num; next(); return n; }
static unsigned long as_label(void) { const char *s = id; if (k != K_ID) bad("no label"); if (lang != GOASM) { if (*s != '.') bad("a label that is not local"); s++; } { unsigned long n = !strcmp(s, "finish") ? LFINISH : *s == 'l' ? dec(s + 1) : (bad("no label"), 0ul); next(); return n; } }
static int opc(const char *att, const char *nasm, const char *goasm) { return is(lang == ATT ? att : lang == NASM ? nasm : goasm); }
static void parse_asm(void) {
	static const char *const J[][3] = { { "jb", "JB", "JB" }, { "jbe", "JBE", "JBE" }, { "je", "JE", "JE" }, { "jae", "JAE", "JAE" }, { "ja", "JA", "JA" }, { "jne", "JNE", "JNE" }, { "jmp", "JMP", "JMP" } };
	struct ins *i; enum reg a, b; unsigned j; int out = 0;
	nls();
	if (lang == ATT) { want(".globl"); want("pmatch"); nls(); want(".text"); nls(); want("pmatch"); want(":"); nls(); }
	else if (lang == NASM) { want("section"); want(".text"); nls(); want("global"); want("pmatch"); nls(); want("pmatch"); want(":"); nls(); }
	else { want("TEXT"); want("\xc2\xb7pMatch"); want("("); want("SB"); want(")"); want(","); want("NOSPLIT"); want(","); want("$"); if (k != K_NUM || num) bad("the frame"); next(); want("-"); if (k != K_NUM || num != (O.io == FSM_IO_STR ? 24 : 32)) bad("the size of the arguments"); next(); nls(); for (j = 0; j < 2; j++) { want("MOVQ"); want(j ? "data_len" : "data_base"); want("+"); if (k != K_NUM || num != 8 * j) bad("another argument"); next(); want("("); want("FP"); want(")"); want(","); want(j ? "SI" : "DI"); nls(); } }
	for (nls(); k != K_END; nls()) {
		if (opc("addq", "ADD", "ADDQ")) {
			next();
			if (lang == ATT && is("$")) { if (imm() != 1) bad("another step"); want(","); if (reg() != RDI) bad("another register"); emit(ADV); }
			else if (lang == GOASM && is("$")) { if (imm() != 1) bad("another step"); want(","); if (reg() != RDI) bad("another register"); emit(ADV); }
			else { a = reg(); want(","); if (k == K_NUM) { if (num != 1 || a != RDI) bad("another step"); next(); emit(ADV); } else { b = reg(); if (lang == NASM) { enum reg t = a; a = b; b = t; } if (a != RDI || b != RSI) bad("the end of the input"); emit(ADDN); } }
		} else if (opc("movl", "MOV", "MOVQ") && !(lang == GOASM && T[0] && strchr(T, '\n') && 0)) {
			i = NULL; next(); if (lang == NASM) { if (reg() != EAX) bad("another register"); want(","); i = emit(MOV); i->imm = (unsigned) imm(); }
			else if (is("$")) { i = emit(MOV); i->imm = (unsigned) imm(); want(","); if (reg() != EAX) bad("another register"); }
			else { if (reg() != EAX) bad("another register"); want(","); want("ret"); want("+"); if (k != K_NUM || num != (O.io == FSM_IO_STR ? 16 : 24)) bad("the result is put elsewhere"); next(); want("("); want("FP"); want(")"); out = 1; }
		} else if (opc("cmpl", "CMP", "CMPL") || opc("cmpq", "CMP", "CMPQ")) {
			next(); if (lang == ATT && is("$")) { i = emit(CMPI); i->imm = (unsigned) imm(); want(","); if (reg() != EDX) bad("another register"); }
			else { a = reg(); want(","); if (a == EDX) { i = emit(CMPI); i->imm = (unsigned) imm(); } else { b = reg(); if (!((a == RDI && b == RSI) || (a == RSI && b == RDI))) bad("other registers"); emit(CMPE); } }
		} else if (opc("movzbl", "MOVZX", "MOVBLZX")) {
			next(); if (lang == NASM) { if (reg() != EDX) bad("another register"); want(","); want("BYTE"); want("["); if (reg() != RDI) bad("another register"); want("]"); }
			else { want("("); if (reg() != RDI) bad("another register"); want(")"); want(","); if (reg() != EDX) bad("another register"); } emit(LOAD);
		} else if (opc("ret", "RET", "RET")) { next(); if (lang == GOASM && !out) bad("no result"); emit(RETN); }
		else {
			for (j = 0; j < 7; j++) if (is(J[j][lang - ATT])) break;
			if (j < 7) { next(); i = emit(JCC); i->cc = (uint8_t) j; i->label = as_label(); }
			else { label(as_label()); want(":"); }
		}
		if (k != K_NL && k != K_END) bad("two statements on a line");
	}
}
/* running both */
static unsigned char W[16]; static unsigned nw; /* bytes read so far */
static unsigned dstep(unsigned q, unsigned c) { unsigned i; if (q == A.n) return q; for (i = 0; i < A.ne; i++) if (A.e[i].from == q && in_pal(A.e[i].lab, c)) return A.e[i].to; return A.n; }
static int holds(enum cc c, unsigned a, unsigned b) { switch (c) { case LT: return a < b; case LE: return a <= b; case EQ: return a == b; case GE: return a >= b; case GT: return a > b; case NE: return a != b; default: return 1; } }
/* does r say that the word that led to q is, or is not, accepted? */
static void judge(const struct ret *r, unsigned q) {
	unsigned acc = q < A.n && (A.ends >> q & 1), i, n = 0, b;
	sx_log("%s %ld\n", acc ? "accepted; returned" : "not accepted; returned", r->acc);
	sx_assert((unsigned) r->acc == acc, "the printed code does not accept the words the automaton accepts");
	if (!acc || ambig == 0) return;
	for (b = 0; b < 3; b++) if (idset[q] >> b & 1) { if (ambig == 4 || n == 0) { sx_assert((unsigned) r->n > n, "the printed code lacks an id"); sx_assert(r->v[n] == IDS[b], "the printed code returns another id"); } n++; }
	i = ambig == 4 ? n : 1; sx_assert((unsigned) r->n == i, "the printed code returns an id too many");
}
/* the code returns before the input ends: the same for whatever follows */
static void judge_all(const struct ret *r, unsigned q) {
	mask_t seen = bit(q), todo = bit(q); unsigned i, s, c;
	while (todo) { for (s = 0; !(todo >> s & 1); s++); todo &= ~bit(s); judge(r, s);
		if (s < A.n) { for (c = 0; c < 256 && r->acc; c++) sx_assert(dstep(s, c) < A.n, "the printed code accepts too early"); for (i = 0; i < A.ne; i++) if (A.e[i].from == s && !(seen & bit(A.e[i].to))) { seen |= bit(A.e[i].to); todo |= bit(A.e[i].to); } } }
}
static unsigned char getb(void) { unsigned char c = sx_byte("byte"); if (lang == SH) sx_assume(c != 0 && c != '\n'); if (O.io == FSM_IO_STR && lang == RUST) sx_assume(c < 128); return c; }
static void simulate(void) {
	unsigned pc = lang < ATT && lang != GO ? find(LSTART) : 0, q = A.start, steps = 0; unsigned char c = 0; mask_t *seen = calloc(np + 1, sizeof *seen);
	sx_reach("read");
	for (;;) {
		struct ins *i; sx_assert(++steps < 4000, "the printed code does not end"); sx_assert(pc < np, "the printed code ends without returning"); i = &P[pc];
		if (i->op == FETCH) { if (seen[pc] & bit(q)) break; seen[pc] |= bit(q); judge(&i->r, q); c = getb(); q = dstep(q, c); nw++; pc++; }
		else { sx_assert(nw || i->cc == ALWAYS, "a byte is compared before one is read");
			if (!holds((enum cc) i->cc, c, i->imm)) { pc++; continue; }
			if (i->op == CMPRET) { judge_all(&i->r, q); break; }
			pc = find(i->label); }
	}
	free(seen);
}
static void simulate_asm(void) {
	unsigned pc = 0, q = A.start, steps = 0, eax = 2, adv = 0, added = 0, i2; unsigned char c = 0; int edx = 0, flags = 0 /* 1: byte, 2: end */, ok = 0, end = 0; unsigned cmp = 0; mask_t *seen = calloc(np + 1, sizeof *seen);
	unsigned spc = 0; struct ret r; memset(&r, 0, sizeof r); sx_reach("read");
	for (;;) {
		struct ins *i; int t; sx_assert(++steps < 8000, "the printed code does not end"); sx_assert(pc < np, "the printed code ends without returning"); i = &P[pc];
		switch (i->op) {
		case ADDN: sx_assert(!adv && !added, "the end of the input moves"); added = 1; flags = 0; pc++; break;
		case MOV: eax = i->imm; pc++; break;
		case CMPE: sx_assert(added, "the end of the input is not known"); sx_assert(!end, "the end is seen twice"); sx_assert(adv == nw, "the place in the input is lost");
			if (seen[pc] & bit(q)) goto done; seen[pc] |= bit(q); spc = pc; end = 1; flags = 2; pc++; break;
		case LOAD: sx_assert(!end && ok && adv == nw, "the input is read without looking for its end"); ok = 0; c = getb(); edx = 1; q = dstep(q, c); nw++; pc++; break;
		case ADV: adv++; flags = 0; pc++; break;
		case CMPI: sx_assert(edx && !end, "a byte is compared before one is read"); cmp = i->imm; flags = 1; pc++; break;
		case JCC: if (i->cc == ALWAYS) t = 1; else { sx_assert(flags, "a conditional jump without a comparison"); if (flags == 2) { sx_assert(i->cc == EQ || i->cc == NE, "an order between pointers"); t = (i->cc == EQ) == end; if (!end) ok = 1; } else t = holds((enum cc) i->cc, c, cmp); }
			pc = t ? find(i->label) : pc + 1; break;
		case RETN: sx_assert(eax < 2, "neither 0 nor 1 is returned"); r.acc = eax;
			if (end) { judge(&r, q); end = 0; flags = 2; pc = spc + 1; /* and now with more input */ break; }
			judge_all(&r, q); goto done;
		default: bad("not an instruction");
		}
	}
done: (void) i2; free(seen);
}
static const struct pal P1[] = { { 1, { { 0x27, 0x27 } } }, { 2, { { 'b', 'c' }, { 0xa5, 0xff } } }, { 4, { { 0, 9 }, { '"', '"' }, { '\\', ']' }, { 0x7f, 0x9f } } }, { 4, { { 0x0a, 0x21 }, { 0x23, 0x26 }, { 0x28, 0x5b }, { 0x5e, 'a' } } } };
static const struct pal P2[] = { { 1, { { 0, 255 } } }, { 1, { { 'x', 'x' } } } };
static void check(struct fsm *f) {
	FILE *w; size_t n; int r; unsigned i, b;
	for (i = 0; i < A.n; i++) { idset[i] = 0; if (A.ends >> i & 1) { idset[i] = ambig == 4 ? (unsigned[]) { 1, 2, 6 }[sx_choice("ids", 3)] : ambig ? 1u << sx_choice("id", ambig == 2 ? 2 : 1 + (A.n > 1)) : 0; if (ambig == 2 && idset[i] == 2) idset[i] = 6; for (b = 3; b-- > 0; ) if (idset[i] >> b & 1) sx_assert(fsm_endid_set(f, i, IDS[b]), "fsm_endid_set failed"); } }
	memset(&O, 0, sizeof O); O.prefix = "p"; O.ambig = ambig; O.comments = sx_choice("comments and hex", 2); O.always_hex = sx_param("all", 0) ? sx_choice("hex", 2) : !!O.comments;
	O.fragment = lang == GO || lang == RUST || lang == AWK ? (ambig == 4 ? 0 : sx_param("all", 0) ? sx_choice("fragment", 2) : O.always_hex) : 0;
	O.io = lang == GO || lang == GOASM ? (enum fsm_io) (FSM_IO_STR + sx_choice("io", 2)) : lang == RUST ? (enum fsm_io) sx_choice("io", 3) : lang == AWK || lang == SH ? FSM_IO_STR : FSM_IO_PAIR;
	sx_reach("printed"); w = sx_mem_writer(); r = fsm_print(w, f, &O, NULL, PL[lang]); sx_assert(r == 0, "an automaton is not printed"); T = sx_mem_data(w, &n); sx_log("%s (%ld bytes)\n", T, (long) n);
	np = nlb = nrets = nw = 0; hasstart = 0; next();
	switch (lang) { case GO: parse_go(); break; case RUST: parse_rust(); break; case AWK: parse_awk(); break; case SH: parse_sh(); break; default: parse_asm(); }
	if (lang < ATT) simulate(); else simulate_asm();
	sx_mem_close(w); fsm_free(f);
}
void h_langs(void) {
	struct fsm *f; unsigned first = sx_param("first", 0), last = sx_param("last", 7);
	lang = (enum lang) (first + sx_choice("language", last - first)); ambig = lang < ATT ? sx_param("ambig", 4) : 0; if (ambig) { ambig = (int) sx_choice("ambig", sx_param("ambig", 4)); ambig = ambig ? 1 << (ambig - 1) : 0; }
	if (sx_choice("palette", 2)) use_pal(P2, 1); else use_pal(P1, sx_param("labels", 4)); draw_dfa(&A, sx_param("N", 2), NPAL, sx_param("E", 3), 1); f = build(&A, NULL);
	check(f);
}
/* every byte as a label, alone and as an end of a range */
void h_bytes(void) {
	static struct pal p[3]; unsigned lo = sx_choice("byte", 256), kind = sx_choice("kind", 3); struct fsm *f;
	lang = (enum lang) sx_choice("language", 7); ambig = 0;
	memset(p, 0, sizeof p); p[0].n = 1; p[0].r[0].lo = p[0].r[0].hi = (uint8_t) lo; p[1].n = 0;
	if (kind == 1) p[0].r[0].hi = 255; if (kind == 2) p[0].r[0].lo = 0;
	if (kind == 0) { p[1].n = 2; p[1].r[0].lo = 0; p[1].r[0].hi = (uint8_t) (lo ? lo - 1 : 1); p[1].r[1].lo = (uint8_t) (lo < 255 ? lo + 1 : 254); p[1].r[1].hi = 255; if (lo == 0) { p[1].n = 1; p[1].r[0].lo = 1; p[1].r[0].hi = 255; } if (lo == 255) { p[1].n = 1; } }
	use_pal(p, kind == 0 ? 2 : 1); memset(&A, 0, sizeof A); A.n = 2; A.hasstart = 1; A.ends = bit(1); A.ne = 1; A.e[0].to = 1; if (kind == 0 && sx_choice("rest", 2)) { A.ne = 2; A.e[1].from = 0; A.e[1].to = 0; A.e[1].lab = 1; }
	f = build(&A, NULL); check(f);
}
