/* lx specifications, and the ways they are turned into code; shared by the generator and the harness */
#ifndef LXCORPUS_H
#define LXCORPUS_H
#include <stdio.h>
#include <string.h>
enum { LX_AGETC, LX_SGETC, LX_FGETC, LX_FDGETC, LX_OWN, LX_STR, LX_PAIR, LX_NIO };
enum { LXF_FIXED = 1, LXF_NOBUF = 2, LXF_NOPOS = 4, LXF_PREFIX = 8, LXF_TOK = 16, LXF_HEX = 32, LXF_NOCOM = 64, LXF_NOEX = 128, LXF_NONAME = 256, LXF_PLAIN = 512 };
struct lxopt { unsigned io, flags; };
static const char *const SPECS[] = {
 "'a' -> $a;\n'bc' -> $bc;\n/[ \\n]+/;\n",
 "/[ \\n]+/;\n'a' -> $a;\n'bc' -> $bc;\n",
 "/[a-c]+/ - 'ab' -> $id; 'ab' -> $kw; \"\\n\";",
 "'//' .. \"\\n\" -> $nl;\n'a' -> $a;",
 "\"'\" .. \"'\" -> $str {\n\t/./ -> $char;\n}\n",
 "'(' -> $lp .. ')' -> $rp { 'a' -> $a; '(' -> $lpp .. ')' -> $rpp { 'b' -> $b; } }",
 "'%' -> $pc { /[a-b]/ -> $x; } 'a' -> $a;",
 "'<', '[' -> $o .. '>', ']' -> $c { /[a-z]/ -> $ch; }",
 "x = /[0-4]/; y = x x; y -> $two; x '.' x -> $dec; # a comment\n",
 "/[a-b]+/ -> $id; '$' $id -> $tok;",
 "~/a*/ & /[ab]+/ -> $t; /a/ -> $u;",
 "!'abc' -> $r; ^'ab' -> $s;",
 "('a' | 'bb')+ -> $t; ('cd')* 'e' -> $u;",
 "'a'?'b' -> $t; ('c' 'd'?)? 'c' -> $u; \"\\r\"+;",
 "\"\\n\" -> $nl; \"\\x00\\xff\" -> $bin; \"\\x80\"+ -> $hi; '\\' -> $bs; \"\\101\\\"\" -> $aq;",
 "/ab/i -> $i; /[x-z]/i;",
 "'a' -> $a; 'aaab' -> $aaab; 'aab' -> $aab;",
 "/a{2,3}/ -> $a; /b.b/ -> $b; /c[^\\n]*/ -> $c; /\\n/;",
 "'#' .. \"\\n\"; /[a-z]+/ -> $w; ' ';",
 "'<' .. '>' { 'a' -> $a; }",
 "/./ -> $c;",
 "/[^\\n]*\\n/ -> $line;",
 "'\"' .. '\"' { /[a-b\"]+/ -> $w; }",
 "w = 'x' | 'y'; '(' .. ')' { w+ -> $w; v = w 'z'; v -> $v; }",
 "'/*' .. '*/';\n/[a-z]/ -> $l; '/' -> $s;",
 "'a'->$a;'b'->$b;'c'->$c;'d'->$d;'e'->$e;'f'->$f;'g'->$g;'h'->$h;'i'->$i;'j'->$j;'k'->$k;'l'->$l;'lm'->$lm;",
 "'a' -> $t; 'b' -> $t; 'c' -> $t { 'a' -> $u; 'b' -> $t; }",
 "'a' .. 'b' -> $b { 'c' -> $c; 'a' -> $d; }",
 "'{' -> $o .. '}' -> $c { '\"' .. '\"' -> $s { /[^\"]/ -> $ch; } /[a-b]/ -> $id; ' '; }",
 "/[\\x00-\\x1f]/ -> $ctl; /[\\x80-\\xff]+/ -> $hi; /[a-z]+/ -> $w;",
 "/\\n|\\r\\n|\\r/ -> $eol; /[a-b]+/ -> $w;",
 "/a(b|cd)*/ -> $t; /b+c?/ -> $u; /[^a-d]/;",
 "'aa' .. 'bb' -> $x; 'c' -> $c;",
 "'%' -> $pc { /[a-b]/; } 'a' -> $a; 'b' -> $b; ' ';",
 "'[' .. ']' -> $t { '[' .. ']' -> $u { '[' .. ']' -> $v; 'c' -> $c; } 'b' -> $b; } 'a' -> $a;",
 "'\"' .. /\"i?/ -> $s { /./ - '\"' -> $c; }",
 "(/[a-d]/ - /[bc]/) 'x'? -> $p; /[bc]/ & /[cd]/ -> $q;",
 "'a' -> $a; /[b]/ - /./ -> $b; 'c' | $b -> $c; '<' .. /[a-c]/ { 'a' -> $d; 'd' -> $d; }",
 "'a' -> $a; 'b', 'c' -> $bc .. 'a', 'd' -> $d { 'c'; 'b' -> $b; }",
 "'a' -> $a .. 'b' -> $x, 'c' -> $x { 'd' -> $d; }",
 "'(' .. ')', '}'; 'a' -> $a;",
 "'<' .. '>' -> $gt { 'a', 'b' -> $b .. '>', 'c' -> $c { 'd' -> $d; '>' -> $no; } }"
};
#define NSPECS (sizeof SPECS / sizeof *SPECS)
/* specifications of two mappings, made of every pair of these; which are ambiguous, or match the empty string, is decided by the reference */
static const char *const PATS[] = { "'a'", "'ab'", "/a+/", "/[a-b]/", "/a*b/", "/(ab)+/", "/ab?/", "/b?a?/", "/./", "~'a' & /[ab]{1,2}/", "/[^a]/", "/a.*b/" };
#define NPATS (sizeof PATS / sizeof *PATS)
#define NPAIRS (NPATS * NPATS)
/* kind 0: SPECS; 1: pairs; 2: pairs, the second one leading into a zone; 3: a zone entered by the first and left by the second */
static const char *lx_spec(unsigned kind, unsigned i, char *t) {
	unsigned a, b;
	if (kind == 0) return SPECS[i % NSPECS];
	a = i / NPATS % NPATS; b = i % NPATS;
	if (kind == 1) sprintf(t, "%s -> $a;\n%s -> $b;\n", PATS[a], PATS[b]);
	else if (kind == 2) sprintf(t, "%s -> $a;\n%s { 'c' -> $c; 'a' -> $a; }\n", PATS[a], PATS[b]);
	else sprintf(t, "%s .. %s -> $b { /[abc]/ -> $c; }\n 'd' -> $d;", PATS[a], PATS[b]);
	return t;
}
static unsigned lx_nitems(unsigned kind) { return kind == 0 ? NSPECS : NPAIRS; }
static const struct lxopt LXOPTS[] = {
 { LX_AGETC, 0 }, { LX_STR, 0 }, { LX_PAIR, 0 }, { LX_FGETC, LXF_FIXED }, { LX_FDGETC, LXF_HEX }, { LX_SGETC, LXF_PREFIX }, { LX_OWN, LXF_TOK },
 { LX_STR, LXF_FIXED | LXF_NOCOM }, { LX_PAIR, LXF_FIXED | LXF_PREFIX }, { LX_AGETC, LXF_NOPOS }, { LX_STR, LXF_NOPOS }, { LX_PAIR, LXF_NOPOS | LXF_FIXED }, { LX_OWN, LXF_NOBUF | LXF_NOEX },
 { LX_STR, LXF_NOBUF | LXF_NONAME }, { LX_PAIR, LXF_NOBUF | LXF_NOPOS }, { LX_FDGETC, LXF_NOBUF | LXF_NOPOS | LXF_NONAME }, { LX_PAIR, LXF_HEX | LXF_TOK | LXF_NOCOM },
};
#define NLXOPTS (sizeof LXOPTS / sizeof *LXOPTS)
/* item i of a job with `langs' ways per specification */
static const char *lx_item(unsigned kind, unsigned ways, unsigned i, char *t, struct lxopt *o) {
	unsigned n = lx_nitems(kind), s = i % n, w = i / n;
	(void) ways; *o = LXOPTS[(w * 7 + s * 5 + kind) % NLXOPTS]; return lx_spec(kind, s, t);
}
#endif
