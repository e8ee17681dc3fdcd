#ifndef LXW_H
#define LXW_H
#include <stddef.h>
enum { R_EOF = 100, R_ERROR, R_UNKNOWN, R_OTHER };
struct lxpos { unsigned byte, line, col; };
struct lxw {
	unsigned ntok, io, flags;
	void (*init)(const unsigned char *buf, size_t n, size_t fixed); /* buf: n bytes (and a NUL when io is a string) */
	int (*next)(void);
	void (*pos)(struct lxpos *, struct lxpos *);
	const char *(*text)(size_t *);
	const char *(*name)(int);
	const char *(*example)(int);
	void (*done)(void);
};
#endif
