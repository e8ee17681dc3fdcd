/* Native implementation of the harness API: replays one assignment of the inputs. */
#define _GNU_SOURCE
#include "sx.h"
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
static unsigned char in[65536]; static size_t nin, pos;
static int np; static char pn[64][64]; static long pv[64];
static long live; static int armed, injected; static unsigned failk, idx, failmax;
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); void __real_free(void*); char *__real_strdup(const char*); char *__real_strndup(const char*,size_t);
static int verbose;
static int failhere(void){ if (!armed) return 0; unsigned i=idx++; if (i>=failmax||injected) return 0; if (i==failk) { injected=1; return 1; } return 0; }
void *__wrap_malloc(size_t n){ if (failhere()) return 0; void*p=__real_malloc(n); if (p) { live++; memset(p,0xBE,n); } return p; }
void *__wrap_calloc(size_t a,size_t b){ if (failhere()) return 0; void*p=__real_calloc(a,b); if (p) live++; return p; }
void *__wrap_realloc(void*q,size_t n){ if (q&&n==0) { __wrap_malloc(0) ; live--; __real_free(q); live--; return 0; } if (failhere()) return 0; void*p=__real_realloc(q,n); if (p&&!q) { live++; } return p; }
void __wrap_free(void*p){ if (p) live--; __real_free(p); }
char *__wrap_strdup(const char*s){ size_t n=strlen(s)+1; char*p=__wrap_malloc(n); if (p) memcpy(p,s,n); return p; }
char *__wrap_strndup(const char*s,size_t m){ size_t n=strnlen(s,m); char*p=__wrap_malloc(n+1); if (p) { memcpy(p,s,n); p[n]=0; } return p; }
static unsigned char next(const char*name,unsigned char d){ unsigned char v= pos<nin? in[pos]: d; pos++; if (verbose) fprintf(stderr,"  %s = %u\n",name,v); return v; }
unsigned char sx_byte(const char*n){ return next(n,0); }
unsigned sx_range(const char*n,unsigned lo,unsigned hi){ unsigned v=next(n,lo); if (v<lo||v>hi) v=lo; return v; }
unsigned sx_choice(const char*n,unsigned k){ if (k<=1) return 0; unsigned v=next(n,0); if (v>=k) v=0; return v; }
int sx_fork(int v){ return v; }
void sx_assume_(int c){ if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(0); } }
void sx_assert_(int c,const char*m){ if (!c) { printf("REPLAY-VIOLATION %s\n",m); fflush(stdout); _exit(42); } }
void sx_fail(const char*m){ sx_assert_(0,m); }
void sx_reach(const char*t){ (void)t; }
long sx_param(const char*n,long d){ for (int i=0;i<np;i++) if (!strcmp(pn[i],n)) return pv[i]; return d; }
void sx_log(const char*f,const char*s,long v){ if (verbose) { fprintf(stderr,f,s,v); fputc('\n',stderr);} }
long sx_live_allocs(void){ return live; }
void sx_arm_alloc_failure(unsigned m){ unsigned lo=next("allocfail.lo",0xff),hi=next("allocfail.hi",0xff); failk=lo|hi<<8; armed=1; injected=0; idx=0; failmax=m; }
int sx_disarm_alloc_failure(void){ armed=0; return injected; }
static int rsym; static unsigned long rs=1; void sx_symbolic_rand(int on){ rsym=on; } int __wrap_rand(void){ if (rsym) return sx_byte("rand"); rs=rs*6364136223846793005UL+1442695040888963407UL; return (int)((rs>>33)&0x7fffffff); } void __wrap_srand(unsigned s){ rs=s; }
static int xok; void sx_allow_exit(int on){ xok=on; } void __wrap_exit(int c){ (void)c; if (!xok) { printf("REPLAY-VIOLATION exit() called by the library\n"); fflush(stdout); _exit(42); } fflush(stdout); _exit(0); }
void sx_symbolic_garbage(int on){ (void)on; } void sx_no_uninit_branch(int on){ (void)on; }
void *sx_raw_alloc(size_t n){ return __real_calloc(1,n?n:1); }
struct w { FILE*f; char*b; size_t n; }; static struct w ws[256]; static int nw;
FILE *sx_mem_reader(const void*b,size_t n){ char*c=sx_raw_alloc(n+1); memcpy(c,b,n); if (!n) { FILE*f=tmpfile(); return f; } return fmemopen(c,n,"r"); }
FILE *sx_mem_writer(void){ struct w*x=&ws[nw++]; x->f=open_memstream(&x->b,&x->n); return x->f; }
const char *sx_mem_data(FILE*f,size_t*n){ for (int i=0;i<nw;i++) if (ws[i].f==f) { fflush(f); if (n) *n=ws[i].n; char*c=sx_raw_alloc(ws[i].n+1); memcpy(c,ws[i].b,ws[i].n); return c; } return ""; }
void sx_mem_close(FILE*f){ (void)f; }
static void onsig(int s){ const char*m="REPLAY-VIOLATION crash\n"; if (s==SIGALRM) m="REPLAY-VIOLATION hang\n"; (void)!write(1,m,strlen(m)); _exit(43); }
int main(int argc,char**argv){ const char*h="main"; const char*f=0; for (int i=1;i<argc;i++) { char*e; if (!strcmp(argv[i],"-v")) verbose=1; else if (!strcmp(argv[i],"-i")) f=argv[++i]; else if ((e=strchr(argv[i],'='))) { snprintf(pn[np],64,"%.*s",(int)(e-argv[i]),argv[i]); pv[np++]=atol(e+1); } else h=argv[i]; }
  if (f) { FILE*x=fopen(f,"r"); int v; while (x&&fscanf(x,"%d",&v)==1) in[nin++]=v; if (x) fclose(x); }
#ifndef SX_ASAN
  signal(SIGSEGV,onsig); signal(SIGBUS,onsig); signal(SIGFPE,onsig);
#endif
  signal(SIGABRT,onsig); signal(SIGALRM,onsig); alarm(100);
  char s[128]; snprintf(s,sizeof s,"h_%s",h); void(*e)(void)=(void(*)(void))dlsym(RTLD_DEFAULT,s); if (!e) { fprintf(stderr,"no harness %s\n",s); return 2; }
  e(); printf("REPLAY-OK\n"); return 0; }
