/* The libc surface used by libfsm, in plain C so that it is executed symbolically too.
 * Names are those of libc with an sxl_ prefix (the pass renames the calls).  I/O is to memory. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
typedef unsigned char u8;
#define NULLP ((void*)0)
void *sxl_malloc(size_t); void *sxl_realloc(void*,size_t); void sxl_free(void*); void *sx_raw_alloc(size_t);
void sxl_abort(void);
int *__errno_location(void);

void *sxl_memcpy(void *d,const void*s,size_t n){ return __builtin_memcpy(d,s,n); }
void *sxl_memmove(void *d,const void*s,size_t n){ return __builtin_memmove(d,s,n); }
void *sxl_memset(void *d,int c,size_t n){ return __builtin_memset(d,c,n); }
int sxl_memcmp(const void*a,const void*b,size_t n){ const u8*x=a,*y=b; for (size_t i=0;i<n;i++) if (x[i]!=y[i]) return (int)x[i]-(int)y[i]; return 0; }
int sxl_bcmp(const void*a,const void*b,size_t n){ return sxl_memcmp(a,b,n); }
void *sxl_memchr(const void*s,int c,size_t n){ const u8*p=s; for (size_t i=0;i<n;i++) if (p[i]==(u8)c) return (void*)(p+i); return 0; }
size_t sxl_strlen(const char*s){ size_t n=0; while (s[n]) n++; return n; }
size_t sxl_strnlen(const char*s,size_t m){ size_t n=0; while (n<m&&s[n]) n++; return n; }
int sxl_strcmp(const char*a,const char*b){ for (;;a++,b++) { u8 x=*a,y=*b; if (x!=y) return (int)x-(int)y; if (!x) return 0; } }
int sxl_strncmp(const char*a,const char*b,size_t n){ for (;n;a++,b++,n--) { u8 x=*a,y=*b; if (x!=y) return (int)x-(int)y; if (!x) return 0; } return 0; }
int sxl_tolower(int c){ return (c>='A'&&c<='Z')? c+32:c; }
int sxl_toupper(int c){ return (c>='a'&&c<='z')? c-32:c; }
int sxl_strcasecmp(const char*a,const char*b){ for (;;a++,b++) { int x=sxl_tolower((u8)*a),y=sxl_tolower((u8)*b); if (x!=y) return x-y; if (!x) return 0; } }
int sxl_strncasecmp(const char*a,const char*b,size_t n){ for (;n;a++,b++,n--) { int x=sxl_tolower((u8)*a),y=sxl_tolower((u8)*b); if (x!=y) return x-y; if (!x) return 0; } return 0; }
char *sxl_strchr(const char*s,int c){ for (;;s++) { if (*s==(char)c) return (char*)s; if (!*s) return 0; } }
char *sxl_strrchr(const char*s,int c){ const char*r=0; for (;;s++) { if (*s==(char)c) r=s; if (!*s) return (char*)r; } }
char *sxl_strcpy(char*d,const char*s){ char*r=d; while ((*d++=*s++)); return r; }
char *sxl_stpcpy(char*d,const char*s){ while ((*d=*s)) d++,s++; return d; }
char *sxl_strncpy(char*d,const char*s,size_t n){ size_t i=0; for (;i<n&&s[i];i++) d[i]=s[i]; for (;i<n;i++) d[i]=0; return d; }
char *sxl_strcat(char*d,const char*s){ sxl_strcpy(d+sxl_strlen(d),s); return d; }
char *sxl_strncat(char*d,const char*s,size_t n){ char*p=d+sxl_strlen(d); size_t i=0; for (;i<n&&s[i];i++) p[i]=s[i]; p[i]=0; return d; }
char *sxl_strstr(const char*h,const char*n){ size_t l=sxl_strlen(n); for (;;h++) { if (!sxl_strncmp(h,n,l)) return (char*)h; if (!*h) return 0; } }
size_t sxl_strspn(const char*s,const char*a){ size_t n=0; while (s[n]&&sxl_strchr(a,s[n])) n++; return n; }
size_t sxl_strcspn(const char*s,const char*a){ size_t n=0; while (s[n]&&!sxl_strchr(a,s[n])) n++; return n; }
char *sxl_strpbrk(const char*s,const char*a){ s+=sxl_strcspn(s,a); return *s?(char*)s:0; }
static char *tokp; char *sxl_strtok(char*s,const char*d){ if (s) tokp=s; if (!tokp) return 0; tokp+=sxl_strspn(tokp,d); if (!*tokp) { tokp=0; return 0; } s=tokp; tokp+=sxl_strcspn(tokp,d); if (*tokp) *tokp++=0; else tokp=0; return s; }
char *sxl_strdup(const char*s){ size_t n=sxl_strlen(s)+1; char*p=sxl_malloc(n); if (p) __builtin_memcpy(p,s,n); return p; }
char *sxl_strndup(const char*s,size_t m){ size_t n=sxl_strnlen(s,m); char*p=sxl_malloc(n+1); if (p) { __builtin_memcpy(p,s,n); p[n]=0; } return p; }
int sxl_isdigit(int c){ return c>='0'&&c<='9'; }
int sxl_isupper(int c){ return c>='A'&&c<='Z'; }
int sxl_islower(int c){ return c>='a'&&c<='z'; }
int sxl_isalpha(int c){ return sxl_isupper(c)|sxl_islower(c); }
int sxl_isalnum(int c){ return sxl_isalpha(c)|sxl_isdigit(c); }
int sxl_isblank(int c){ return c==' '||c=='\t'; }
int sxl_iscntrl(int c){ return (c>=0&&c<32)||c==127; }
int sxl_isprint(int c){ return c>=32&&c<127; }
int sxl_isgraph(int c){ return c>32&&c<127; }
int sxl_isspace(int c){ return c==' '||(c>=9&&c<=13); }
int sxl_ispunct(int c){ return sxl_isgraph(c)&!sxl_isalnum(c); }
int sxl_isxdigit(int c){ return sxl_isdigit(c)|(c>='a'&&c<='f')|(c>='A'&&c<='F'); }

static unsigned long long strtox(const char*s,char**e,int base,int sgn,unsigned long long maxu){
  const char*p=s; int neg=0,any=0,ov=0; unsigned long long v=0;
  while (sxl_isspace((u8)*p)) p++;
  if (*p=='+'||*p=='-') { neg=*p=='-'; p++; }
  if ((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&sxl_isxdigit((u8)p[2])) { p+=2; base=16; }
  else if (base==0) base = *p=='0'? 8:10;
  for (;;p++) { int d; u8 c=*p; if (c>='0'&&c<='9') d=c-'0'; else if (c>='a'&&c<='z') d=c-'a'+10; else if (c>='A'&&c<='Z') d=c-'A'+10; else break; if (d>=base) break; any=1; if (v>(~0ULL-(unsigned)d)/(unsigned)base) ov=1; else v=v*(unsigned)base+(unsigned)d; }
  if (e) *e=(char*)(any?p:s);
  if (sgn) { unsigned long long lim = neg? (1ULL<<63) : (1ULL<<63)-1; if (ov||v>lim) { *__errno_location()=34; return neg? (1ULL<<63):(1ULL<<63)-1; } }
  else if (ov) { *__errno_location()=34; return ~0ULL; }
  return neg? 0-v: v; }
unsigned long sxl_strtoul(const char*s,char**e,int b){ return strtox(s,e,b,0,0); }
unsigned long long sxl_strtoull(const char*s,char**e,int b){ return strtox(s,e,b,0,0); }
long sxl_strtol(const char*s,char**e,int b){ return (long)strtox(s,e,b,1,0); }
long long sxl_strtoll(const char*s,char**e,int b){ return (long long)strtox(s,e,b,1,0); }
int sxl_atoi(const char*s){ return (int)sxl_strtol(s,0,10); }

/* merge sort would need memory; insertion sort for small n, heap sort otherwise */
static void swp(u8*a,u8*b,size_t z){ for (size_t i=0;i<z;i++) { u8 t=a[i]; a[i]=b[i]; b[i]=t; } }
void sxl_qsort(void*base,size_t n,size_t z,int(*cmp)(const void*,const void*)){ u8*b=base; if (n<2) return;
  if (n<=16) { for (size_t i=1;i<n;i++) for (size_t j=i;j>0&&cmp(b+(j-1)*z,b+j*z)>0;j--) swp(b+(j-1)*z,b+j*z,z); return; }
  for (size_t s=n/2;s-->0;) { size_t r=s; for (;;) { size_t c=2*r+1; if (c>=n) break; if (c+1<n&&cmp(b+c*z,b+(c+1)*z)<0) c++; if (cmp(b+r*z,b+c*z)>=0) break; swp(b+r*z,b+c*z,z); r=c; } }
  for (size_t e=n-1;e>0;e--) { swp(b,b+e*z,z); size_t r=0; for (;;) { size_t c=2*r+1; if (c>=e) break; if (c+1<e&&cmp(b+c*z,b+(c+1)*z)<0) c++; if (cmp(b+r*z,b+c*z)>=0) break; swp(b+r*z,b+c*z,z); r=c; } } }
void *sxl_bsearch(const void*k,const void*base,size_t n,size_t z,int(*cmp)(const void*,const void*)){ const u8*b=base; size_t lo=0,hi=n; while (lo<hi) { size_t m=lo+(hi-lo)/2; int c=cmp(k,b+m*z); if (!c) return (void*)(b+m*z); if (c<0) hi=m; else lo=m+1; } return 0; }

/* ---- stdio in memory ---- */
#define MAGIC 0x53584649
typedef struct sxfile { int magic; int mode; u8*buf; size_t n,cap,pos; int unget; int eof,err; } F;
static F f_in={MAGIC,1,0,0,0,0,-1,0,0}, f_out={MAGIC,2,0,0,0,0,-1,0,0}, f_err={MAGIC,2,0,0,0,0,-1,0,0};
F *sxl_stdin=&f_in,*sxl_stdout=&f_out,*sxl_stderr=&f_err;
static int wr(F*f,u8 c){ if (f->n+1>=f->cap) { size_t nc=f->cap?f->cap*2:1024; u8*b=sx_raw_alloc(nc); if (f->n) __builtin_memcpy(b,f->buf,f->n); f->buf=b; f->cap=nc; } f->buf[f->n++]=c; f->buf[f->n]=0; return c; }
F *sx_mem_reader(const void*b,size_t n){ F*f=sx_raw_alloc(sizeof*f); f->magic=MAGIC; f->mode=1; f->buf=sx_raw_alloc(n+1); __builtin_memcpy(f->buf,b,n); f->n=n; f->unget=-1; return f; }
F *sx_mem_writer(void){ F*f=sx_raw_alloc(sizeof*f); f->magic=MAGIC; f->mode=2; f->unget=-1; return f; }
const char *sx_mem_data(F*f,size_t*n){ if (!f->buf) { wr(f,0); f->n=0; f->buf[0]=0; } if (n) *n=f->n; return (const char*)f->buf; }
void sx_mem_close(F*f){ (void)f; }
int sxl_fgetc(F*f){ if (f->unget>=0) { int c=f->unget; f->unget=-1; return c; } if (f->pos<f->n) return f->buf[f->pos++]; f->eof=1; return -1; }
int sxl_getc(F*f){ return sxl_fgetc(f); } int sxl_getchar(void){ return sxl_fgetc(sxl_stdin); }
int sxl_ungetc(int c,F*f){ if (c<0) return -1; f->unget=c&255; f->eof=0; return c; }
char *sxl_fgets(char*s,int n,F*f){ int i=0; while (i<n-1) { int c=sxl_fgetc(f); if (c<0) break; s[i++]=c; if (c=='\n') break; } if (!i) return 0; s[i]=0; return s; }
size_t sxl_fread(void*p,size_t z,size_t n,F*f){ u8*d=p; size_t i; if (!z) return 0; for (i=0;i<z*n;i++) { int c=sxl_fgetc(f); if (c<0) break; d[i]=c; } return i/z; }
int sxl_fputc(int c,F*f){ return wr(f,(u8)c); } int sxl_putc(int c,F*f){ return wr(f,(u8)c); } int sxl_putchar(int c){ return wr(sxl_stdout,(u8)c); }
int sxl_fputs(const char*s,F*f){ for (;*s;s++) wr(f,*s); return 1; }
int sxl_puts(const char*s){ sxl_fputs(s,sxl_stdout); wr(sxl_stdout,'\n'); return 1; }
size_t sxl_fwrite(const void*p,size_t z,size_t n,F*f){ const u8*s=p; for (size_t i=0;i<z*n;i++) wr(f,s[i]); return n; }
int sxl_fclose(F*f){ (void)f; return 0; } int sxl_fflush(F*f){ (void)f; return 0; }
int sxl_feof(F*f){ return f->eof; } int sxl_ferror(F*f){ return f->err; } void sxl_rewind(F*f){ f->pos=0; f->eof=0; f->unget=-1; if (f->mode==3) f->mode=1; } void sxl_clearerr(F*f){ f->eof=f->err=0; }
int sxl_setvbuf(F*f,char*b,int m,size_t n){ return 0; }
F *sxl_tmpfile(void){ F*f=sx_mem_writer(); return f; }
F *sxl_fopen(const char*n,const char*m){ *__errno_location()=2; return 0; }
int sxl_fileno(F*f){ return f==sxl_stdin?0:f==sxl_stdout?1:2; } int sxl_isatty(int fd){ return 0; }

struct out { F*f; char*s; size_t n,cap; };
static void oc(struct out*o,int c){ if (o->f) wr(o->f,(u8)c); else { if (o->n+1<o->cap) o->s[o->n]=c; } o->n++; }
static void num(struct out*o,unsigned long long v,int neg,int base,int up,int width,int left,int zero,int prec,int alt,int plus){
  char b[70]; int n=0; if (v==0&&prec!=0) b[n++]='0'; else if (v!=0) while (v) { int d=v%base; b[n++]=(char)(d<10?'0'+d:(up?'A':'a')+d-10); v/=base; }
  while (n<prec&&n<64) b[n++]='0'; int sl=(neg||plus)?1:0; int al=(alt&&base==16)?2:0; if (alt&&base==8&&(n==0||b[n-1]!='0')) b[n++]='0';
  int tot=n+sl+al; if (!left&&!(zero&&prec<0)) while (tot<width) { oc(o,' '); width--; }
  if (neg) oc(o,'-'); else if (plus) oc(o,'+'); if (al) { oc(o,'0'); oc(o,up?'X':'x'); }
  if (!left&&zero&&prec<0) while (tot<width) { oc(o,'0'); width--; }
  while (n) { oc(o,b[--n]); } if (left) while (tot<width) { oc(o,' '); width--; } }
static int fmt(struct out*o,const char*f,va_list ap){
  for (;*f;f++) { if (*f!='%') { oc(o,*f); continue; } f++;
    int left=0,zero=0,alt=0,plus=0,width=0,prec=-1,lm=0;
    for (;;f++) { if (*f=='-') left=1; else if (*f=='0') zero=1; else if (*f=='#') alt=1; else if (*f=='+') plus=1; else if (*f==' ') ; else break; }
    if (*f=='*') { width=va_arg(ap,int); if (width<0) { left=1; width=-width; } f++; } else while (*f>='0'&&*f<='9') width=width*10+*f++-'0';
    if (*f=='.') { f++; prec=0; if (*f=='*') { prec=va_arg(ap,int); f++; } else while (*f>='0'&&*f<='9') prec=prec*10+*f++-'0'; }
    for (;;f++) { if (*f=='l') lm++; else if (*f=='z'||*f=='j'||*f=='t') lm=2; else if (*f=='h') lm--; else break; }
    switch (*f) {
    case '%': oc(o,'%'); break;
    case 'c': { int c=va_arg(ap,int); if (!left) while (width-->1) oc(o,' '); oc(o,c); if (left) while (width-->1) oc(o,' '); break; }
    case 's': { const char*s=va_arg(ap,const char*); if (!s) s="(null)"; size_t n=prec>=0? sxl_strnlen(s,prec): sxl_strlen(s); if (!left) for (long i=n;i<width;i++) oc(o,' '); for (size_t i=0;i<n;i++) oc(o,s[i]); if (left) for (long i=n;i<width;i++) oc(o,' '); break; }
    case 'd': case 'i': { long long v= lm>0? va_arg(ap,long): va_arg(ap,int); if (lm==-1) v=(short)v; if (lm==-2) v=(signed char)v; num(o, v<0? 0ULL-(unsigned long long)v: (unsigned long long)v, v<0,10,0,width,left,zero,prec,alt,plus); break; }
    case 'u': case 'x': case 'X': case 'o': { unsigned long long v= lm>0? va_arg(ap,unsigned long): va_arg(ap,unsigned); if (lm==-1) v=(unsigned short)v; if (lm==-2) v=(u8)v; num(o,v,0,*f=='u'?10:*f=='o'?8:16,*f=='X',width,left,zero,prec,alt&&v,0); break; }
    case 'p': num(o,(unsigned long long)va_arg(ap,void*),0,16,0,width,left,0,-1,1,0); break;
    case 'g': case 'f': case 'e': { (void)va_arg(ap,double); oc(o,'0'); break; }
    default: sxl_abort(); }
  }
  return (int)o->n; }
int sxl_vfprintf(F*f,const char*s,va_list ap){ struct out o={f,0,0,0}; return fmt(&o,s,ap); }
int sxl_fprintf(F*f,const char*s,...){ va_list ap; va_start(ap,s); int r=sxl_vfprintf(f,s,ap); va_end(ap); return r; }
int sxl_printf(const char*s,...){ va_list ap; va_start(ap,s); int r=sxl_vfprintf(sxl_stdout,s,ap); va_end(ap); return r; }
int sxl_vprintf(const char*s,va_list ap){ return sxl_vfprintf(sxl_stdout,s,ap); }
int sxl_vsnprintf(char*b,size_t n,const char*s,va_list ap){ struct out o={0,b,0,n}; int r=fmt(&o,s,ap); if (n) b[o.n<n?o.n:n-1]=0; return r; }
int sxl_snprintf(char*b,size_t n,const char*s,...){ va_list ap; va_start(ap,s); int r=sxl_vsnprintf(b,n,s,ap); va_end(ap); return r; }
int sxl_sprintf(char*b,const char*s,...){ va_list ap; va_start(ap,s); int r=sxl_vsnprintf(b,1u<<30,s,ap); va_end(ap); return r; }
int sxl_vsprintf(char*b,const char*s,va_list ap){ return sxl_vsnprintf(b,1u<<30,s,ap); }
void sxl_perror(const char*s){ sxl_fprintf(sxl_stderr,"%s: error\n",s); }
char *sxl_strerror(int e){ return "error"; }
static unsigned long rs=1; static int rsym; unsigned char sx_byte(const char *); void sx_symbolic_rand(int on){ rsym=on; } int sxl_rand(void){ if (rsym) return sx_byte("rand"); rs=rs*6364136223846793005UL+1442695040888963407UL; return (int)((rs>>33)&0x7fffffff); } void sxl_srand(unsigned s){ rs=s; }
long sxl_random(void){ return sxl_rand(); } void sxl_srandom(unsigned s){ rs=s; }
long sxl_time(long*t){ if (t) *t=0; return 0; }
char *sxl_getenv(const char*n){ return 0; }
int sxl_clock_gettime(int c,void*t){ __builtin_memset(t,0,16); return 0; } int sxl_gettimeofday(void*t,void*z){ __builtin_memset(t,0,16); return 0; } int sxl_getrusage(int w,void*r){ __builtin_memset(r,0,144); return 0; }
/* POSIX getopt, single-character options */
char *sxl_optarg; int sxl_optind=1,sxl_opterr=1,sxl_optopt; static int optpos;
int sxl_getopt(int argc,char*const argv[],const char*os){ char*a; if (sxl_optind>=argc) return -1; a=argv[sxl_optind]; if (!optpos) { if (!a||a[0]!='-'||!a[1]) return -1; if (a[1]=='-'&&!a[2]) { sxl_optind++; return -1; } optpos=1; }
  int c=(u8)a[optpos++]; const char*p= c==':'?0:sxl_strchr(os,c); int end=!a[optpos]; if (!p) { sxl_optopt=c; if (end) { sxl_optind++; optpos=0; } return '?'; }
  if (p[1]==':') { if (!end) sxl_optarg=a+optpos; else { sxl_optind++; if (sxl_optind>=argc) { optpos=0; sxl_optopt=c; return os[0]==':'?':':'?'; } sxl_optarg=argv[sxl_optind]; } sxl_optind++; optpos=0; } else if (end) { sxl_optind++; optpos=0; }
  return c; }
