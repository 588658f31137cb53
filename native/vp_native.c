/* Native side of the harness interface: used to replay a counterexample of
   the solver against the real library, linked with the real GMP. */
#define _GNU_SOURCE
#include "vp.h"
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#undef malloc
typedef struct { char *k; char *v; } ent;
static ent *tab; static int ntab;
static char *labels[256]; static int cnt[256], nlab;
static long args_[32]; static int nargs;
static int seeded; static unsigned long long rs;
static FILE *dump;
static int done, allow;
static long live_gmp;

static unsigned long long rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }

static const char *lookup(const char *label, char *key) {
  int i;
  for (i = 0; i < nlab; i++) if (!strcmp(labels[i], label)) break;
  if (i == nlab) { labels[nlab++] = strdup(label); }
  sprintf(key, "%s#%d", label, cnt[i]++);
  for (i = 0; i < ntab; i++) if (!strcmp(tab[i].k, key)) return tab[i].v;
  return NULL;
}
static void pick(mpz_t z, mpz_t lo, mpz_t hi) {
  mpz_t d; mpz_init(d); mpz_sub(d, hi, lo); mpz_add_ui(d, d, 1);
  int m = rnd() % 6;
  int n = mpz_sizeinbase(d, 2), i;
  mpz_set_ui(z, 0);
  if (m == 0) { unsigned long t = rnd() % 4; mpz_add_ui(z, z, t); }
  else if (m == 1) { mpz_sub_ui(z, d, 1 + rnd() % 4); }
  else if (m == 2) { int w = 1 + rnd() % n; for (i = 0; i < w; i++) { mpz_mul_2exp(z, z, 1); mpz_add_ui(z, z, rnd() & 1); } }
  else if (m == 3) { while (n-- > 0) { unsigned b = rnd() & 1; int run = 1 + rnd() % 70; while (run-- && n >= 0) { mpz_mul_2exp(z, z, 1); mpz_add_ui(z, z, b); n--; } } }
  else for (i = 0; i < n + 64; i++) { mpz_mul_2exp(z, z, 1); mpz_add_ui(z, z, rnd() & 1); }
  mpz_mod(z, z, d); mpz_add(z, z, lo); mpz_clear(d);
}
static void getz(mpz_t z, const char *label, mpz_t lo, mpz_t hi) {
  char key[256]; const char *v = lookup(label, key);
  if (v) mpz_set_str(z, v, 10);
  else if (seeded) pick(z, lo, hi);
  else mpz_set(z, lo);
  if (dump) { gmp_fprintf(dump, "%s %Zd\n", key, z); fflush(dump); }
}
long vp_sym(const char *label, long lo, long hi) {
  mpz_t z, l, h; mpz_init(z); mpz_init_set_si(l, lo); mpz_init_set_si(h, hi);
  getz(z, label, l, h); 
  long r = mpz_get_si(z); mpz_clear(z); mpz_clear(l); mpz_clear(h);
  return r;
}
void vp_sym_z(mpz_t z, const char *label, mpz_t lo, mpz_t hi) { getz(z, label, lo, hi); }
void vp_sym_bytes(unsigned char *p, const char *label, int n) { int i; for (i = 0; i < n; i++) p[i] = vp_sym(label, 0, 255); }
static void finish(int rc) { done = 1; fflush(NULL); _exit(rc); }
void vp_assume(int c) { if (!c) { printf("ASSUME-FAIL\n"); finish(0); } }
void vp_assert(int c, const char *msg) { if (!c) { printf("ASSERT-FAIL %s\n", msg); finish(42); } }
void vp_assert_z(mpz_t a, mpz_t b, const char *msg) {
  if (mpz_cmp(a, b)) { gmp_printf("ASSERT-FAIL %s: %Zd != %Zd\n", msg, a, b); finish(42); } }
void vp_cover(const char *n) { (void) n; }
long vp_fork(long x) { return x; }
long vp_arg(int i) { return i < nargs ? args_[i] : 0; }
void vp_allow_exit(int on) { allow = on; }
int vp_is_sym(void) { return 0; }
void vp_debug(const char *s, long x) { printf("DEBUG %s %ld\n", s, x); }
void vp_debug_z(const char *s, mpz_t x) { gmp_printf("DEBUG %s %Zd\n", s, x); }
/* ---- live accounting: every block handed out by malloc to library/harness code (wrapped) and to GMP */
static long live_blocks;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int fill(void) { static int f = -1; if (f < 0) { char *s = getenv("VP_FILL"); f = s ? atoi(s) : 0xA5; } return f; }   /* what fresh memory holds; 256: as the allocator gives it */
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) { live_blocks++; if (fill() < 256) memset(p, fill(), n); } return p; }
void *__wrap_calloc(size_t a, size_t b) { live_blocks++; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (!p) live_blocks++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) live_blocks--; __real_free(p); }
static void *ga(size_t n) { live_gmp++; return __real_malloc(n); }
static void *gr(void *p, size_t o, size_t n) { (void) o; return __real_realloc(p, n); }
static void gf(void *p, size_t n) { (void) n; live_gmp--; __real_free(p); }
long vp_live(void) { return live_blocks + live_gmp; }
/* ---- memory streams */
static char *mbuf[64]; static size_t msz[64]; static FILE *mf[64]; static int nm;
FILE *vp_memfile(void) { FILE *f = open_memstream(&mbuf[nm], &msz[nm]); mf[nm++] = f; return f; }
int vp_memfile_get(FILE *f, char *buf, long n) {
  int i; fflush(f);
  for (i = 0; i < nm; i++) if (mf[i] == f) { long l = (long) msz[i]; long c = l < n - 1 ? l : n - 1; memcpy(buf, mbuf[i], c); buf[c] = 0; return l; }
  return -1;
}
void vp_virtual_file(const char *name, const char *data) { FILE *f = fopen(name, "wb"); if (f) { fwrite(data, 1, strlen(data), f); fclose(f); } }
void vp_file(const char *name, const unsigned char *data, long n) { FILE *f = fopen(name, "wb"); if (f) { fwrite(data, 1, n, f); fclose(f); } }
static void atend(void) { if (!done && !allow) { printf("UNEXPECTED-EXIT\n"); fflush(stdout); _exit(44); } }
static void onabort(int s) { if (allow) _exit(0); printf("SIGNAL %d\n", s); fflush(stdout); _exit(45); }
int main(int argc, char **argv) {
  /* vp_native MODEL|- SEED|- DUMP|- args... */
  int i; setvbuf(stdout, NULL, _IOLBF, 0);
  mp_set_memory_functions(ga, gr, gf);
  if (argc > 1 && strcmp(argv[1], "-")) {
    FILE *f = fopen(argv[1], "r"); char k[256]; static char v[100000];
    if (!f) return 3;
    tab = __real_malloc(sizeof(ent) * 100000);
    while (fscanf(f, "%255s %99999s", k, v) == 2) { tab[ntab].k = strdup(k); tab[ntab++].v = strdup(v); }
    fclose(f);
  }
  if (argc > 2 && strcmp(argv[2], "-")) { seeded = 1; rs = strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; for (i = 0; i < 8; i++) rnd(); }
  if (argc > 3 && strcmp(argv[3], "-")) dump = fopen(argv[3], "w");
  for (i = 4; i < argc && nargs < 32; i++) args_[nargs++] = atol(argv[i]);
  atexit(atend); signal(SIGABRT, onabort); signal(SIGFPE, onabort);
  vp_main();
  printf("END\n");
  finish(0);
  return 0;
}
