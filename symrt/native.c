/* Native side of the harness interface, linked only into the replay binary:
 * inputs come from the file named by SYM_REPLAY ("value name" lines), a failing
 * check ends the process with status 42 (43 inside a known finding's region). */
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static struct { char n[200]; int64_t v; } in[8192]; static int nin = -1;
static struct { char n[200]; int k; } seen[8192]; static int nseen;
static int panic_ok, finding, pknown;
static void on_abort(int s) { (void)s; if (panic_ok) _exit(45); if (pknown) _exit(43); _exit(46); }
static void load(void) {
  nin = 0;
  signal(SIGABRT, on_abort);
  const char *p = getenv("SYM_REPLAY"); if (!p) return;
  FILE *f = fopen(p, "r"); if (!f) return;
  long long v; char b[256];
  while (nin < 8192 && fscanf(f, "%lld %199[^\n]\n", &v, b) == 2) { strcpy(in[nin].n, b); in[nin++].v = v; }
  fclose(f);
}
int __sym_is_symbolic_run(void) { return 0; }
int64_t __sym_var(const char *n, uint64_t len, int64_t lo, int64_t hi) {
  if (nin < 0) load();
  char b[200], c[220]; snprintf(b, sizeof b, "%.*s", (int)len, n);
  int i, k = 0;
  for (i = 0; i < nseen; i++) if (!strcmp(seen[i].n, b)) { k = seen[i].k++; break; }
  if (i == nseen) { strcpy(seen[nseen].n, b); seen[nseen++].k = 1; }
  if (k) snprintf(c, sizeof c, "%s#%d", b, k); else strcpy(c, b);
  for (i = 0; i < nin; i++) if (!strcmp(in[i].n, c)) { if (in[i].v < lo || in[i].v > hi) { fprintf(stderr, "SYM-RANGE %s\n", c); _exit(44); } return in[i].v; }
  return lo;
}
void __sym_assume(int c) { if (!c) { fprintf(stderr, "SYM-ASSUME\n"); _exit(44); } }
void __sym_check(int c, const char *l, uint64_t n, int known, const char *kl, uint64_t kn) {
  if (c) return;
  if (known) { fprintf(stderr, "SYM-FINDING %.*s: %.*s\n", (int)kn, kl, (int)n, l); finding = 1; _exit(43); }
  fprintf(stderr, "SYM-VIOLATION %.*s\n", (int)n, l); _exit(42);
}
void __sym_cover(const char *l, uint64_t n) { fprintf(stderr, "SYM-EVENT cover %.*s\n", (int)n, l); }
void __sym_obs(const char *l, uint64_t n, int64_t v) { fprintf(stderr, "SYM-EVENT obs %.*s = %lld\n", (int)n, l, (long long)v); }
void __sym_panic_known(int c, const char *l, uint64_t n) { (void)l; if (nin < 0) load(); pknown = c && n > 0; }
void __sym_panic_ok(int v) { if (nin < 0) load(); panic_ok = v; }
void __sym_end(void) { _exit(0); }
int64_t __sym_conc(int64_t v) { return v; }
int __sym_is_sym(int64_t v) { (void)v; return 0; }
int64_t __sym_arg(int64_t i) { char b[32]; snprintf(b, sizeof b, "SYM_ARG%d", (int)i); const char *p = getenv(b); return p ? atoll(p) : 0; }
int64_t __sym_unplace(int64_t v) { return v; }
uint64_t __sym_unplace_f(uint64_t v, int64_t w) { if (w == 32) { double d; memcpy(&d, &v, 8); float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } return v; }
void __sym_print(const char *l, uint64_t n) { fprintf(stderr, "[sym] %.*s\n", (int)n, l); }
void __sym_print_val(const char *l, uint64_t n, int64_t v) { fprintf(stderr, "[sym] %.*s = %lld\n", (int)n, l, (long long)v); }
void __sym_file(const char *p, uint64_t n, const char *d, uint64_t l) { (void)p; (void)n; (void)d; (void)l; }
