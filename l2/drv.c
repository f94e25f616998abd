/* Runs units over the input vectors and prints hashes of what they did.
   usage: drv TABLEFILTER < items ; each item line: "<unit index> <env or ->" */
#include "l2.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/wait.h>
struct ent { const char *name; void (*f)(IN *); };
extern struct ent table[];
extern int ntable;
static unsigned long long H, TR; static long calls; static int verbose; static sigjmp_buf jb;
static void mix(unsigned long long x) { H = (H ^ x) * 1099511628211ULL; H ^= H >> 29; }
static void lim(void) { if (++calls > 3000) siglongjmp(jb, 100); }
void ob(long long x) { lim(); if (verbose) printf(" ob(%lld)", x); mix(1); mix((unsigned long long)x); }
void od(double d) { unsigned long long b; lim(); if (verbose) printf(" od(%g)", d); if (d != d) b = 0x7ff8; else if (d == 0) b = 0; else memcpy(&b, &d, 8); mix(2); mix(b); }
static int hit;
static void t(int k) { lim(); if (k == 990) { hit = 1; return; } if (verbose) printf(" t%d", k); TR += (unsigned long long)(k + 1) * 0x9E3779B97F4A7C15ULL; }
int ti(int k, int x) { t(k); return x; } unsigned tu(int k, unsigned x) { t(k); return x; } long tl(int k, long x) { t(k); return x; }
double td(int k, double x) { t(k); return x; } float tf(int k, float x) { t(k); return x; } bool tb(int k, bool x) { t(k); return x; }
int *tp(int k, int *x) { t(k); return x; } double *tdp(int k, double *x) { t(k); return x; } unsigned *tup(int k, unsigned *x) { t(k); return x; }
long long zi(long long x) { return x; } double zd(double x) { return x; } void nop(void) { mix(77); }
static void onsig(int s) { siglongjmp(jb, s); }
static struct { char pad0[65536]; IN in; char pad1[65536]; } G;
static const int A[][3] = {{0, 0, 0}, {1, 0, 1}, {0, 1, 2}, {1, 1, 0}, {-1, 1, 2}, {2, -1, 1}, {5, 3, 7}, {3, 5, -2}, {-7, 2, 1}, {100, 7, 3}, {6, 6, 6}, {13, -4, 2}, {3, 2, 1}, {-4, 1, 2}};
#define WIDE 12 /* inputs from here on have values that need more than 32 (16, 8) bits */
static void fill(int k) {
  IN *p = &G.in; int a = A[k][0], b = A[k][1], c = A[k][2];
  memset(&G, 0, sizeof G);
  p->i0 = a; p->i1 = b; p->i2 = c; p->u0 = (unsigned)(a < 0 ? -a : a) + 0u; p->u1 = (unsigned)(b + 5); p->c0 = (signed char)a; p->c1 = (signed char)b;
  p->k0 = (unsigned char)(b + 3); p->s0 = (short)(a * 3); p->h0 = (unsigned short)(c + 9); p->l0 = a * 11L; p->m0 = (unsigned long)(a + 20);
  p->q0 = b * 5LL; p->w0 = (unsigned long long)(c + 30); p->b0 = a > 0; p->b1 = b > 0; p->f0 = (float)a / 2; p->f1 = (float)b; p->d0 = a * 1.5; p->d1 = b + .25;
  p->v0 = a; p->v1 = (unsigned)(b + 8); p->e0 = c == 2 ? EC : c == 1 ? EB : EA; p->bf.bu = (unsigned)(a & 31); p->bf.bi = b; p->bf.plain = 3;
  for (int i = 0; i < 6; i++) p->arr[i] = a + i; for (int i = 0; i < 4; i++) p->darr[i] = b + i; p->ld0 = a;
  if (k >= WIDE) { p->l0 = a * (1L << 40); p->m0 = 1UL << (36 + k); p->q0 = b * (1LL << 33); p->w0 = 5ULL << 60; p->u0 = 1u << 31; p->h0 = 0xff00; p->s0 = (short)(a * 256); p->k0 = 0x80; p->i2 = c << 16; p->d0 = .5; p->f0 = .25f; p->v1 = 3u << 16; }
}
static void hashin(void) {
  IN *p = &G.in; int v = verbose; verbose = 0; calls = 0;
  ob(p->i0); ob(p->i1); ob(p->i2); ob(p->u0); ob(p->u1); ob(p->c0); ob(p->c1); ob(p->k0); ob(p->s0); ob(p->h0); ob(p->l0); ob((long long)p->m0); ob(p->q0); ob((long long)p->w0);
  ob(*(unsigned char *)&p->b0); ob(*(unsigned char *)&p->b1); od(p->f0); od(p->f1); od(p->d0); od(p->d1); ob(p->v0); ob(p->v1); ob(p->e0); ob(p->bf.bu); ob(p->bf.bi); ob(p->bf.plain);
  for (int i = 0; i < 6; i++) ob(p->arr[i]); for (int i = 0; i < 4; i++) od(p->darr[i]); od((double)p->ld0); verbose = v;
  if (v) printf(" | i0=%d i1=%d i2=%d u0=%u", p->i0, p->i1, p->i2, p->u0);
}
static void run(int i, int reps) {
  for (int r = 0; r < reps; r++) {
    for (int k = 0; k < (getenv("L2_NARROW") ? WIDE : (int)(sizeof A / sizeof A[0])); k++) {
      fill(k); calls = 0; H = 1469598103934665603ULL; TR = 0;
      if (verbose) printf("\n  in(%d,%d,%d):", A[k][0], A[k][1], A[k][2]);
      struct itimerval it = {{0, 0}, {0, 400000}}, off = {{0, 0}, {0, 0}};
      int s = sigsetjmp(jb, 1);
      if (!s) { setitimer(ITIMER_REAL, &it, 0); table[i].f(&G.in); setitimer(ITIMER_REAL, &off, 0); hashin(); }
      else { setitimer(ITIMER_REAL, &off, 0); if (verbose) printf(" SIG%d", s); mix(1000 + (unsigned)s); if (!verbose && (s == SIGALRM || s == 100)) { printf(" L"); break; } if (!verbose && s == SIGFPE) { printf(" U"); continue; } }
      if (!verbose) printf(" %llx:%llx", H & 0xffffffffffffULL, TR & 0xffffffffULL);
    }
    if (hit && getenv("L2_HIT")) printf(" !");
    if (!verbose) printf(" ;");
  }
  printf("\n");
}
int main(int argc, char **argv) {
  char env[4096]; int idx, reps;
  verbose = argc > 1 && !strcmp(argv[1], "-v");
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  static char stk[1 << 16]; stack_t ss = {.ss_sp = stk, .ss_size = sizeof stk}; sigaltstack(&ss, 0);
  int sg[] = {SIGFPE, SIGSEGV, SIGBUS, SIGALRM, SIGILL, SIGTRAP, SIGABRT};
  for (int i = 0; i < 7; i++) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER | SA_ONSTACK; sigaction(sg[i], &sa, 0); }
  char line[8192]; int tag = 0;
  char *unset = getenv("L2_KEEPENV");
  while (fgets(line, sizeof line, stdin)) {
    if (sscanf(line, "%d %d %4000s", &idx, &reps, env) != 3) continue;
    fflush(stdout);
    pid_t c = fork();
    if (c == 0) {
      if (strcmp(env, "-")) setenv("DREDD_ENABLED_MUTATION", !strcmp(env, "EMPTY") ? "" : env, 1); else if (!unset) unsetenv("DREDD_ENABLED_MUTATION");
      if (getenv("L2_TRACK")) { char b[4200]; snprintf(b, sizeof b, "%s/%d", getenv("L2_TRACK"), tag); setenv("DREDD_MUTANT_TRACKING_FILE", b, 1); }
      printf("%d", tag); run(idx, reps); fflush(stdout); _exit(0);
    }
    int st; waitpid(c, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) printf("%d DIED%d\n", tag, st);
    tag++;
  }
  return 0;
}
