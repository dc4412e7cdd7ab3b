/* Runtime of the stand-in OpenCL device: buffers in one arena, kernels instrumented by clang
   (kernel-address outline callbacks + UBSan) call back here for every memory access. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/resource.h>

#define ARENA (1ull << 31)
#define GAP 65536ull
#define MAXBUF 4096
typedef struct { uint64_t base, size; int flags, live; } Buf;     /* flags: 1 kernels may read, 2 kernels may write */
static unsigned char *arena, *init_;
static uint32_t *sw, *sr;                                       /* last writer / reader of every byte */
static uint64_t top;
static Buf buf[MAXBUF];
static int nbuf;
static uint32_t launch = 1, item;
static size_t gid[3], gsz[3], lsz[3];
static char rep[16][256]; static int nrep; static uint64_t totrep;
static const char *kname = "?";
static jmp_buf out; static int running;
static uint64_t nload, nstore, nuninit;
static char *stk;

static void report(const char *kind, const char *fmt, uint64_t a, uint64_t b) {
  char t[256]; int n = snprintf(t, 200, "%s|%s|", kind, kname);
  totrep++;
  for (int i = 0; i < nrep; i++) if (!strncmp(rep[i], t, n)) return;
  if (nrep < 16) { snprintf(t + n, 256 - n, fmt, (unsigned long long)a, (unsigned long long)b); memcpy(rep[nrep++], t, 256); }
}
int vm_reports(void) { return nrep; }
const char *vm_report(int i) { return rep[i]; }
void vm_clear(void) { nrep = 0; totrep = 0; nload = nstore = nuninit = 0; }
void vm_stats(uint64_t *s) { s[0] = nload; s[1] = nstore; s[2] = nuninit; s[3] = totrep; }

static void setup(void) {
  if (arena) return;
  int p = PROT_READ | PROT_WRITE, f = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
  arena = mmap(0, ARENA, p, f, -1, 0); init_ = mmap(0, ARENA, p, f, -1, 0);
  sw = mmap(0, ARENA * 4, p, f, -1, 0); sr = mmap(0, ARENA * 4, p, f, -1, 0);
  top = GAP;
}
/* give everything back; every buffer of before is dead */
void vm_reset(void) {
  setup();
  madvise(arena, top, MADV_DONTNEED); madvise(init_, top, MADV_DONTNEED); madvise(sw, top * 4, MADV_DONTNEED); madvise(sr, top * 4, MADV_DONTNEED);
  top = GAP; nbuf = 0; launch = 1;
}
uint64_t vm_used(void) { return top; }
int vm_alloc(uint64_t size, int flags) {
  setup();
  if (nbuf >= MAXBUF || top + size + 2 * GAP > ARENA) return -1;
  buf[nbuf] = (Buf){ (uint64_t)arena + top, size, flags, 1 };
  memset(arena + top - 4096, 0x5a, 4096); memset(arena + top + size, 0x5a, 4096);
  top += (size + GAP + 4095) & ~4095ull;
  return nbuf++;
}
void *vm_ptr(int b) { return (void *)buf[b].base; }
void vm_free(int b) { buf[b].live = 0; }
void vm_fill(int b, const unsigned char *pat, uint64_t n, uint64_t off, uint64_t size, int init) {
  unsigned char *p = (unsigned char *)buf[b].base + off;
  for (uint64_t i = 0; i < size; i++) p[i] = pat[i % n];
  if (init) memset(init_ + (p - arena), 1, size);
}
void vm_write(int b, const void *src, uint64_t off, uint64_t size) {
  unsigned char *p = (unsigned char *)buf[b].base + off; memcpy(p, src, size); memset(init_ + (p - arena), 1, size);
}
uint64_t vm_uninit(int b, uint64_t off, uint64_t size) {
  uint64_t n = 0; unsigned char *p = init_ + (buf[b].base + off - (uint64_t)arena);
  for (uint64_t i = 0; i < size; i++) n += !p[i];
  return n;
}

static int which(uint64_t a) {
  int lo = 0, hi = nbuf - 1, r = -1;
  while (lo <= hi) { int m = (lo + hi) / 2; if (buf[m].base <= a) { r = m; lo = m + 1; } else hi = m - 1; }
  return r;
}
static void access_(uint64_t a, uint64_t n, int st) {
  if (!running) return;
  uint64_t A = (uint64_t)arena;
  if (a < A || a >= A + ARENA) {
    char here; int64_t d = (char *)a - &here;
    if (d > -(1 << 24) && d < (1 << 24)) return;                    /* private memory of the work-item */
    if (st) { report("wild", "writes to an address outside of every buffer (%llx, item %llu)", a, item - launch - 1); longjmp(out, 1); }
    if (a < 65536) { report("wild", "reads address %llx (item %llu)", a, item - launch - 1); longjmp(out, 1); }
    return;                                                          /* constants of the program */
  }
  int b = which(a);
  if (b < 0 || a + n > buf[b].base + buf[b].size) {
    report(st ? "oob-write" : "oob-read", st ? "writes %llu bytes past a buffer of %llu bytes" : "reads %llu bytes past a buffer of %llu bytes", b < 0 ? 0 : a + n - buf[b].base - buf[b].size, b < 0 ? 0 : buf[b].size);
    return;
  }
  if (!buf[b].live) { report("released", st ? "writes to a released buffer of %llu bytes%.0llu" : "reads a released buffer of %llu bytes%.0llu", buf[b].size, 0); return; }
  if (st ? !(buf[b].flags & 2) : !(buf[b].flags & 1)) report(st ? "flag-write" : "flag-read", st ? "writes to a read-only buffer of %llu bytes%.0llu" : "reads a write-only buffer of %llu bytes%.0llu", buf[b].size, 0);
  uint64_t o = a - A;
  if (st) {
    nstore++;
    for (uint64_t i = o; i < o + n; i++) {
      if (sw[i] > launch && sw[i] != item) report("race", "work-items %llu and %llu write the same element", sw[i] - launch - 1, item - launch - 1);
      if (sr[i] >= launch && sr[i] != item && sr[i]) report("race", "an element written by work-item %llu is read by another one%.0llu", item - launch - 1, 0);
      sw[i] = item; init_[i] = 1;
    }
  } else {
    nload++;
    for (uint64_t i = o; i < o + n; i++) {
      if (sw[i] > launch && sw[i] != item) report("race", "an element written by work-item %llu is read by work-item %llu", sw[i] - launch - 1, item - launch - 1);
      if (sr[i] < launch) sr[i] = item; else if (sr[i] != item) sr[i] = launch;
      nuninit += !init_[i];
    }
  }
}
#define CB(n) void __vm_load##n##_noabort(uint64_t a) { access_(a, n, 0); } void __vm_store##n##_noabort(uint64_t a) { access_(a, n, 1); }
CB(1) CB(2) CB(4) CB(8) CB(16)
void __vm_loadN_noabort(uint64_t a, uint64_t n) { access_(a, n, 0); }
void __vm_storeN_noabort(uint64_t a, uint64_t n) { access_(a, n, 1); }
void *__vm_memcpy(void *d, const void *s, uint64_t n) { access_((uint64_t)s, n, 0); access_((uint64_t)d, n, 1); return memcpy(d, s, n); }
void *__vm_memmove(void *d, const void *s, uint64_t n) { access_((uint64_t)s, n, 0); access_((uint64_t)d, n, 1); return memmove(d, s, n); }
void *__vm_memset(void *d, int c, uint64_t n) { access_((uint64_t)d, n, 1); return memset(d, c, n); }
void *__asan_memcpy(void *d, const void *s, uint64_t n) { return __vm_memcpy(d, s, n); }
void *__asan_memmove(void *d, const void *s, uint64_t n) { return __vm_memmove(d, s, n); }
void *__asan_memset(void *d, int c, uint64_t n) { return __vm_memset(d, c, n); }
void __asan_handle_no_return(void) {}

/* undefined behaviour */
struct loc { const char *file; uint32_t line, col; };
#define UB(name) void __ubsan_handle_##name(struct loc *l) { report("undefined:" #name, "line %llu column %llu", l->line, l->col); }
UB(add_overflow) UB(sub_overflow) UB(mul_overflow) UB(negate_overflow) UB(divrem_overflow) UB(shift_out_of_bounds) UB(out_of_bounds) UB(pointer_overflow)
UB(float_cast_overflow) UB(load_invalid_value) UB(vla_bound_not_positive) UB(nonnull_arg) UB(implicit_conversion) UB(invalid_builtin) UB(alignment_assumption)
void __ubsan_handle_builtin_unreachable(struct loc *l) { report("undefined:unreachable", "line %llu column %llu", l->line, l->col); longjmp(out, 1); }
void __ubsan_handle_missing_return(struct loc *l) { report("undefined:missing_return", "line %llu column %llu", l->line, l->col); longjmp(out, 1); }
void __ubsan_handle_type_mismatch_v1(struct loc *l) { report("undefined:alignment", "line %llu column %llu", l->line, l->col); if (running) longjmp(out, 1); }

/* work-item functions */
static size_t at(const size_t *v, uint32_t d, size_t other) { return d < 3 ? v[d] : other; }
size_t _Z13get_global_idj(uint32_t d) { return at(gid, d, 0); }
size_t _Z15get_global_sizej(uint32_t d) { return at(gsz, d, 1); }
size_t _Z14get_local_sizej(uint32_t d) { return at(lsz, d, 1); }
size_t _Z12get_local_idj(uint32_t d) { return d < 3 ? gid[d] % lsz[d] : 0; }
size_t _Z12get_group_idj(uint32_t d) { return d < 3 ? gid[d] / lsz[d] : 0; }
size_t _Z14get_num_groupsj(uint32_t d) { return d < 3 ? gsz[d] / lsz[d] : 1; }
size_t _Z17get_global_offsetj(uint32_t d) { return 0; }
uint32_t _Z12get_work_dimv(void) { return 3; }
static void unsupported(void) { report("unsupported", "barriers between work-items are not supported by the stand-in device%.0llu%.0llu", 0, 0); longjmp(out, 2); }
void _Z7barrierj(uint32_t f) { if (lsz[0] * lsz[1] * lsz[2] > 1) unsupported(); }
void _Z9mem_fencej(uint32_t f) {}

typedef void (*fn)(long, long, long, long, long, long, double, double, double, double, double, double, double, double, long, long, long, long, long, long, long, long, long, long, long, long, long, long);
/* iv: 20 integer/pointer arguments in order; fv: 8 float arguments (bits in the low word); order: 0 forward, 1 backward, else a seed of a permutation.
   returns 0, 1 when undefined behaviour ended the launch, 2 not supported */
int vm_run(void *f, const char *name, const long *iv, const double *fv, const size_t *g, const size_t *l, uint64_t order) {
  kname = name;
  size_t n = g[0] * g[1] * g[2];
  memcpy(gsz, g, sizeof gsz); memcpy(lsz, l, sizeof lsz);
  uint32_t *perm = 0;
  if (order > 1) {
    perm = malloc(n * 4);
    for (size_t i = 0; i < n; i++) perm[i] = i;
    uint64_t s = order * 0x9e3779b97f4a7c15ull;
    for (size_t i = n; i > 1; i--) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; size_t j = s % i; uint32_t t = perm[i - 1]; perm[i - 1] = perm[j]; perm[j] = t; }
  }
  launch += n + 2;
  if (launch > 4000000000u - n) { memset(sw, 0, top * 4); memset(sr, 0, top * 4); launch = 1; }
  launch++;
  volatile size_t k = 0;
  int r = setjmp(out);
  if (!r) {
    running = 1;
    for (; k < n; k++) {
      size_t q = order > 1 ? perm[k] : order == 1 ? n - 1 - k : k;
      gid[0] = q % g[0]; gid[1] = q / g[0] % g[1]; gid[2] = q / g[0] / g[1];
      item = launch + 1 + q;
      ((fn)f)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], fv[0], fv[1], fv[2], fv[3], fv[4], fv[5], fv[6], fv[7], iv[6], iv[7], iv[8], iv[9], iv[10], iv[11], iv[12], iv[13], iv[14], iv[15], iv[16], iv[17], iv[18], iv[19]);
    }
  }
  running = 0; launch += n + 2;
  free(perm);
  return r;
}
