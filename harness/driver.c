/* Trace driver: executes one command per input line against the library and
 * writes one response line.  It uses the public headers only; the environment
 * (random device, heap, curve-library additions) is scripted through link-time
 * wrappers that affect this executable's objects (library and driver) only.
 *
 * command:  <id> <op> <mode> <fill> <tok>*
 *   mode    c<hex>  inputs are followed by these bytes, outputs have slack
 *           g       inputs end at an inaccessible page, outputs have slack
 *           e       inputs and outputs end at an inaccessible page, outputs exact
 *           l       inputs and outputs start after an inaccessible page
 *           a       inputs and outputs are exact heap blocks (for ASan)
 *   tok     x<hex>  byte argument     i<dec>  number argument
 *           e<script>  environment script   t1  fail the next curve addition
 *           F  run in a child process  H  record released heap blocks
 * response: R <id> <outcome> r<ret> o<hex>* m<0|1> x<lo>:<hi>:<cap>* ... */
#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/resource.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/chain_parameters.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/endian.h>
#include <fingera_libc/error.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hex.h>
#include <fingera_libc/random.h>
#include <secp256k1.h>

#define MAXARG 16
#define MAXOUT 8
#define ARENA (4u << 20)
#define SLACK 4096u

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

/* ------------------------------------------------------------------ text */
typedef struct {
  char *p;
  size_t n, cap;
} sbuf;
static void sb_add(sbuf *s, const char *d, size_t n) {
  if (s->n + n + 1 > s->cap) {
    s->cap = (s->n + n + 1) * 2 + 256;
    s->p = __real_realloc(s->p, s->cap);
  }
  memcpy(s->p + s->n, d, n);
  s->n += n;
  s->p[s->n] = 0;
}
static void sb_fmt(sbuf *s, const char *f, ...) {
  char t[256];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(t, sizeof t, f, a);
  va_end(a);
  sb_add(s, t, (size_t)n);
}
static void sb_hex(sbuf *s, const void *d, size_t n) {
  static const char H[] = "0123456789abcdef";
  const uint8_t *p = d;
  for (size_t i = 0; i < n; i++) {
    char t[2] = {H[p[i] >> 4], H[p[i] & 15]};
    sb_add(s, t, 2);
  }
}
static int hexv(int c) {
  return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
}
static uint8_t *unhex(const char *s, size_t *n) {
  *n = strlen(s) / 2;
  uint8_t *p = __real_malloc(*n + 1);
  for (size_t i = 0; i < *n; i++) p[i] = hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]);
  return p;
}

/* ----------------------------------------------------------- environment */
typedef struct {
  char kind;
  long v;
  uint8_t *d;
  size_t n;
  uint8_t *base; /* to be freed */
} act;
#define MAXACT 32768
typedef struct {
  act open_q[MAXACT], read_q[MAXACT];
  int no, nr, io, ir;
  int rfd[64], nrfd;
  uint32_t lcg;
  int bulk;     /* deliveries are counted, not made */
  size_t total; /* bytes delivered */
} envst;
static envst env;
static int env_on;
/* the log survives the end of a forked child */
static struct elog {
  size_t n;
  char p[1 << 20];
} *elog;
static void elog_hex(const char *k, const void *d, size_t n) {
  static const char H[] = "0123456789abcdef";
  const uint8_t *p = d;
  if (elog->n + strlen(k) + 2 * n + 1 > sizeof elog->p) return;
  strcpy(elog->p + elog->n, k);
  elog->n += strlen(k);
  for (size_t i = 0; i < n; i++) {
    elog->p[elog->n++] = H[p[i] >> 4];
    elog->p[elog->n++] = H[p[i] & 15];
  }
  elog->p[elog->n] = 0;
}

static void env_reset(void) {
  for (int i = 0; i < env.nr; i++)
    if (env.read_q[i].base) __real_free(env.read_q[i].base);
  env.no = env.nr = env.io = env.ir = 0;
  env.nrfd = 0;
  elog->n = 0;
  elog->p[0] = 0;
}
static void env_script(char *s) {
  for (char *t = strtok(s, ","); t; t = strtok(NULL, ",")) {
    act a = {t[0], 0, NULL, 0, NULL};
    if (*t == 'o' || *t == 'O') {
      a.v = *t == 'o' ? t[1] == '0' : atol(t + 1); /* o0: as descriptor 0 */
      if (env.no < MAXACT) env.open_q[env.no++] = a;
    } else {
      if (*t == 'd') a.d = a.base = unhex(t + 1, &a.n);
      else a.v = atol(t + 1);
      if (env.nr < MAXACT) env.read_q[env.nr++] = a;
      else __real_free(a.base);
    }
  }
}
static int is_rfd(int fd) {
  for (int i = 0; i < env.nrfd; i++)
    if (env.rfd[i] == fd) return i + 1;
  return 0;
}
static int sys_open(const char *p, int fl, int mode) {
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
static int env_open(const char *path, int flags, int mode) {
  if (!env_on || (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random")))
    return sys_open(path, flags, mode);
  act a = {'o', 0, NULL, 0, NULL};
  if (env.io < env.no) a = env.open_q[env.io++];
  if (a.kind == 'O') {
    elog_hex(" Eo-", "", 0);
    errno = (int)a.v;
    return -1;
  }
  int fd = sys_open("/dev/null", O_RDONLY, 0);
  if (fd > 0 && a.v) {
    dup2(fd, 0);
    syscall(SYS_close, fd);
    fd = 0;
  }
  if (fd >= 0) {
    int i = 0;
    while (i < env.nrfd && env.rfd[i] >= 0) i++;
    if (i < 64) env.rfd[i] = fd;
    if (i == env.nrfd && i < 64) env.nrfd++;
  }
  elog_hex(" Eo+", "", 0);
  return fd;
}
static ssize_t env_read(void *buf, size_t n) {
  if (env.bulk) {
    if (env.total == 0 && n > 100) n = 100;
    if (n > 0x7ffff000) n = 0x7ffff000;
    env.total += n;
    return (ssize_t)n;
  }
  act dflt = {'n', (long)n, NULL, 0, NULL}, *a = &dflt;
  if (env.ir < env.nr) a = &env.read_q[env.ir];
  if (a->kind == 'f') {
    env.ir++;
    elog_hex(" Er-", "", 0);
    errno = (int)a->v;
    return -1;
  }
  size_t k;
  if (a->kind == 'z') {
    env.ir++;
    k = 0;
  } else if (a->kind == 'd') {
    k = a->n < n ? a->n : n;
    memcpy(buf, a->d, k);
    a->d += k;
    a->n -= k;
    if (a->n == 0) env.ir++;
  } else {
    k = (size_t)a->v < n ? (size_t)a->v : n;
    if (env.ir < env.nr) env.ir++;
    for (size_t i = 0; i < k; i++) {
      env.lcg = env.lcg * 1103515245u + 12345u;
      ((uint8_t *)buf)[i] = (uint8_t)(env.lcg >> 16);
    }
  }
  env.total += k;
  elog_hex(" Er", buf, k);
  return (ssize_t)k;
}
int __wrap_open(const char *p, int fl, ...) {
  va_list a;
  va_start(a, fl);
  int m = (fl & O_CREAT) ? va_arg(a, int) : 0;
  va_end(a);
  return env_open(p, fl, m);
}
int __wrap_open64(const char *p, int fl, ...) { return env_open(p, fl, 0600); }
int __wrap___open_2(const char *p, int fl) { return env_open(p, fl, 0); }
int __wrap_openat(int d, const char *p, int fl, ...) {
  if (p[0] == '/') return env_open(p, fl, 0600);
  return (int)syscall(SYS_openat, d, p, fl, 0600);
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (env_on && is_rfd(fd)) return env_read(b, n);
  return syscall(SYS_read, fd, b, n);
}
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t bl) {
  (void)bl;
  return __wrap_read(fd, b, n);
}
int __wrap_close(int fd) {
  int i = env_on ? is_rfd(fd) : 0;
  if (i) {
    env.rfd[i - 1] = -1;
    elog_hex(" Ec", "", 0);
  }
  return (int)syscall(SYS_close, fd);
}
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) {
  if (env_on) return env_read(b, n);
  return syscall(SYS_getrandom, b, n, fl);
}
int __wrap_getentropy(void *b, size_t n) {
  if (env_on) {
    size_t k = 0;
    while (k < n) {
      ssize_t r = env_read((char *)b + k, n - k);
      if (r <= 0) {
        if (r == 0) errno = EIO;
        return -1;
      }
      k += (size_t)r;
    }
    return 0;
  }
  return (int)syscall(SYS_getrandom, b, n, 0) == (int)n ? 0 : -1;
}
long __real_syscall(long nr, ...);
long __wrap_syscall(long nr, ...) {
  va_list a;
  va_start(a, nr);
  long v[6];
  for (int i = 0; i < 6; i++) v[i] = va_arg(a, long);
  va_end(a);
  if (env_on && nr == SYS_getrandom) return env_read((void *)v[0], (size_t)v[1]);
  return __real_syscall(nr, v[0], v[1], v[2], v[3], v[4], v[5]);
}
/* stdio access to the device */
static ssize_t ck_read(void *c, char *b, size_t n) {
  return __wrap_read((int)(intptr_t)c, b, n);
}
static int ck_close(void *c) { return __wrap_close((int)(intptr_t)c); }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
  if (!env_on || (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")))
    return __real_fopen(p, m);
  int fd = env_open(p, O_RDONLY, 0);
  if (fd < 0) return NULL;
  cookie_io_functions_t f = {ck_read, NULL, NULL, ck_close};
  return fopencookie((void *)(intptr_t)fd, m, f);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }

/* ------------------------------------------------------ heap, curve adds */
static int heap_log;
static sbuf freed;
/* the requested size of a live block, kept in a side table */
#define HT 4096
static struct {
  void *p;
  size_t n;
} ht[HT];
static void *reg(void *p, size_t n) {
  if (!heap_log || !p) return p;
  memset(p, 0x5A, n);
  for (int i = 0; i < HT; i++)
    if (!ht[i].p) {
      ht[i].p = p;
      ht[i].n = n;
      break;
    }
  return p;
}
static size_t unreg(void *p) {
  for (int i = 0; i < HT; i++)
    if (ht[i].p == p) {
      ht[i].p = NULL;
      return ht[i].n;
    }
  return (size_t)-1;
}
/* whatever memory held before the call: no result may depend on it */
static __thread uint8_t litter = 0x77;
void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (!heap_log && p) memset(p, litter, n < 65536 ? n : 65536);
  return reg(p, n);
}
void *__wrap_calloc(size_t a, size_t b) {
  void *p = __real_calloc(a, b);
  if (heap_log && p) {
    reg(p, a * b);
    memset(p, 0, a * b);
  }
  return p;
}
void __wrap_free(void *p) {
  if (heap_log && p) {
    size_t n = unreg(p);
    if (n != (size_t)-1) {
      sb_fmt(&freed, " f");
      sb_hex(&freed, p, n);
    }
  }
  __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  if (!heap_log) return __real_realloc(p, n);
  if (!p) return __wrap_malloc(n);
  size_t old = malloc_usable_size(p), want = n;
  for (int i = 0; i < HT; i++)
    if (ht[i].p == p) old = ht[i].n;
  void *q = __wrap_malloc(want);
  if (!q) return NULL;
  memcpy(q, p, old < want ? old : want);
  __wrap_free(p);
  return q;
}

static int tweak_fail, tweak_hits;
int __real_secp256k1_ec_privkey_tweak_add(const secp256k1_context *, unsigned char *, const unsigned char *);
int __real_secp256k1_ec_seckey_tweak_add(const secp256k1_context *, unsigned char *, const unsigned char *);
int __real_secp256k1_ec_pubkey_tweak_add(const secp256k1_context *, secp256k1_pubkey *, const unsigned char *);
int __real_secp256k1_ec_pubkey_combine(const secp256k1_context *, secp256k1_pubkey *, const secp256k1_pubkey *const *, size_t);
int __wrap_secp256k1_ec_privkey_tweak_add(const secp256k1_context *c, unsigned char *k, const unsigned char *t) {
  if (tweak_fail) { tweak_hits++; memset(k, 0, 32); return 0; }
  return __real_secp256k1_ec_privkey_tweak_add(c, k, t);
}
int __wrap_secp256k1_ec_seckey_tweak_add(const secp256k1_context *c, unsigned char *k, const unsigned char *t) {
  if (tweak_fail) { tweak_hits++; memset(k, 0, 32); return 0; }
  return __real_secp256k1_ec_seckey_tweak_add(c, k, t);
}
int __wrap_secp256k1_ec_pubkey_tweak_add(const secp256k1_context *c, secp256k1_pubkey *k, const unsigned char *t) {
  if (tweak_fail) { tweak_hits++; memset(k, 0, sizeof *k); return 0; }
  return __real_secp256k1_ec_pubkey_tweak_add(c, k, t);
}
int __wrap_secp256k1_ec_pubkey_combine(const secp256k1_context *c, secp256k1_pubkey *o, const secp256k1_pubkey *const *i, size_t n) {
  if (tweak_fail) { tweak_hits++; memset(o, 0, sizeof *o); return 0; }
  return __real_secp256k1_ec_pubkey_combine(c, o, i, n);
}

/* ------------------------------------------------------------- one call */
typedef struct {
  int isnum;
  uint64_t num;
  uint8_t *p;
  size_t n;
  uint8_t *placed;
} arg;
typedef struct {
  uint8_t *base, *p;
  size_t lo, cap, hi; /* slack before, capacity, slack after */
} outb;
typedef struct call {
  char mode;
  uint8_t *ctx;
  size_t nctx;
  uint8_t fill;
  arg a[MAXARG];
  int na, nin, nout;
  outb o[MAXOUT];
  sbuf res;
  int slot0;
} call;

typedef struct {
  uint8_t *lo, *hi; /* accessible range between two inaccessible pages */
  int ro;           /* read-only at the moment */
} arena;
static arena arenas[2][24];
static long page;
static void arenas_init(void) {
  page = sysconf(_SC_PAGESIZE);
  for (int s = 0; s < 2; s++)
    for (int i = 0; i < 24; i++) {
      uint8_t *m = mmap(NULL, ARENA + 2 * page, PROT_NONE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      mprotect(m + page, ARENA, PROT_READ | PROT_WRITE);
      arenas[s][i].lo = m + page;
      arenas[s][i].hi = m + page + ARENA;
    }
}
static uint8_t *IN(call *c, int k) {
  arg *a = &c->a[k];
  if (a->placed) return a->placed;
  arena *r = &arenas[c->slot0][c->nin++];
  if (a->n + c->nctx + 2 * SLACK > ARENA) {
    a->placed = a->p;
    return a->placed;
  }
  uint8_t *p;
  if (r->ro) mprotect(r->lo, ARENA, PROT_READ | PROT_WRITE);
  r->ro = 0;
  switch (c->mode) {
    case 'g':
    case 'e':
      p = r->hi - a->n;
      memset(p - 64, 0x31, 64);
      break;
    case 'l':
      p = r->lo;
      memset(p + a->n, 0x31, 64);
      break;
    case 'a':
      p = __real_malloc(a->n);
      break;
    default:
      p = r->lo + 128 + (k < 8 ? c->nin % 3 : 0);
      memset(p - 64, c->nctx ? c->ctx[0] : 0, 64);
      for (size_t i = 0; i < c->nctx; i++) p[a->n + i] = c->ctx[i];
      memset(p + a->n + c->nctx, c->nctx ? c->ctx[c->nctx - 1] : 0, 64);
  }
  memcpy(p, a->p, a->n);
  if (c->mode != 'a') /* arguments are not written to, not even for a moment */
    r->ro = mprotect(r->lo, ARENA, PROT_READ) == 0;
  a->placed = p;
  return p;
}
#define SZ(k) (c->a[k].n)
#define NUM(k) (c->a[k].num)
/* a stated size: negative numbers are codes of sizes from 2^31 on */
static size_t stated(int64_t v) {
  static const size_t big[] = {SIZE_MAX, 1ul << 31, 1ul << 32, 1ul << 63, SIZE_MAX >> 1,
                               (1ul << 32) + 33, (1ul << 32) + 65, (1ul << 32) + 214, (1ul << 32) + 279};
  return v >= 0 ? (size_t)v : (uint64_t)-v <= sizeof(big) / sizeof(*big) ? big[-v - 1] : SIZE_MAX;
}
#define SIZEARG(k) stated(NUM(k))
#define ROOM(k) (NUM(k) < 0 ? 1024 : (size_t)NUM(k))
static uint8_t *OUT(call *c, size_t cap) {
  outb *o = &c->o[c->nout];
  arena *r = &arenas[c->slot0][16 + c->nout];
  c->nout++;
  if (cap > ARENA - 2 * SLACK) cap = ARENA - 2 * SLACK;
  o->cap = cap;
  switch (c->mode) {
    case 'e':
      o->lo = 64;
      o->hi = 0;
      o->p = r->hi - cap;
      break;
    case 'l':
      o->lo = 0;
      o->hi = 64;
      o->p = r->lo;
      break;
    case 'a':
      o->lo = o->hi = 0;
      o->p = __real_malloc(cap);
      break;
    default:
      o->lo = 64;
      o->hi = SLACK;
      o->p = r->lo + 64 + SLACK / 2;
  }
  o->base = o->p - o->lo;
  memset(o->base, c->fill, o->lo + cap + o->hi);
  return o->p;
}
/* an argument that the operation may change, reported by the caller */
static uint8_t *INOUT(call *c, int k) {
  uint8_t *p = OUT(c, SZ(k));
  memcpy(p, c->a[k].p, SZ(k));
  return p;
}
static void RET(call *c, long long r) { sb_fmt(&c->res, " r%lld", r); }
static void RETZ(call *c, size_t r) { sb_fmt(&c->res, " r%llu", (unsigned long long)r); }
static void EMIT(call *c, const void *p, size_t n) {
  sb_fmt(&c->res, " o");
  sb_hex(&c->res, p, n);
}
/* the first n bytes of output buffer k, never more than it can hold */
static void EMITO(call *c, int k, size_t n) {
  size_t max = c->o[k].cap + c->o[k].hi;
  EMIT(c, c->o[k].p, n < max ? n : max);
}
static size_t U64(call *c, int k) {
  size_t v = 0;
  for (size_t i = 0; i < c->a[k].n; i++) v = v << 8 | c->a[k].p[i];
  return v;
}
static void EMIT64(call *c, uint64_t v) {
  uint8_t b[8];
  for (int i = 0; i < 8; i++) b[i] = (uint8_t)(v >> (56 - 8 * i));
  EMIT(c, b, 8);
}
static void EMIT32(call *c, uint32_t v) {
  uint8_t b[4];
  for (int i = 0; i < 4; i++) b[i] = (uint8_t)(v >> (24 - 8 * i));
  EMIT(c, b, 4);
}
static uint32_t U32(call *c, int k) { return (uint32_t)U64(c, k); }

/* network: argument k, custom prefixes in the six arguments after it */
static const chain_parameters *NET(call *c, int k, chain_parameters *t) {
  switch (NUM(k)) {
    case 0: return &g_mainnet_chain_parameters;
    case 1: return &g_testnet_chain_parameters;
    case 2: return &g_regnet_chain_parameters;
  }
  t->prefix_pubkey_address = (char *)IN(c, k + 1);
  t->prefix_pubkey_address_size = SZ(k + 1);
  t->prefix_script_address = (char *)IN(c, k + 2);
  t->prefix_script_address_size = SZ(k + 2);
  t->prefix_secret_key = (char *)IN(c, k + 3);
  t->prefix_secret_key_size = SZ(k + 3);
  t->prefix_ext_public_key = (char *)IN(c, k + 4);
  t->prefix_ext_public_key_size = SZ(k + 4);
  t->prefix_ext_secret_key = (char *)IN(c, k + 5);
  t->prefix_ext_secret_key_size = SZ(k + 5);
  t->bech32_hrp = (char *)IN(c, k + 6);
  t->bech32_hrp_size = SZ(k + 6);
  return t;
}

/* -------------------------------------------------------------- codecs */
static void op_to_hex(call *c) {
  size_t n = fingera_to_hex_length(SZ(0));
  uint8_t *i = IN(c, 0), *o = OUT(c, n);
  fingera_to_hex(i, SZ(0), (char *)o, (int)NUM(1));
  EMITO(c, 0, 2 * SZ(0));
}
static void op_from_hex(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, fingera_from_hex_length(SZ(0)));
  size_t r = fingera_from_hex((char *)i, SZ(0), o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_hex_dump(call *c) {
  uint8_t *i = IN(c, 0);
  fflush(stdout);
  int save = dup(1), fd = memfd_create("dump", 0);
  struct rlimit few = {64 * SZ(0) + 65536, RLIM_INFINITY}, all;
  getrlimit(RLIMIT_FSIZE, &all);
  few.rlim_max = all.rlim_max;
  signal(SIGXFSZ, SIG_IGN);
  setrlimit(RLIMIT_FSIZE, &few); /* whatever it prints */
  dup2(fd, 1);
  fingera_hex_dump(i, SZ(0), (int)NUM(1));
  fflush(stdout);
  setrlimit(RLIMIT_FSIZE, &all);
  dup2(save, 1);
  syscall(SYS_close, save);
  off_t n = lseek(fd, 0, SEEK_END);
  uint8_t *t = __real_malloc((size_t)n + 1);
  if (pread(fd, t, (size_t)n, 0) != n) n = 0;
  syscall(SYS_close, fd);
  EMIT(c, t, (size_t)n);
  __real_free(t);
}
static void op_to_b64(call *c) {
  size_t n = fingera_to_base64_length(SZ(0));
  uint8_t *i = IN(c, 0), *o = OUT(c, n);
  fingera_to_base64(i, SZ(0), (char *)o);
  EMITO(c, 0, (SZ(0) + 2) / 3 * 4);
}
static void op_to_b64u(call *c) {
  size_t n = fingera_to_base64_urlsafe_length(SZ(0));
  uint8_t *i = IN(c, 0), *o = OUT(c, n);
  fingera_to_base64_urlsafe(i, SZ(0), (char *)o);
  EMITO(c, 0, (SZ(0) * 8 + 5) / 6);
}
static void op_from_b64(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, fingera_from_base64_length((char *)i, SZ(0)));
  size_t r = fingera_from_base64((char *)i, SZ(0), o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_from_b64u(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, fingera_from_base64_urlsafe_length(SZ(0)));
  size_t r = fingera_from_base64_urlsafe((char *)i, SZ(0), o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_to_b32(call *c) {
  size_t n = fingera_to_base32_length(SZ(0));
  uint8_t *i = IN(c, 0), *o = OUT(c, n);
  fingera_to_base32(i, SZ(0), (char *)o);
  EMITO(c, 0, (SZ(0) + 4) / 5 * 8);
}
static void op_to_b32raw(call *c) {
  size_t n = fingera_to_base32_length(SZ(0));
  if (c->mode != 'c' && c->mode != 'g') n = (SZ(0) * 8 + 4) / 5;
  uint8_t *i = IN(c, 0), *o = OUT(c, n);
  size_t r = fingera_to_base32_raw(i, SZ(0), o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_from_b32(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, fingera_from_base32_length((char *)i, SZ(0)));
  size_t r = fingera_from_base32((char *)i, SZ(0), o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_from_b32raw(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, fingera_from_base32_raw_length(SZ(0)));
  size_t r = fingera_from_base32_raw(i, SZ(0), o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_to_b58(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, fingera_to_base58_length(SZ(0)));
  size_t r = fingera_to_base58(i, SZ(0), (char *)o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_from_b58(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, fingera_from_base58_length(SZ(0)));
  size_t r = fingera_from_base58((char *)i, SZ(0), o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_to_b58c(call *c) {
  uint8_t *i = IN(c, 0), *p = IN(c, 1);
  uint8_t *o = OUT(c, fingera_to_base58_check_length(SZ(0), SZ(1)));
  size_t r = fingera_to_base58_check(i, SZ(0), p, SZ(1), (char *)o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_from_b58c(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, fingera_from_base58_check_length(SZ(0)));
  size_t r = fingera_from_base58_check((char *)i, SZ(0), o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_b32e(call *c) {
  size_t n = fingera_bech32_encode_length(SZ(0), SZ(1));
  uint8_t *h = IN(c, 0), *d = IN(c, 1), *o = OUT(c, n);
  fingera_bech32_encode((char *)h, SZ(0), d, SZ(1), (char *)o);
  EMITO(c, 0, SZ(0) + SZ(1) + 7);
}
static void op_b32d(call *c) { /* text, capacity of the hrp buffer */
  size_t hs = SIZEARG(1);
  uint8_t *i = IN(c, 0), *h = OUT(c, ROOM(1)), *d = OUT(c, SZ(0) > 7 ? SZ(0) - 7 : 0);
  int r = fingera_bech32_decode((char *)i, SZ(0), (char *)h, &hs, d);
  RET(c, r < 0 ? -1 : r);
  if (r >= 0) {
    EMITO(c, 0, hs);
    EMITO(c, 1, (size_t)r);
  }
}
static void op_varint_enc(call *c) {
  uint8_t *o = OUT(c, 10);
  size_t r = fingera_encode_varint(U64(c, 0), o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_varint_dec(call *c) {
  uint64_t v = 0xA5A5A5A5A5A5A5A5ull;
  uint8_t *i = IN(c, 0);
  size_t r = fingera_decode_varint(i, SZ(0), &v);
  RETZ(c, r);
  if (r) EMIT64(c, v);
}
static void op_zigzag_enc(call *c) {
  uint8_t *o = OUT(c, 10);
  size_t r = fingera_encode_zigzag((int64_t)U64(c, 0), o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_zigzag_dec(call *c) {
  int64_t v = 0x5A5A5A5A5A5A5A5All;
  uint8_t *i = IN(c, 0);
  size_t r = fingera_decode_zigzag(i, SZ(0), &v);
  RETZ(c, r);
  if (r) EMIT64(c, (uint64_t)v);
}

/* ------------------------------------------------------- length helpers */
static void op_len(call *c) { /* which, one or two 8-byte sizes */
  size_t a = U64(c, 1), b = c->na > 2 ? U64(c, 2) : 0, r = 0;
  switch (NUM(0)) {
    case 0: r = fingera_to_hex_length(a); break;
    case 1: r = fingera_from_hex_length(a); break;
    case 2: r = fingera_to_base64_length(a); break;
    case 3: r = fingera_to_base64_urlsafe_length(a); break;
    case 4: r = fingera_from_base64_urlsafe_length(a); break;
    case 5: r = fingera_to_base32_length(a); break;
    case 6: r = fingera_from_base32_raw_length(a); break;
    case 7: r = fingera_to_base58_length(a); break;
    case 8: r = fingera_from_base58_length(a); break;
    case 9: r = fingera_to_base58_check_length(a, b); break;
    case 10: r = fingera_from_base58_check_length(a); break;
    case 11: r = fingera_bech32_encode_length(a, b); break;
    case 12: r = fingera_key_string_max_length(); break;
    case 13: r = fingera_exkey_string_max_length(); break;
  }
  EMIT64(c, r);
}
static void op_len_b64(call *c) {
  EMIT64(c, fingera_from_base64_length((char *)IN(c, 0), SZ(0)));
}
static void op_len_b32(call *c) {
  EMIT64(c, fingera_from_base32_length((char *)IN(c, 0), SZ(0)));
}

/* --------------------------------------------------------------- hashes */
#define HASHOP(name, fn, n)            \
  static void op_##name(call *c) {     \
    uint8_t *i = IN(c, 0), *o = OUT(c, n); \
    fn(i, SZ(0), o);                   \
    EMITO(c, 0, n);                    \
  }
HASHOP(sha1, fingera_sha1, 20)
HASHOP(rmd160, fingera_ripemd160, 20)
HASHOP(sha256, fingera_sha2_256, 32)
HASHOP(sha512, fingera_sha2_512, 64)
HASHOP(hash160, fingera_btc_hash160, 20)
HASHOP(hash256, fingera_btc_hash256, 32)
static uint8_t IPAD[128];
static const secp256k1_context *noctx(void);
/* which, 8-byte count of zero bytes, bytes after them */
static void op_huge(call *c) {
  size_t z = U64(c, 1), n = z + SZ(2);
  uint8_t *m = mmap(NULL, n + page, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) {
    sb_fmt(&c->res, " NOMEM");
    return;
  }
  memcpy(m + z, c->a[2].p, SZ(2));
  uint8_t *o = OUT(c, 64);
  memset(IPAD, 0x36, sizeof IPAD);
  size_t k = 0;
  switch (NUM(0)) {
    case 0: fingera_sha1(m, n, o); k = 20; break;
    case 1: fingera_ripemd160(m, n, o); k = 20; break;
    case 2: fingera_sha2_256(m, n, o); k = 32; break;
    case 3: fingera_sha2_512(m, n, o); k = 64; break;
    case 4: fingera_btc_hash160(m, n, o); k = 20; break;
    case 5: fingera_btc_hash256(m, n, o); k = 32; break;
    /* the inner key block is zero, and so stands for the first zeros */
    case 6: fingera_hmac_sha256(IPAD, 64, m + 64, n - 64, o); k = 32; break;
    case 7: fingera_hmac_sha512(IPAD, 128, m + 128, n - 128, o); k = 64; break;
    /* the key, and a message */
    case 8: fingera_hmac_sha256(m, n, "huge", 4, o); k = 32; break;
    case 9: fingera_hmac_sha512(m, n, "huge", 4, o); k = 64; break;
  }
  munmap(m, n + page);
  EMITO(c, 0, k);
}
/* which, 8-byte count of zero bytes, bytes before them: a text of that size */
static void op_vast(call *c) {
  size_t z = U64(c, 1), n = z + SZ(2), k = SZ(2), r = 0, hs = 90;
  uint8_t *m = mmap(NULL, n + page, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) {
    sb_fmt(&c->res, " NOMEM");
    return;
  }
  memcpy(m, c->a[2].p, k);
  uint8_t *o = OUT(c, 1024), *h = OUT(c, 90);
  uint64_t v = 0;
  int64_t w = 0;
  int i;
  switch (NUM(0)) {
    case 0: r = fingera_from_hex((char *)m, n, o); break;
    case 1: r = fingera_from_base64((char *)m, n, o); break;
    case 2: r = fingera_from_base64_urlsafe((char *)m, n, o); break;
    case 3: r = fingera_from_base32((char *)m, n, o); break;
    case 4: r = fingera_from_base32_raw(m, n, o); break;
    case 5:
      i = fingera_bech32_decode((char *)m, n, (char *)h, &hs, o);
      r = i < 0 ? 0 : 1;
      break;
    case 6: r = fingera_decode_varint(m, n, &v); break;
    case 7: r = fingera_decode_zigzag(m, n, &w); break;
    case 8: v = fingera_from_base64_length((char *)m, n); break;
    case 9: v = fingera_from_base32_length((char *)m, n); break;
    case 10: r = fingera_btc_key_decode(m, n, o); break;
    case 11: r = fingera_btc_signature_decode(m, n, o); break;
    case 12: r = fingera_btc_pubkey_decode(m, n, o); break;
    case 13: r = fingera_to_address_witnessv0_keyhash(m, n, (char *)o, 1024, &g_mainnet_chain_parameters); break;
    case 14: r = fingera_to_address_witnessv0_scripthash(m, n, (char *)o, 1024, &g_mainnet_chain_parameters); break;
    case 15: r = fingera_to_address_witness_unknown(m, n, (char *)o, 1024, &g_mainnet_chain_parameters); break;
  }
  munmap(m, n + page);
  RETZ(c, r);
  if (NUM(0) < 5) EMITO(c, 0, r);
  if (NUM(0) == 6 || NUM(0) == 8 || NUM(0) == 9) EMIT64(c, v);
  if (NUM(0) == 7) EMIT64(c, (uint64_t)w);
  if (NUM(0) == 10 && r) EMITO(c, 0, 32);
  if (NUM(0) == 11 && r) {
    uint8_t b[64];
    secp256k1_ecdsa_signature_serialize_compact(noctx(), b, (secp256k1_ecdsa_signature *)o);
    EMIT(c, b, 64);
  }
}
/* n bytes of address space over the same WIN bytes again and again */
#define WIN (64u << 20)
static uint8_t *window(size_t n, uint8_t fill) {
  n = (n + WIN) / WIN * WIN;
  int fd = memfd_create("window", 0);
  if (fd < 0 || ftruncate(fd, WIN)) return NULL;
  uint8_t *m = mmap(NULL, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (size_t i = 0; m != MAP_FAILED && i < n; i += WIN)
    if (mmap(m + i, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
      m = MAP_FAILED;
  syscall(SYS_close, fd);
  if (m == MAP_FAILED) return NULL;
  memset(m, fill, WIN);
  return m;
}
/* which, 8-byte count of zero bytes, bytes after them: the end of their text */
static void op_vast_enc(call *c) {
  size_t z = U64(c, 1), k = SZ(2), n = z + k, r = 0, len = 0;
  uint8_t *m = mmap(NULL, n + page, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t most = n < (1ull << 40) ? 2 * n + 16 : 0;
  uint8_t *o = window(most, c->fill);
  if (m == MAP_FAILED || !o) {
    sb_fmt(&c->res, " NOMEM");
    return;
  }
  memcpy(m + z, c->a[2].p, k);
  switch (NUM(0)) {
    case 0: fingera_to_hex(m, n, (char *)o, 0); len = 2 * n; break;
    case 1: fingera_to_base64(m, n, (char *)o); len = (n + 2) / 3 * 4; break;
    case 2: fingera_to_base64_urlsafe(m, n, (char *)o); len = n / 3 * 4 + (n % 3 ? n % 3 + 1 : 0); break;
    case 3: fingera_to_base32(m, n, (char *)o); len = (n + 4) / 5 * 8; break;
    case 4: len = r = fingera_to_base32_raw(m, n, o); break;
  }
  uint8_t e[64] = {0};
  if (len >= 64 && len <= most) memcpy(e, o + len - 64, 64);
  munmap(m, n + page);
  munmap(o, (most + WIN) / WIN * WIN);
  EMIT(c, e, 64);
  if (NUM(0) == 4) EMIT64(c, r);
}
/* 8-byte count: a request for so many random bytes, of which the source reports
 * delivery without writing them */
/* what a dump of billions of zero bytes prints: the size, the number of
   characters unlike the one a line before, the end */
typedef struct { int fd; uint64_t size, unlike, most; size_t line; uint8_t end[128]; } dump_t;
static void *dump_reader(void *a) {
  dump_t *d = a;
  enum { KEEP = 4096, PART = 1 << 20 };
  static uint8_t b[KEEP + PART];
  ssize_t r;
  size_t have = 0; /* of the KEEP bytes before */
  while ((r = read(d->fd, b + KEEP, PART)) > 0) {
    if (!d->line) {
      uint8_t *e = memchr(b + KEEP, '\n', (size_t)r);
      d->line = e ? (size_t)(e - (b + KEEP)) + 1 : KEEP;
      if (d->line > KEEP) d->line = KEEP;
    }
    size_t from = have >= d->line ? 0 : d->line - have, u = 0, back = d->line;
    const uint8_t *x = b + KEEP;
    for (size_t i = from; i < (size_t)r; i++) u += x[i] != x[i - back];
    d->unlike += u;
    d->size += (size_t)r;
    if (d->size > d->most) syscall(SYS_close, d->fd); /* ends the writer */
    if (have + (size_t)r >= KEEP) {
      memmove(b, b + r, KEEP);
      have = KEEP;
    } else {
      memmove(b + KEEP - have - r, b + KEEP - have, have + (size_t)r);
      have += (size_t)r;
    }
  }
  memcpy(d->end, b + KEEP - 128, 128);
  return NULL;
}
static void op_vast_dump(call *c) { /* size, upper */
  size_t n = U64(c, 0);
  uint8_t *m = mmap(NULL, n + page, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  int q[2];
  pthread_t t;
  dump_t d = {0};
  if (m == MAP_FAILED || pipe(q)) {
    sb_fmt(&c->res, " NOMEM");
    return;
  }
  fcntl(q[1], F_SETPIPE_SZ, 1 << 20);
  fflush(stdout);
  int save = dup(1);
  dup2(q[1], 1);
  syscall(SYS_close, q[1]);
  d.fd = q[0];
  d.most = 8 * n + (1 << 20);
  pthread_create(&t, NULL, dump_reader, &d);
  fingera_hex_dump(m, n, (int)NUM(1));
  fflush(stdout);
  dup2(save, 1);
  syscall(SYS_close, save);
  pthread_join(t, NULL);
  syscall(SYS_close, q[0]);
  munmap(m, n + page);
  EMIT64(c, d.size);
  EMIT64(c, d.unlike);
  EMIT(c, d.end, 128);
}
static void op_vast_rand(call *c) {
  size_t n = U64(c, 0);
  uint8_t *o = window(n, c->fill);
  if (!o) {
    sb_fmt(&c->res, " NOMEM");
    return;
  }
  env.bulk = 1;
  env.total = 0;
  fingera_os_rand_bytes(o, n);
  env.bulk = 0;
  munmap(o, (n + WIN) / WIN * WIN);
  EMIT64(c, env.total);
}
/* 8-byte count: so many bytes cleansed, then what is left of a mark at the end */
static void op_vast_cleanse(call *c) {
  size_t n = U64(c, 0);
  uint8_t *o = window(n + 64, 0), b[48];
  if (!o) {
    sb_fmt(&c->res, " NOMEM");
    return;
  }
  for (int i = 0; i < 2; i++) {
    memset(o, i ? 0x3C : 0xC3, WIN);
    fingera_cleanse(o, n);
    /* beyond the region: seen in the windows, overwritten by the next one */
    memcpy(b + 24 * i, o + n - 24, 24);
  }
  munmap(o, (n + 64 + WIN) / WIN * WIN);
  EMIT(c, b, 24);
  EMIT(c, b + 24, 24);
}
static void op_hmac256(call *c) {
  uint8_t *k = IN(c, 0), *m = IN(c, 1), *o = OUT(c, 32);
  fingera_hmac_sha256(k, SZ(0), m, SZ(1), o);
  EMITO(c, 0, 32);
}
static void op_hmac512(call *c) {
  uint8_t *k = IN(c, 0), *m = IN(c, 1), *o = OUT(c, 64);
  fingera_hmac_sha512(k, SZ(0), m, SZ(1), o);
  EMITO(c, 0, 64);
}
static void op_d64(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, SZ(0) / 64 * 32);
  fingera_btc_hash256_d64(o, i, SZ(0) / 64);
  EMITO(c, 0, SZ(0) / 64 * 32);
}
/* distinct blocks, then how often each comes: the answer is also given by runs */
static void op_d64n(call *c) {
  size_t k = SZ(0) / 64, n = 0, w = 0;
  for (size_t i = 0; i < k; i++) n += NUM(1 + i);
  uint8_t *m = mmap(NULL, n * 96 + 2 * page, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) {
    sb_fmt(&c->res, " NOMEM");
    return;
  }
  uint8_t *o = m + n * 64 + page;
  for (size_t i = 0; i < k; i++)
    for (size_t j = 0; j < NUM(1 + i); j++) memcpy(m + 64 * w++, c->a[0].p + 64 * i, 64);
  o[-1] = o[32 * n] = 0x5A;
  fingera_btc_hash256_d64(o, m, n);
  uint8_t *v = OUT(c, 32 * k), *l = OUT(c, 4 * k);
  size_t r = 0;
  for (size_t i = 0, j; i < n && r < k; i = j, r++) {
    for (j = i; j < n && !memcmp(o + 32 * i, o + 32 * j, 32); j++) {
    }
    memcpy(v + 32 * r, o + 32 * i, 32);
    for (int b = 0; b < 4; b++) l[4 * r + b] = (uint8_t)((j - i) >> (24 - 8 * b));
  }
  int bad = o[-1] != 0x5A || o[32 * n] != 0x5A;
  munmap(m, n * 96 + 2 * page);
  RET(c, bad);
  EMITO(c, 0, 32 * r);
  EMITO(c, 1, 4 * r);
}
static void op_bip32h(call *c) { /* chain, child, header, data */
  uint8_t *ch = IN(c, 0), *d = IN(c, 3), *o = OUT(c, 64);
  fingera_btc_bip32_hash(ch, U32(c, 1), (uint8_t)NUM(2), d, o);
  EMITO(c, 0, 64);
}

/* ------------------------------------------------------------ addresses */
static void op_addr(call *c) { /* kind, payload, capacity, network */
  chain_parameters t;
  const chain_parameters *p = NET(c, 3, &t);
  uint8_t *i = IN(c, 1), *o = OUT(c, ROOM(2));
  size_t n = SIZEARG(2), r = 0;
  switch (NUM(0)) {
    case 0: r = fingera_to_address_pubkey(i, SZ(1), (char *)o, n, p); break;
    case 1: r = fingera_to_address_script(i, SZ(1), (char *)o, n, p); break;
    case 2: r = fingera_to_address_witnessv0_keyhash(i, SZ(1), (char *)o, n, p); break;
    case 3: r = fingera_to_address_witnessv0_scripthash(i, SZ(1), (char *)o, n, p); break;
    case 4: r = fingera_to_address_witness_unknown(i, SZ(1), (char *)o, n, p); break;
  }
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_addr_dec(call *c) { /* text, capacity, network */
  chain_parameters t;
  const chain_parameters *p = NET(c, 2, &t);
  size_t n = SIZEARG(1);
  uint8_t *i = IN(c, 0), *o = OUT(c, ROOM(1));
  int r = (int)fingera_btc_address_decode((char *)i, SZ(0), o, &n, p);
  RET(c, r);
  if (r) EMITO(c, 0, n);
}

/* ------------------------------------------------------------------ keys */
static void op_key_init(call *c) {
  (void)c;
  fingera_btc_key_init();
}
static void op_key_uninit(call *c) {
  (void)c;
  fingera_btc_key_uninit();
}
static void op_key_new(call *c) {
  uint8_t *o = OUT(c, 32);
  fingera_btc_key_new(o);
  EMITO(c, 0, 32);
}
static void op_os_rand(call *c) { /* count */
  uint8_t *o = OUT(c, NUM(0));
  fingera_os_rand_bytes(o, NUM(0));
  EMITO(c, 0, NUM(0));
}
static void op_wif_enc(call *c) { /* key, compressed, network */
  chain_parameters t;
  const chain_parameters *p = NET(c, 2, &t);
  uint8_t *k = IN(c, 0);
  size_t cap = fingera_key_string_max_length();
  size_t need = fingera_to_base58_check_length(33, p->prefix_secret_key_size);
  uint8_t *o = OUT(c, need > cap ? need : cap);
  size_t r = fingera_btc_key_to_string(k, (char *)o, (int)NUM(1), p);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_wif_dec(call *c) { /* text, network */
  chain_parameters t;
  const chain_parameters *p = NET(c, 1, &t);
  int comp = -77;
  uint8_t *i = IN(c, 0), *o = OUT(c, 32);
  int r = fingera_btc_key_from_string((char *)i, SZ(0), o, &comp, p);
  RET(c, !!r);
  if (r) {
    EMITO(c, 0, 32);
    uint8_t b = comp != 0;
    EMIT(c, &b, 1);
  }
}
static void op_key_enc(call *c) { /* key, requested size */
  uint8_t *k = IN(c, 0), *o = OUT(c, ROOM(1));
  int r = fingera_btc_key_encode(k, o, SIZEARG(1));
  RET(c, !!r);
  if (r) EMITO(c, 0, ROOM(1));
}
static void op_key_dec(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, 32);
  int r = fingera_btc_key_decode(i, SZ(0), o);
  RET(c, !!r);
  if (r) EMITO(c, 0, 32);
}
static void op_key_pub(call *c) { /* key -> 33, 65 */
  uint8_t *k = IN(c, 0), *o = OUT(c, 64), *e = OUT(c, 33), *u = OUT(c, 65);
  fingera_btc_key_get_pub(k, o);
  int r = !!fingera_btc_pubkey_encode(o, e, 33);
  r += !!fingera_btc_pubkey_encode(o, u, 65);
  RET(c, r);
  EMITO(c, 1, 33);
  EMITO(c, 2, 65);
}
static void op_pub_dec(call *c) { /* encoding -> 33, 65 */
  uint8_t *i = IN(c, 0), *o = OUT(c, 64);
  int r = fingera_btc_pubkey_decode(i, SZ(0), o);
  RET(c, !!r);
  if (r) {
    uint8_t e[33] = {0}, u[65] = {0};
    fingera_btc_pubkey_encode(o, e, 33);
    fingera_btc_pubkey_encode(o, u, 65);
    EMIT(c, e, 33);
    EMIT(c, u, 65);
  }
}
static const secp256k1_context *noctx(void) { return secp256k1_context_no_precomp; }
/* 64-byte library representations, built with the curve library itself */
static int mkpub(call *c, int k, uint8_t *pub64) {
  secp256k1_pubkey p;
  if (!secp256k1_ec_pubkey_parse(noctx(), &p, c->a[k].p, SZ(k))) return 0;
  memcpy(pub64, &p, 64);
  return 1;
}
static uint8_t *place(call *c, int slot, const void *d, size_t n) {
  arg *a = &c->a[slot];
  memset(a, 0, sizeof *a);
  a->p = __real_malloc(n);
  a->n = n;
  memcpy(a->p, d, n);
  if (slot >= c->na) c->na = slot + 1;
  return IN(c, slot);
}
static void op_pub_enc(call *c) { /* encoding, requested size */
  uint8_t q[64];
  if (!mkpub(c, 0, q)) { sb_fmt(&c->res, " BADARG"); return; }
  uint8_t *p = place(c, 8, q, 64), *o = OUT(c, ROOM(1));
  int r = fingera_btc_pubkey_encode(p, o, SIZEARG(1));
  RET(c, !!r);
  if (r) EMITO(c, 0, ROOM(1));
}
static void op_sign(call *c) {
  uint8_t *k = IN(c, 0), *h = IN(c, 1), *o = OUT(c, 64), rs[64];
  fingera_btc_key_sign(k, h, o);
  secp256k1_ecdsa_signature s;
  memcpy(&s, o, 64);
  secp256k1_ecdsa_signature_serialize_compact(noctx(), rs, &s);
  EMIT(c, rs, 64);
}
static void op_verify(call *c) { /* public key, hash, compact signature */
  uint8_t q[64];
  secp256k1_ecdsa_signature s;
  if (!mkpub(c, 0, q) ||
      !secp256k1_ecdsa_signature_parse_compact(noctx(), &s, c->a[2].p)) {
    sb_fmt(&c->res, " BADARG");
    return;
  }
  uint8_t *h = IN(c, 1), *p = place(c, 8, q, 64), *g = place(c, 9, &s, 64);
  RET(c, !!fingera_btc_key_verify(p, h, g));
}
/* a signature of the library's own, verified as it is, with the other S, for another hash, by another
   key and with another R: one bit each */
static void op_signed(call *c) { /* key, hash, other key, bit */
  static const uint8_t order[32] = {255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254, 186, 174,
                                    220, 230, 175, 72, 160, 59, 191, 210, 94, 140, 208, 54, 65, 65};
  uint8_t *k = IN(c, 0), *h = IN(c, 1), *other = IN(c, 2), *o = OUT(c, 64), rs[64], t[64], h2[32], p[64], q[64];
  secp256k1_ecdsa_signature s;
  size_t bit = NUM(3) & 255;
  fingera_btc_key_get_pub(k, p);
  fingera_btc_key_get_pub(other, q);
  fingera_btc_key_sign(k, h, o);
  memcpy(&s, o, 64);
  secp256k1_ecdsa_signature_serialize_compact(noctx(), rs, &s);
  long long r = !!fingera_btc_key_verify(p, h, o);
  memcpy(t, rs, 64);
  for (int i = 31, b = 0; i >= 0; i--) {
    int d = order[i] - rs[32 + i] - b;
    b = d < 0;
    t[32 + i] = (uint8_t)d;
  }
  if (secp256k1_ecdsa_signature_parse_compact(noctx(), &s, t)) r |= !!fingera_btc_key_verify(p, h, (uint8_t *)&s) * 2;
  memcpy(h2, h, 32);
  h2[bit / 8] ^= 1 << bit % 8;
  r |= !!fingera_btc_key_verify(p, h2, o) * 4;
  r |= !!fingera_btc_key_verify(q, h, o) * 8;
  memcpy(t, rs, 64);
  t[bit / 8] ^= 1 << bit % 8;
  if (secp256k1_ecdsa_signature_parse_compact(noctx(), &s, t)) r |= !!fingera_btc_key_verify(p, h, (uint8_t *)&s) * 16;
  RET(c, r);
  EMIT(c, rs, 64);
}
static void op_sig_enc(call *c) {
  secp256k1_ecdsa_signature s;
  if (!secp256k1_ecdsa_signature_parse_compact(noctx(), &s, c->a[0].p)) {
    sb_fmt(&c->res, " BADARG");
    return;
  }
  uint8_t *g = place(c, 9, &s, 64), *o = OUT(c, 72);
  size_t r = fingera_btc_signature_encode(g, o);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_sig_dec(call *c) {
  uint8_t *i = IN(c, 0), *o = OUT(c, 64), rs[64];
  int r = fingera_btc_signature_decode(i, SZ(0), o);
  RET(c, !!r);
  if (r) {
    secp256k1_ecdsa_signature s;
    memcpy(&s, o, 64);
    secp256k1_ecdsa_signature_serialize_compact(noctx(), rs, &s);
    EMIT(c, rs, 64);
  }
}
static void op_key_derive(call *c) { /* key, chain, child */
  uint8_t *k = IN(c, 0), *h = IN(c, 1), *o = OUT(c, 32), *oc = OUT(c, 32);
  int r = fingera_btc_key_derive(k, h, o, oc, U32(c, 2));
  RET(c, !!r);
  if (r) {
    EMITO(c, 0, 32);
    EMITO(c, 1, 32);
  }
}
static void op_pub_derive(call *c) { /* public key, chain, child */
  uint8_t *k = IN(c, 0), *h = IN(c, 1), *o = OUT(c, 33), *oc = OUT(c, 32);
  int r = fingera_btc_pubkey_derive(k, h, o, oc, U32(c, 2));
  RET(c, !!r);
  if (r) {
    EMITO(c, 0, 33);
    EMITO(c, 1, 32);
  }
}
static void op_keyid(call *c) { /* key, compressed */
  uint8_t *k = IN(c, 0), *o = OUT(c, 20);
  fingera_btc_key_keyid(k, (int)NUM(1), o);
  EMITO(c, 0, 20);
}
static void op_pub_keyid(call *c) { /* encoding, compressed */
  uint8_t q[64];
  if (!mkpub(c, 0, q)) { sb_fmt(&c->res, " BADARG"); return; }
  uint8_t *p = place(c, 8, q, 64), *o = OUT(c, 20);
  fingera_btc_pubkey_keyid(p, (int)NUM(1), o);
  EMITO(c, 0, 20);
}
/* fingerprints: the four bytes a child serialised with them carries */
static void emit_fpr(call *c, uint32_t f) {
  fingera_ex_key k;
  uint8_t b[BIP32_EXTKEY_SIZE];
  memset(&k, 7, sizeof k);
  k.ext.fingerprint = f;
  fingera_exkey_encode(&k, b);
  EMIT(c, b + 1, 4);
}
static void op_key_fpr(call *c) {
  emit_fpr(c, fingera_btc_key_fingerprint(IN(c, 0), (int)NUM(1)));
}
static void op_pub_fpr(call *c) {
  emit_fpr(c, fingera_btc_pubkey_fingerprint(IN(c, 0)));
}

/* -------------------------------------------------------- extended keys */
/* an extended key is exchanged as depth, fingerprint(4), child(4), chain(32),
 * key(32|33) in argument order; structures are built here field by field.
 * The fingerprint field is the 4 bytes as serialised (little-endian integer). */
static uint32_t rdle(const uint8_t *p) {
  return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24;
}
static uint32_t rdbe(const uint8_t *p) {
  return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3];
}
static void ext_of(const uint8_t *b, fingera_ex_extension *e) {
  e->depth = b[0];
  e->fingerprint = rdle(b + 1);
  e->child = rdbe(b + 5);
  memcpy(e->chain_code, b + 9, 32);
}
static void ext_to(const fingera_ex_extension *e, uint8_t *b) {
  b[0] = e->depth;
  for (int i = 0; i < 4; i++) b[1 + i] = (uint8_t)(e->fingerprint >> (8 * i));
  for (int i = 0; i < 4; i++) b[5 + i] = (uint8_t)(e->child >> (24 - 8 * i));
  memcpy(b + 9, e->chain_code, 32);
}
static fingera_ex_key *in_xk(call *c, int k, int slot) { /* 73 bytes */
  fingera_ex_key x;
  memset(&x, 0, sizeof x);
  ext_of(c->a[k].p, &x.ext);
  memcpy(x.key, c->a[k].p + 41, 32);
  return (fingera_ex_key *)place(c, slot, &x, sizeof x);
}
static fingera_ex_pubkey *in_xp(call *c, int k, int slot) { /* 74 bytes */
  fingera_ex_pubkey x;
  memset(&x, 0, sizeof x);
  ext_of(c->a[k].p, &x.ext);
  memcpy(x.c_pubkey, c->a[k].p + 41, 33);
  return (fingera_ex_pubkey *)place(c, slot, &x, sizeof x);
}
static void emit_xk(call *c, const fingera_ex_key *x) {
  uint8_t b[73];
  ext_to(&x->ext, b);
  memcpy(b + 41, x->key, 32);
  EMIT(c, b, 73);
}
static void emit_xp(call *c, const fingera_ex_pubkey *x) {
  uint8_t b[74];
  ext_to(&x->ext, b);
  memcpy(b + 41, x->c_pubkey, 33);
  EMIT(c, b, 74);
}
static void op_xk_init(call *c) {
  uint8_t *s = IN(c, 0);
  fingera_ex_key *o = (fingera_ex_key *)OUT(c, sizeof *o);
  fingera_exkey_init(o, s, SZ(0));
  emit_xk(c, o);
}
static void op_xk_derive(call *c) { /* key73, child, fingerprint(4 bytes) */
  fingera_ex_key *k = in_xk(c, 0, 8), *o = (fingera_ex_key *)OUT(c, sizeof *o);
  int r = fingera_exkey_derive(k, o, U32(c, 1), rdle(c->a[2].p));
  RET(c, !!r);
  if (r) emit_xk(c, o);
}
static void op_xp_derive(call *c) {
  fingera_ex_pubkey *k = in_xp(c, 0, 8), *o = (fingera_ex_pubkey *)OUT(c, sizeof *o);
  int r = fingera_expubkey_derive(k, o, U32(c, 1), rdle(c->a[2].p));
  RET(c, !!r);
  if (r) emit_xp(c, o);
}
static void op_xk_pub(call *c) {
  fingera_ex_key *k = in_xk(c, 0, 8);
  fingera_ex_pubkey *o = (fingera_ex_pubkey *)OUT(c, sizeof *o);
  fingera_exkey_get_pub(k, o);
  emit_xp(c, o);
}
/* both ways to the public key of a child */
static void op_commute(call *c) { /* key73, child, fingerprint(4 bytes) */
  fingera_ex_key *k = in_xk(c, 0, 8), x;
  fingera_ex_pubkey kp, a, b;
  memset(&x, c->fill, sizeof x);
  memset(&kp, c->fill, sizeof kp);
  memset(&a, c->fill, sizeof a);
  memset(&b, c->fill, sizeof b);
  fingera_exkey_get_pub(k, &kp);
  int r = !!fingera_exkey_derive(k, &x, U32(c, 1), rdle(c->a[2].p));
  if (r) fingera_exkey_get_pub(&x, &a);
  int q = !!fingera_expubkey_derive(&kp, &b, U32(c, 1), rdle(c->a[2].p));
  RET(c, r + 2 * q);
  emit_xp(c, &kp);
  if (r) emit_xk(c, &x);
  if (r) emit_xp(c, &a);
  if (q) emit_xp(c, &b);
}
static void op_xk_enc(call *c) {
  fingera_ex_key *k = in_xk(c, 0, 8);
  uint8_t *o = OUT(c, 74);
  fingera_exkey_encode(k, o);
  EMITO(c, 0, 74);
}
static void op_xp_enc(call *c) {
  fingera_ex_pubkey *k = in_xp(c, 0, 8);
  uint8_t *o = OUT(c, 74);
  fingera_expubkey_encode(k, o);
  EMITO(c, 0, 74);
}
static void op_xk_dec(call *c) {
  uint8_t *i = IN(c, 0);
  fingera_ex_key *o = (fingera_ex_key *)OUT(c, sizeof *o);
  fingera_exkey_decode(i, o);
  emit_xk(c, o);
}
static void op_xp_dec(call *c) {
  uint8_t *i = IN(c, 0);
  fingera_ex_pubkey *o = (fingera_ex_pubkey *)OUT(c, sizeof *o);
  fingera_expubkey_decode(i, o);
  emit_xp(c, o);
}
static size_t xcap(size_t psize) {
  size_t cap = fingera_exkey_string_max_length();
  size_t need = fingera_to_base58_check_length(BIP32_EXTKEY_SIZE, psize);
  return need > cap ? need : cap;
}
static void op_xk_str(call *c) { /* key73, network */
  chain_parameters t;
  const chain_parameters *p = NET(c, 1, &t);
  fingera_ex_key *k = in_xk(c, 0, 8);
  uint8_t *o = OUT(c, xcap(p->prefix_ext_secret_key_size));
  size_t r = fingera_exkey_to_string(k, (char *)o, p);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_xp_str(call *c) {
  chain_parameters t;
  const chain_parameters *p = NET(c, 1, &t);
  fingera_ex_pubkey *k = in_xp(c, 0, 8);
  uint8_t *o = OUT(c, xcap(p->prefix_ext_public_key_size));
  size_t r = fingera_expubkey_to_string(k, (char *)o, p);
  RETZ(c, r);
  EMITO(c, 0, r);
}
static void op_xk_unstr(call *c) { /* text, network */
  chain_parameters t;
  const chain_parameters *p = NET(c, 1, &t);
  uint8_t *i = IN(c, 0);
  fingera_ex_key *o = (fingera_ex_key *)OUT(c, sizeof *o);
  int r = fingera_exkey_from_string((char *)i, SZ(0), o, p);
  RET(c, !!r);
  if (r) emit_xk(c, o);
}
static void op_xp_unstr(call *c) {
  chain_parameters t;
  const chain_parameters *p = NET(c, 1, &t);
  uint8_t *i = IN(c, 0);
  fingera_ex_pubkey *o = (fingera_ex_pubkey *)OUT(c, sizeof *o);
  int r = fingera_expubkey_from_string((char *)i, SZ(0), o, p);
  RET(c, !!r);
  if (r) emit_xp(c, o);
}

/* A wallet: a seed's master key and a program of 8-byte instructions (operation,
 * two earlier registers or a network, flag, 4 bytes).  Every instruction fills the
 * next register with what the library made out of the library's own structures,
 * and reports texts and encodings on the way, then the register. */
#define REGS 7
static void op_wallet(call *c) { /* seed, program */
  static const chain_parameters *const nets[3] = {
      &g_mainnet_chain_parameters, &g_testnet_chain_parameters, &g_regnet_chain_parameters};
  struct { int t; void *p; } reg[REGS + 1];
  uint8_t *seed = IN(c, 0);
  const uint8_t *prog = c->a[1].p;
  size_t steps = SZ(1) / 8;
  if (steps >= REGS) { sb_fmt(&c->res, " BADARG"); return; }
  fingera_ex_key *m = (fingera_ex_key *)OUT(c, sizeof *m);
  fingera_exkey_init(m, seed, SZ(0));
  reg[1].t = 1;
  reg[1].p = m;
  emit_xk(c, m);
  for (size_t k = 0; k < steps; k++) {
    const uint8_t *i = prog + 8 * k;
    uint8_t buf[512], *x = buf;              /* what is reported */
    uint8_t raw[512];
    if (i[1] < 1 || i[1] > k + 1) { sb_fmt(&c->res, " BADARG"); return; }
    int t = reg[i[1]].t, nt = 0;
    fingera_ex_key *xk = reg[i[1]].p, *nk;
    fingera_ex_pubkey *xp = reg[i[1]].p, *np;
    const chain_parameters *net = nets[i[2] % 3];
    nk = (fingera_ex_key *)OUT(c, sizeof *np > sizeof *nk ? sizeof *np : sizeof *nk);
    np = (fingera_ex_pubkey *)nk;
    uint8_t pub[64], hash[32], id[20];
    size_t n = 0;
    int ok = 0;
    if (t == 1) fingera_btc_key_get_pub(xk->key, pub);
    if (t == 2 && !fingera_btc_pubkey_decode(xp->c_pubkey, 33, pub)) t = 0;
    switch (i[0]) {
      case 1: /* child */
        if (t == 1)
          ok = fingera_exkey_derive(xk, nk, rdbe(i + 4), fingera_btc_key_fingerprint(xk->key, 1));
        else if (t == 2)
          ok = fingera_expubkey_derive(xp, np, rdbe(i + 4), fingera_btc_pubkey_fingerprint(xp->c_pubkey));
        if (ok) nt = t;
        break;
      case 2: /* public counterpart */
        if (t == 1) {
          fingera_exkey_get_pub(xk, np);
          nt = 2;
        }
        break;
      case 3: /* through the 74 bytes */
        if (t == 1) {
          fingera_exkey_encode(xk, x);
          fingera_exkey_decode(x, nk);
        } else if (t == 2) {
          fingera_expubkey_encode(xp, x);
          fingera_expubkey_decode(x, np);
        }
        if (t == 1 || t == 2) x += 74;
        nt = t == 3 ? 0 : t;
        break;
      case 4: /* through the text */
        if (t == 1) {
          n = fingera_exkey_to_string(xk, (char *)x, net);
          ok = fingera_exkey_from_string((char *)x, n, nk, net);
        } else if (t == 2) {
          n = fingera_expubkey_to_string(xp, (char *)x, net);
          ok = fingera_expubkey_from_string((char *)x, n, np, net);
        }
        x += n;
        if (ok) nt = t;
        break;
      case 5: /* the key through WIF */
        if (t == 1) {
          int comp = -9;
          n = fingera_btc_key_to_string(xk->key, (char *)x, i[3], net);
          *nk = *xk;
          memset(nk->key, 0x5b, 32);
          ok = fingera_btc_key_from_string((char *)x, n, nk->key, &comp, net);
          x += n;
          *x++ = comp == !!i[3];
          if (ok) nt = 1;
        }
        break;
      case 6: /* the key through DER */
        if (t == 1) {
          n = i[3] ? 214 : 279;
          ok = fingera_btc_key_encode(xk->key, x, n);
          *nk = *xk;
          memset(nk->key, 0x5b, 32);
          ok = ok && fingera_btc_key_decode(x, n, nk->key);
          x += n;
          if (ok) nt = 1;
        }
        break;
      case 7: /* a signature, through its encoding */
        if (t == 1) {
          fingera_btc_hash256(i + 4, 4, hash);
          fingera_btc_key_sign(xk->key, hash, raw);
          n = fingera_btc_signature_encode(raw, x);
          ok = fingera_btc_signature_decode(x, n, nk);
          x += n;
          if (ok) nt = 3;
        }
        break;
      case 8: /* verification of register i[2] */
        if ((t == 1 || t == 2) && i[2] >= 1 && i[2] <= k + 1 && reg[i[2]].t == 3) {
          fingera_btc_hash256(i + 4, 4, hash);
          *x++ = !!fingera_btc_key_verify(pub, hash, reg[i[2]].p);
        }
        break;
      case 9: /* an address and back */
        if (t == 1 || t == 2) {
          uint8_t script[22] = {0, 20};
          if (t == 1) fingera_btc_key_keyid(xk->key, 1, id);
          else fingera_btc_pubkey_keyid(pub, 1, id);
          memcpy(script + 2, id, 20);
          if (i[3] == 1) n = fingera_to_address_pubkey(id, 20, (char *)x, 200, net);
          if (i[3] == 3) n = fingera_to_address_witnessv0_keyhash(id, 20, (char *)x, 200, net);
          if (i[3] == 2) {
            fingera_btc_hash160(script, 22, id);
            n = fingera_to_address_script(id, 20, (char *)x, 200, net);
          }
          size_t cap = 200;
          int kind = (int)fingera_btc_address_decode((char *)x, n, raw, &cap, net);
          x += n;
          *x++ = (uint8_t)kind;
          if (kind) {
            if (cap > 100) cap = 100;
            memcpy(x, raw, cap);
            x += cap;
          }
        }
        break;
      case 10: /* identifier in either form */
        if (t == 1) fingera_btc_key_keyid(xk->key, i[3], x);
        else if (t == 2) fingera_btc_pubkey_keyid(pub, i[3], x);
        if (t == 1 || t == 2) x += 20;
        break;
      default: sb_fmt(&c->res, " BADARG"); return;
    }
    reg[k + 2].t = nt;
    reg[k + 2].p = nk;
    if (nt == 1 || nt == 2) {
      ext_to(&nk->ext, x);
      memcpy(x + 41, nt == 1 ? nk->key : np->c_pubkey, nt == 1 ? 32 : 33);
      x += nt == 1 ? 73 : 74;
    }
    EMIT(c, buf, (size_t)(x - buf));
  }
}

/* ----------------------------------------------------- cleanse, fatal, endian */
static void op_cleanse(call *c) { /* buffer, offset, size -> buffer */
  uint8_t *p = INOUT(c, 0);
  fingera_cleanse(p + NUM(1), NUM(2));
  EMITO(c, 0, SZ(0));
}
static void op_cycles(call *c) { /* so many initialise/release cycles: the least randomness one drew */
  size_t least = 1000;
  for (uint64_t i = 0; i < NUM(0); i++) {
    env.total = 0;
    fingera_btc_key_init();
    if (env.total < least) least = env.total;
    fingera_btc_key_uninit();
  }
  RETZ(c, least);
}
static void fatal_now(call *c) { /* func, file, line8, kind, text, number8, errno8 */
  char *s[3];
  int idx[3] = {0, 1, 4};
  for (int i = 0; i < 3; i++) {
    s[i] = __real_malloc(SZ(idx[i]) + 1);
    memcpy(s[i], c->a[idx[i]].p, SZ(idx[i]));
    s[i][SZ(idx[i])] = 0;
  }
  int e = (int)U64(c, 6);
  long line = (long)U64(c, 2), v = (long)U64(c, 5);
  switch (NUM(3)) {
    case 0: errno = e; fingera_fatal(s[0], s[1], line, "%s", s[2]); break;
    case 1: errno = e; fingera_fatal(s[0], s[1], line, "%s %ld", s[2], v); break;
    case 2: errno = e; fingera_fatal(s[0], s[1], line, s[2]); break;
    case 3: errno = e; fingera_fatal(s[0], s[1], line, "%%%ld:%s", v, s[2]); break;
    case 4:
      errno = e;
      fingera_fatal(s[0], s[1], line, "%s|%ld|%c%s|%ld|%s|%ld%c", s[2], v, 'Q', s[2], v, s[2], v, ':');
      break;
  }
}
static void *fatal_thread(void *c) {
  fatal_now(c);
  return NULL;
}
/* then: 0 as is, 1 standard error closed, 2 full, 3 in another thread */
static void op_fatal(call *c) {
  if (NUM(7) == 1) syscall(SYS_close, 2);
  if (NUM(7) == 2) dup2((int)syscall(SYS_openat, AT_FDCWD, "/dev/full", O_WRONLY), 2);
  pthread_t t;
  if (NUM(7) == 3 && pthread_create(&t, NULL, fatal_thread, c) == 0)
    pthread_join(t, NULL);
  else
    fatal_now(c);
}
static void op_endian(call *c) { /* which, buffer, offset, value8 */
  uint8_t *p = INOUT(c, 1);
  size_t off = NUM(2);
  uint64_t v = U64(c, 3), r = 0;
  switch (NUM(0)) {
    case 0: r = read_little_32(p + off); break;
    case 1: r = read_little_64(p + off); break;
    case 2: r = read_big_32(p + off); break;
    case 3: r = read_big_64(p + off); break;
    case 4: write_little_32(p + off, (uint32_t)v); break;
    case 5: write_big_32(p + off, (uint32_t)v); break;
    case 6: r = le32(p, off); break;
    case 7: r = le64(p, off); break;
    case 8: r = be32(p, off); break;
    case 9: r = be64(p, off); break;
  }
  EMIT64(c, r);
  EMITO(c, 0, SZ(1));
}
static void op_vast_endian(call *c) { /* which, bytes there, 8-byte offset */
  size_t off = U64(c, 2), n = off + SZ(1);
  uint64_t r = 0;
  uint8_t *p = mmap(NULL, n + page, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    sb_fmt(&c->res, " NOMEM");
    return;
  }
  memcpy(p + off, c->a[1].p, SZ(1));
  switch (NUM(0)) {
    case 6: r = le32(p, off); break;
    case 7: r = le64(p, off); break;
    case 8: r = be32(p, off); break;
    case 9: r = be64(p, off); break;
  }
  munmap(p, n + page);
  EMIT64(c, r);
}

typedef struct {
  const char *name;
  void (*fn)(call *);
} opdef;
static const opdef OPS[] = {
#define O(n) {#n, op_##n}
    O(to_hex), O(from_hex), O(hex_dump), O(to_b64), O(to_b64u), O(from_b64),
    O(from_b64u), O(to_b32), O(to_b32raw), O(from_b32), O(from_b32raw),
    O(to_b58), O(from_b58), O(to_b58c), O(from_b58c), O(b32e), O(b32d),
    O(varint_enc), O(varint_dec), O(zigzag_enc), O(zigzag_dec), O(len),
    O(len_b64), O(len_b32), O(sha1), O(rmd160), O(sha256), O(sha512),
    O(hash160), O(hash256), O(huge), O(hmac256), O(hmac512), O(d64), O(d64n), O(vast),
    O(vast_enc), O(vast_dump), O(vast_rand), O(vast_cleanse), O(bip32h),
    O(addr), O(addr_dec), O(key_init), O(key_uninit), O(key_new), O(os_rand),
    O(wif_enc), O(wif_dec), O(key_enc), O(key_dec), O(key_pub), O(pub_dec),
    O(pub_enc), O(sign), O(verify), O(sig_enc), O(sig_dec), O(key_derive),
    O(pub_derive), O(keyid), O(pub_keyid), O(key_fpr), O(pub_fpr), O(xk_init),
    O(xk_derive), O(xp_derive), O(xk_pub), O(commute), O(signed), O(xk_enc), O(xp_enc), O(xk_dec),
    O(xp_dec), O(xk_str), O(xp_str), O(xk_unstr), O(xp_unstr), O(wallet), O(cleanse),
    O(cycles), O(fatal), O(endian), O(vast_endian), {NULL, NULL}};

/* ------------------------------------------------------------ scheduler */
/* Thread A runs its operation and is stopped at its k-th basic block while
 * thread B runs a whole operation; then A continues. */
static __thread int sched_me;      /* 1 in thread A while its operation runs */
static volatile long sched_at;     /* block at which A stops, -1: never */
static __thread long sched_n;      /* blocks executed by A */
static volatile long sched_total;
static sem_t sem_b, sem_done;
__attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc(void) {
  if (!sched_me) return;
  if (sched_n++ == sched_at) {
    sem_post(&sem_b);
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 1; /* B may be waiting for a lock that A holds */
    while (sem_timedwait(&sem_done, &ts) && errno == EINTR) {
    }
  }
}

/* --------------------------------------------------------------- runner */
static void parse(call *c, char **t, int n, char *mode, char *fill, int *fork_it,
                  int *hl) {
  sbuf keep = c->res;
  int slot = c->slot0;
  memset(c, 0, sizeof *c);
  c->res = keep;
  c->res.n = 0;
  if (c->res.p) c->res.p[0] = 0;
  c->slot0 = slot;
  c->mode = mode[0];
  if (mode[0] == 'c') c->ctx = unhex(mode + 1, &c->nctx);
  c->fill = (uint8_t)strtol(fill, NULL, 16);
  for (int i = 0; i < n; i++) {
    char k = t[i][0];
    if (k == 'x' && c->na < MAXARG) {
      c->a[c->na].p = unhex(t[i] + 1, &c->a[c->na].n);
      c->na++;
    } else if (k == 'i' && c->na < MAXARG) {
      c->a[c->na].isnum = 1;
      c->a[c->na].num = t[i][1] == '-' ? (uint64_t)strtoll(t[i] + 1, NULL, 10)
                                       : strtoull(t[i] + 1, NULL, 10);
      c->na++;
    } else if (k == 'e') {
      env_script(t[i] + 1);
    } else if (k == 't') {
      tweak_fail = 1;
    } else if (k == 'F') {
      *fork_it = 1;
    } else if (k == 'T') {
      *fork_it = 2; /* in a thread of its own */
    } else if (k == 'H') {
      *hl = 1;
    }
  }
}
static const opdef *find(const char *n) {
  for (const opdef *o = OPS; o->name; o++)
    if (!strcmp(o->name, n)) return o;
  return NULL;
}
static void finish(call *c) { /* effects outside the reported values */
  int mod = 0;
  for (int i = 0; i < c->na; i++) {
    arg *a = &c->a[i];
    if (a->placed && a->placed != a->p && memcmp(a->placed, a->p, a->n)) mod = 1;
  }
  sb_fmt(&c->res, " m%d", mod);
  for (int i = 0; i < c->nout; i++) {
    outb *o = &c->o[i];
    long lo = -1, hi = -1, n = (long)(o->lo + o->cap + o->hi);
    for (long j = 0; j < n; j++)
      if (o->base[j] != c->fill) {
        if (lo < 0) lo = j;
        hi = j + 1;
      }
    if (lo >= 0) {
      lo -= (long)o->lo;
      hi -= (long)o->lo;
      sb_fmt(&c->res, " x%ld:%ld:%zu", lo, hi, o->cap);
    } else {
      sb_fmt(&c->res, " x-:%zu", o->cap);
    }
  }
  for (int i = 0; i < c->na; i++) {
    if (c->mode == 'a' && c->a[i].placed && c->a[i].placed != c->a[i].p)
      __real_free(c->a[i].placed);
    if (c->a[i].p) __real_free(c->a[i].p);
  }
  if (c->mode == 'a')
    for (int i = 0; i < c->nout; i++) __real_free(c->o[i].p);
  if (c->ctx) __real_free(c->ctx);
  c->ctx = NULL;
  c->na = c->nout = c->nin = 0;
}
static __attribute__((noinline)) void paint(int b) {
  uint8_t a[1 << 16];
  memset(a, b, sizeof a);
  __asm__ volatile("" : : "r"(a) : "memory");
}
static unsigned long litter_n;
/* the operation, on a stack that has been used */
static __attribute__((noinline)) void run(const opdef *o, call *c) {
  litter_n = litter_n * 6364136223846793005ul + 1442695040888963407ul + c->fill;
  litter = (uint8_t)(litter_n >> 56);
  if ((litter_n >> 50 & 3) == 0) litter = 0;
  if ((litter_n >> 50 & 3) == 1) litter = 0xff;
  paint(litter);
  static const int LEFT[16] = {0, EINTR, EAGAIN, ERANGE, EINTR, EIO, ENOMEM, EINTR, EBADF, 0, EINVAL, ENOENT, EPERM, 0, EINTR, ENOSYS};
  errno = LEFT[litter_n >> 45 & 15]; /* of an earlier call */
  o->fn(c);
}
static int count_fds(void) {
  int n = 0;
  for (int i = 0; i < 64; i++)
    if (fcntl(i, F_GETFD) >= 0) n++;
  return n;
}
static FILE *resp;
static void execute(const opdef *o, call *c, int hl) {
  freed.n = 0;
  if (freed.p) freed.p[0] = 0;
  /* warm the buffers so that the heap balance is the library's own */
  sb_add(&c->res, "", 0);
  int fd0 = count_fds();
  env_on = 1;
  heap_log = hl;
  run(o, c);
  heap_log = 0;
  env_on = 0;
  if (tweak_fail) sb_fmt(&c->res, " t%d", tweak_hits);
  tweak_fail = tweak_hits = 0;
  sb_fmt(&c->res, " d%d", count_fds() - fd0);
  if (hl) {
    int live = 0;
    for (int i = 0; i < HT; i++) {
      live += ht[i].p != NULL;
      ht[i].p = NULL;
    }
    sb_fmt(&c->res, " l%d", live);
  }
}
static void answer(const char *id, const char *oc, call *c) {
  fprintf(resp, "R %s %s%s%s%s\n", id, oc, c->res.p ? c->res.p : "",
          elog->p, freed.n ? freed.p : "");
  fflush(resp);
}
static call C0, C1;
typedef struct { const opdef *o; call *c; int hl; } job_t;
static void *run_job(void *a) {
  job_t *j = a;
  execute(j->o, j->c, j->hl);
  finish(j->c);
  return NULL;
}
/* fork: the child writes its answer body to a pipe; stderr is captured */
static void run_forked(const char *id, const opdef *o, call *c, int hl) {
  int p[2], ef = memfd_create("err", 0);
  if (pipe(p)) exit(3);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit few = {1 << 26, 1 << 26};
    setrlimit(RLIMIT_FSIZE, &few);
    signal(SIGXFSZ, SIG_IGN);
    alarm(10);
    dup2(ef, 2);
    execute(o, c, hl);
    finish(c);
    size_t off = 0;
    while (off < c->res.n) {
      ssize_t w = write(p[1], c->res.p + off, c->res.n - off);
      if (w <= 0) break;
      off += (size_t)w;
    }
    _exit(77);
  }
  syscall(SYS_close, p[1]);
  sbuf b = {0};
  char t[4096];
  ssize_t k;
  while ((k = syscall(SYS_read, p[0], t, sizeof t)) > 0) sb_add(&b, t, (size_t)k);
  syscall(SYS_close, p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  char oc[64];
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && b.n)
    strcpy(oc, "ok");
  else if (WIFEXITED(st))
    snprintf(oc, sizeof oc, "exit%d", WEXITSTATUS(st));
  else
    snprintf(oc, sizeof oc, "sig%d", WTERMSIG(st));
  sbuf e = {0};
  off_t n = lseek(ef, 0, SEEK_END);
  if (n > 1 << 17) n = 1 << 17; /* more than any message: the rest is not looked at */
  uint8_t *eb = __real_malloc((size_t)n + 1);
  if (pread(ef, eb, (size_t)n, 0) != n) n = 0;
  syscall(SYS_close, ef);
  sb_hex(&e, eb, (size_t)n);
  fprintf(resp, "R %s %s%s%s S%s\n", id, oc, b.n ? b.p : "", elog->p, e.n ? e.p : "");
  fflush(resp);
  __real_free(eb);
  __real_free(b.p);
  __real_free(e.p);
}

static const opdef *OB;
static volatile int b_done;
static void *b_thread(void *arg_) {
  (void)arg_;
  for (;;) {
    while (sem_wait(&sem_b)) {
    }
    if (!OB) return NULL;
    run(OB, &C1);
    b_done = 1;
    sem_post(&sem_done);
  }
}
static void *a_thread(void *arg_) {
  const opdef *oa = arg_;
  sched_n = 0;
  sched_me = 1;
  run(oa, &C0);
  sched_me = 0;
  sched_total = sched_n;
  return NULL;
}
/* P <id> <k> <opA> .. | <opB> .. : run A, stopped at block k for B */
static void run_pair(char **t, int n) {
  int sep = 0, f = 0;
  for (int i = 0; i < n; i++)
    if (!strcmp(t[i], "|")) sep = i;
  const opdef *oa = find(t[3]);
  const opdef *ob = find(t[sep + 1]);
  C0.slot0 = 0;
  C1.slot0 = 1;
  parse(&C0, t + 6, sep - 6, t[4], t[5], &f, &f);
  parse(&C1, t + sep + 4, n - sep - 4, t[sep + 2], t[sep + 3], &f, &f);
  OB = ob;
  b_done = 0;
  sched_at = atol(t[2]);
  sem_init(&sem_b, 0, 0);
  sem_init(&sem_done, 0, 0);
  pthread_t ta, tb;
  pthread_create(&tb, NULL, b_thread, NULL);
  pthread_create(&ta, NULL, a_thread, (void *)oa);
  pthread_join(ta, NULL);
  int bran = !(sched_at < 0 || sched_total <= sched_at);
  for (int i = 0; bran && !b_done && i < 5000; i++) usleep(1000);
  if (bran) bran += !b_done; /* 2: the second operation never came back */
  if (bran == 2) _exit(9);
  OB = NULL;
  sem_post(&sem_b);
  pthread_join(tb, NULL);
  finish(&C0);
  finish(&C1);
  fprintf(resp, "R %s ok n%ld b%d%s |%s\n", t[1], sched_total, bran, C0.res.p,
          C1.res.p ? C1.res.p : "");
  fflush(resp);
}

/* N <id> <count> <op> ..: the same call so many times; the first result and
 * the first one that differs from it (else the last) */
static void run_repeat(char **t, int n) {
  const opdef *o = find(t[3]);
  int f = 0;
  C0.slot0 = 0;
  parse(&C0, t + 6, n - 6, t[4], t[5], &f, &f);
  long count = atol(t[2]), j;
  int na = C0.na;
  sbuf first = {0};
  sb_add(&first, "", 0);
  for (j = 0; j < count; j++) {
    C0.nin = C0.nout = 0;
    for (int i = 0; i < MAXARG; i++) {
      if (i >= na && C0.a[i].p) __real_free(C0.a[i].p);
      if (i >= na) C0.a[i].p = NULL;
      C0.a[i].placed = NULL;
    }
    C0.na = na;
    C0.res.n = 0;
    sb_add(&C0.res, "", 0);
    run(o, &C0);
    if (j == 0) sb_add(&first, C0.res.p, C0.res.n);
    if (strcmp(first.p, C0.res.p)) break;
  }
  fprintf(resp, "R %s ok n%ld b1%s |%s\n", t[1], j, first.p, C0.res.p);
  fflush(resp);
  __real_free(first.p);
  finish(&C0);
}

int main(int argc, char **argv) {
  (void)argc;
  (void)argv;
  if (getenv("VERIF_LOCALE")) { /* characters, numbers, order; the texts of messages stay */
    setlocale(LC_CTYPE, getenv("VERIF_LOCALE"));
    setlocale(LC_NUMERIC, getenv("VERIF_LOCALE"));
    setlocale(LC_COLLATE, getenv("VERIF_LOCALE"));
  }
  signal(SIGPIPE, SIG_IGN);
  int fd = dup(1);
  resp = fdopen(fd, "w");
  int null = sys_open("/dev/null", O_WRONLY, 0);
  dup2(null, 1);
  arenas_init();
  elog = mmap(NULL, sizeof *elog, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  /* the whole input first: a child that exits would move a shared offset */
  sbuf in = {0};
  {
    static char t[1 << 16];
    long k;
    while ((k = syscall(SYS_read, 0, t, sizeof t)) > 0) sb_add(&in, t, (size_t)k);
  }
  static char *tok[64];
  char *next = in.p;
  while (next && *next) {
    char *line = next, *nl = strchr(next, '\n');
    if (nl) *nl = 0;
    next = nl ? nl + 1 : NULL;
    int nt = 0;
    char *save = NULL;
    for (char *t = strtok_r(line, " \n", &save); t && nt < 64; t = strtok_r(NULL, " \n", &save))
      tok[nt++] = t;
    if (nt == 0) continue;
    env_reset();
    tweak_fail = 0;
    if (!strcmp(tok[0], "P")) {
      run_pair(tok, nt);
      continue;
    }
    if (!strcmp(tok[0], "N")) {
      run_repeat(tok, nt);
      continue;
    }
    if (!strcmp(tok[0], "HEAP")) { /* bytes of heap in use */
      struct mallinfo2 mi = mallinfo2();
      fprintf(resp, "R %s ok r%zu d%d\n", tok[1], mi.uordblks, count_fds());
      fflush(resp);
      continue;
    }
    if (!strcmp(tok[0], "SEED")) {
      env.lcg = (uint32_t)strtoul(tok[1], NULL, 10);
      continue;
    }
    const opdef *o = nt > 3 ? find(tok[1]) : NULL;
    if (!o) {
      fprintf(resp, "R %s nosuchop\n", tok[0]);
      fflush(resp);
      continue;
    }
    int fork_it = 0, hl = 0;
    C0.slot0 = 0;
    parse(&C0, tok + 4, nt - 4, tok[2], tok[3], &fork_it, &hl);
    if (fork_it == 2) {
      job_t j = {o, &C0, hl};
      pthread_t t;
      if (pthread_create(&t, NULL, run_job, &j)) exit(3);
      pthread_join(t, NULL);
      answer(tok[0], "ok", &C0);
    } else if (fork_it) {
      run_forked(tok[0], o, &C0, hl);
      finish(&C0);
    } else {
      execute(o, &C0, hl);
      finish(&C0);
      answer(tok[0], "ok", &C0);
    }
  }
  return 0;
}
