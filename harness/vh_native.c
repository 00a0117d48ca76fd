// Replay runtime: feeds counterexample values to a harness built natively.
#define _GNU_SOURCE
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

void vh_assume_(int ok);
static FILE* vh_file;

static uint64_t next_val(void) {
  if (!vh_file) {
    const char* p = getenv("VH_VALUES");
    vh_file = fopen(p ? p : "/dev/null", "r");
  }
  unsigned long long v = 0;
  if (!vh_file || fscanf(vh_file, "%llu", &v) != 1) {
    return 0;
  }
  return v;
}
uint64_t vh_sym(unsigned bits) {
  uint64_t v = next_val();
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t vh_symr(unsigned bits, uint64_t lo, uint64_t hi) {
  uint64_t v = vh_sym(bits);
  vh_assume_(v >= lo && v <= hi);
  return v;
}
void vh_assume_(int ok) {
  if (!ok) {
    printf("VH_DIVERGED assumption not met\n");
    fflush(stdout);
    _Exit(77);
  }
}
void vh_assert_(int ok, const char* msg) {
  if (!ok) {
    printf("VH_FAIL %s\n", msg);
    fflush(stdout);
    _Exit(42);
  }
}
void vh_reach_(const char* msg) {
  printf("VH_REACH %s\n", msg);
  fflush(stdout);
}
uint64_t vh_concrete(uint64_t v) { return v; }

static struct {
  uint8_t* p;
  uint64_t n;
  int shared;
} arenas[16];
static int narenas;

void* vh_arena_(uint64_t size, uint64_t low, int zero) {
  uint64_t pg = 4096, span = (size + pg - 1) / pg * pg;
  uint8_t* m = mmap(NULL, span + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) {
    printf("VH_DIVERGED cannot map %llu bytes\n", (unsigned long long)size);
    fflush(stdout);
    _Exit(77);
  }
  mprotect(m + span, pg, PROT_NONE);
  // As close to the guard page as 16-byte alignment allows.
  uint8_t* base = m + ((span - size) & ~15ull);
  const char* f = getenv("VH_MEM");
  FILE* in = f ? fopen(f, "r") : NULL;
  if (in) {
    unsigned long long a, off;
    static char hex[1 << 16];
    while (fscanf(in, "%llu %llu %65535s", &a, &off, hex) == 3) {
      if ((int)a != narenas || off >= size) {
        continue;
      }
      for (size_t i = 0; hex[2 * i] && off + i < size; i++) {
        unsigned b;
        sscanf(hex + 2 * i, "%2x", &b);
        base[off + i] = b;
      }
    }
    fclose(in);
  }
  arenas[narenas].p = base;
  arenas[narenas].n = size;
  narenas++;
  (void)low;
  (void)zero;
  return base;
}
static struct {
  uint8_t* p;
  uint64_t n;
} shared[16];
static int nshared;
void vh_shared(void* p, uint64_t size) {
  shared[nshared].p = p;
  shared[nshared].n = size;
  nshared++;
}
void vh_readonly(void* p, int on) {
  for (int i = 0; i < narenas; i++) {
    if (arenas[i].p == p) {
      uint64_t pg = 4096;
      uint8_t* lo = (uint8_t*)((uintptr_t)p & ~(pg - 1));
      mprotect(lo, arenas[i].p + arenas[i].n - lo, on ? PROT_READ : PROT_READ | PROT_WRITE);
    }
  }
}

static jmp_buf crash_jb;
static int crash_armed;
static uint64_t crash_at, crash_count;

// The link wraps the allocator so that the live blocks can be counted.
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static void* blocks[4096];
static uint64_t nblocks;
static void* block_add(void* p) {
  if (p && nblocks < 4096) {
    blocks[nblocks++] = p;
  }
  return p;
}
static void block_del(void* p) {
  for (uint64_t i = 0; i < nblocks; i++) {
    if (p && blocks[i] == p) {
      blocks[i] = blocks[--nblocks];
      return;
    }
  }
}
void* __wrap_malloc(size_t n) { return block_add(__real_malloc(n)); }
void* __wrap_calloc(size_t n, size_t m) { return block_add(__real_calloc(n, m)); }
void* __wrap_realloc(void* p, size_t n) {
  block_del(p);
  return block_add(__real_realloc(p, n));
}
void __wrap_free(void* p) {
  block_del(p);
  __real_free(p);
}
uint64_t vh_live_heap(void) { return nblocks; }

#include <ucontext.h>
static ucontext_t ctxs[8];
static void (*thr_fn[8])(void*);
static void* thr_arg[8];
static int thr_n, thr_cur, thr_done[8];
static void thr_main(int id) {
  thr_fn[id](thr_arg[id]);
  thr_done[id] = 1;
  thr_cur = 0;
  setcontext(&ctxs[0]);
}
int vh_spawn(void (*fn)(void*), void* arg) {
  int id = ++thr_n;
  thr_fn[id] = fn;
  thr_arg[id] = arg;
  getcontext(&ctxs[id]);
  ctxs[id].uc_stack.ss_size = 1 << 18;
  ctxs[id].uc_stack.ss_sp = __real_malloc(1 << 18);
  makecontext(&ctxs[id], (void (*)(void))thr_main, 1, id);
  return id;
}
int vh_done(int id) { return thr_done[id]; }
void vh_switch(int id) {
  int me = thr_cur;
  if (id == me) {
    return;
  }
  thr_cur = id;
  swapcontext(&ctxs[me], &ctxs[id]);
}

int vh_crash_run(void (*fn)(void*), void* arg) {
  crash_at = next_val();
  crash_count = 0;
  crash_armed = 1;
  if (_setjmp(crash_jb)) {
    return 1;
  }
  fn(arg);
  crash_armed = 0;
  return 0;
}

// Called before every store of the instrumented bitcode.
void vh_hook_store(void* p, uint64_t n, void* src, int kind) {
  if (!crash_armed) {
    return;
  }
  int hit = 0;
  for (int i = 0; i < nshared; i++) {
    if ((uint8_t*)p >= shared[i].p && (uint8_t*)p < shared[i].p + shared[i].n) {
      hit = 1;
    }
  }
  if (!hit || !n) {
    return;
  }
  uint64_t words = kind ? (n + 7) / 8 : 1;
  if (crash_at >= crash_count + words) {
    crash_count += words;
    return;
  }
  uint64_t done = (crash_at - crash_count) * 8;
  crash_armed = 0;
  if (kind == 1) {
    memmove(p, src, done);
  } else if (kind == 2) {
    memset(p, (int)(uintptr_t)src, done);
  }
  _longjmp(crash_jb, 1);
}
