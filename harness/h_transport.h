// Builds transports in an arbitrary state and reads them back through the API.
//
// The state has a given number of live messages; the arena size, the position
// and size of each message, the numbering, which bookkeeping copy is current,
// the contents of the other copy and of all bytes outside the messages are
// arbitrary.  It covers every state that the operations can leave behind,
// including after the death of a process part way through an operation.
#include <a0/arena.h>
#include <a0/buf.h>
#include <a0/err.h>
#include <a0/mtx.h>
#include <a0/transport.h>

#include <errno.h>
#include <stdlib.h>
#include <string.h>

#include "vh.h"

#define HDR 144
#define FH 40
#define MAXF 8
#define ARENA_MAX (1ull << 40)

// Binary format 0.3.
typedef struct {
  uint64_t seq_low, seq_high, off_head, off_tail, hwm;
} page_t;
typedef struct {
  char magic[9];
  uint8_t version[3];
  uint8_t initialized;
  uint64_t mtx[3];
  uint32_t cnd;
  page_t pages[2];
  uint8_t committed;
  uint64_t arena_size;
} thdr_t;
_Static_assert(sizeof(thdr_t) == HDR, "");

static a0_err_t sys_err(int code) {
  a0_err_syscode = code;
  return A0_ERR_SYS;
}

// Lock stand-ins: the transport is exercised by one process at a time.
static int lk_held, lk_broadcasts, lk_bad;
#ifndef NO_MTX_STUB
a0_err_t a0_mtx_lock(a0_mtx_t* m) {
  lk_bad |= lk_held;
  lk_held = 1;
  return A0_OK;
}
a0_err_t a0_mtx_unlock(a0_mtx_t* m) {
  lk_bad |= !lk_held;
  lk_held = 0;
  return A0_OK;
}
a0_err_t a0_cnd_broadcast(a0_cnd_t* c, a0_mtx_t* m) {
  lk_broadcasts++;
  return A0_OK;
}
#endif
#if !defined(NO_MTX_STUB) && !defined(OWN_CND)
a0_err_t a0_cnd_timedwait(a0_cnd_t* c, a0_mtx_t* m, a0_time_mono_t* t) { return A0_OK; }
a0_err_t a0_cnd_wait(a0_cnd_t* c, a0_mtx_t* m) { return A0_OK; }
#endif

// The state under test: the messages that are live.
static uint8_t* arena;
static uint64_t asize;
static int nlive;
static uint64_t low;
static uint64_t at[MAXF], len[MAXF];
// One arbitrary byte of each message.
static uint64_t probe[MAXF];
static uint8_t byte[MAXF];

static uint64_t align16(uint64_t v) { return (v + 15) & ~15ull; }

static void set_frame(uint64_t off, uint64_t seq, uint64_t next, uint64_t prev, uint64_t size) {
  a0_transport_frame_hdr_t* f = (a0_transport_frame_hdr_t*)(arena + off);
  f->seq = seq;
  f->off = off;
  f->next_off = next;
  f->prev_off = prev;
  f->data_size = size;
}

static void page_any(page_t* p) {
  p->seq_low = vh_u64();
  p->seq_high = vh_u64();
  p->off_head = vh_u64();
  p->off_tail = vh_u64();
  p->hwm = vh_u64();
}

// n live messages, of which the first `up` are at increasing positions and the
// rest at increasing positions below the first.
static void build_sized(int n, int up, uint64_t spare) {
  asize = vh_sym(41);
  vh_assume((asize >= HDR) & (asize <= ARENA_MAX));
#ifdef GRID
  static _Alignas(16) uint8_t fixed[HDR + GRID * 64];
  arena = fixed;
#else
  arena = vh_arena_(asize + spare, HDR, 0);
#endif
  nlive = n;
  low = vh_u64();
  // Numbering starts at 1 and does not come near its end.
  vh_assume((low >= 1) & (low < 0xffffffffffff0000ull));
  uint64_t floor = HDR, maxend = HDR;
  for (int i = 0; i < n; i++) {
    at[i] = vh_sym(37) << 4;
    len[i] = vh_sym(40);
    if (i == up) {
      floor = HDR;
    }
    uint64_t lim = i < up ? asize : at[0];
#ifndef GRID
    vh_assume((at[i] >= floor) & (at[i] < lim));
    vh_assume((at[i] + FH + len[i] <= lim));
#endif
    floor = align16(at[i] + FH + len[i]);
    if (i < up) {
      maxend = at[i] + FH + len[i];
    }
  }
#ifdef GRID
  // Fixed geometry: an arena of GRID places of 64 bytes, occupied from any place on.
  vh_assume(asize == HDR + GRID * 64);
  asize = HDR + GRID * 64;
#ifndef PLACE
#define PLACE vh_concrete(vh_range(0, GRID - 1))
#endif
  uint64_t place = PLACE;
  maxend = HDR;
  for (int i = 0; i < n; i++) {
    uint64_t p = HDR + (place + i) % GRID * 64;
    vh_assume((at[i] == p) & (len[i] == 24));
    at[i] = p;
    len[i] = 24;
    if (p + 64 > maxend) {
      maxend = p + 64;
    }
  }
#endif
  for (int i = 0; i < n; i++) {
    set_frame(at[i], low + i, i + 1 < n ? at[i + 1] : vh_u64(), i ? at[i - 1] : vh_u64(), len[i]);
  }
  for (int i = 0; i < n; i++) {
    probe[i] = len[i];
  }
#ifdef PROBE
  if (n) {
    int i = (int)vh_concrete(vh_range(0, n - 1));
    probe[i] = vh_sym(40);
    vh_assume(probe[i] < len[i]);
    byte[i] = vh_u8();
    arena[at[i] + FH + probe[i]] = byte[i];
  }
#endif
  thdr_t* h = (thdr_t*)arena;
  memcpy(h->magic, "ALEPHZERO", 9);
  h->version[0] = 0;
  h->version[1] = 3;
  h->version[2] = 0;
  h->initialized = 1;
  memset(h->mtx, 0, sizeof(h->mtx));
  h->cnd = vh_u32();
  h->arena_size = asize;
#ifndef COMMITTED
#define COMMITTED vh_concrete(vh_bool())
#endif
  h->committed = COMMITTED;
  page_t* p = &h->pages[h->committed];
#ifdef CLEAN
  page_t* w = p;
#else
  page_any(&h->pages[!h->committed]);
#endif
  if (n) {
    p->seq_low = low;
    p->seq_high = low + n - 1;
    p->off_head = at[0];
    p->off_tail = at[n - 1];
    // A converted arena keeps a larger mark.
    p->hwm = vh_u64();
    vh_assume((p->hwm >= maxend) & (p->hwm <= asize));
#ifdef GRID
    p->hwm = maxend;
#endif
  } else {
    // Never written, or everything discarded.
    p->seq_high = low - 1;
    p->seq_low = low;
#ifdef FRESH
    vh_assume(low == 1);
    p->seq_low = 0;
#endif
    p->off_head = 0;
    p->off_tail = 0;
    p->hwm = HDR;
  }
#ifdef CLEAN
  h->pages[!h->committed] = *w;
#endif
}
static void build(int n, int up) { build_sized(n, up, 0); }

static a0_transport_t tp;
static a0_transport_locked_t lk;

static void open_mode(a0_arena_mode_t mode, uint64_t size) {
  a0_arena_t a = {{arena, size}, mode};
  vh_assert(!a0_transport_init(&tp, a), "opening the arena succeeds");
}
static void open_tp(void) { open_mode(A0_ARENA_MODE_SHARED, asize); }

// Asserts that the messages visible now are exactly the recorded ones.
static void expect_live_(uint64_t limit) {
  uint64_t v;
  bool b;
  int ok = 1;
  a0_transport_empty(lk, &b);
  ok &= b == (nlive == 0);
  a0_transport_nonempty(lk, &b);
  ok &= b == (nlive != 0);
  a0_transport_seq_high(lk, &v);
  ok &= v == low + nlive - 1;
  if (nlive) {
    a0_transport_seq_low(lk, &v);
    ok &= v == low;
  }
  vh_assert(ok, "the live numbers run from the oldest to the newest message");
  if (!nlive) {
    vh_assert((a0_transport_jump_head(lk) == A0_ERR_RANGE) & (a0_transport_jump_tail(lk) == A0_ERR_RANGE), "an empty transport has no oldest or newest message");
    return;
  }
  vh_assert(!a0_transport_jump_head(lk), "the oldest message can be reached");
  for (int i = 0; i < nlive; i++) {
    if (i) {
      a0_transport_has_next(lk, &b);
      vh_assert(b, "stepping forward visits every live message");
      vh_assert(!a0_transport_step_next(lk), "stepping forward succeeds until the newest message");
    }
    a0_transport_iter_valid(lk, &b);
    vh_assert(b, "a cursor on a live message is valid");
    a0_transport_frame_t* f = NULL;
    vh_assert(!a0_transport_frame(lk, &f), "the current message can be read");
    // Compared as offsets so that the checks stay within simple arithmetic.
    uint64_t off = (uint64_t)((uint8_t*)f - arena);
    vh_assert(off == at[i], "a live message stays where it was written");
    vh_assert((f->hdr.seq == low + i) & (f->hdr.data_size == len[i]), "a live message keeps its number and size");
    vh_assert((at[i] >= HDR) & ((at[i] & 15) == 0) & (at[i] + FH + len[i] <= limit), "a live message lies aligned inside the arena");
#ifdef PROBE
    if (probe[i] != len[i]) {
      vh_assert(f->data[probe[i]] == byte[i], "a live message keeps its bytes");
    }
#endif
  }
  a0_transport_has_next(lk, &b);
  vh_assert(!b & (a0_transport_step_next(lk) == A0_ERR_RANGE), "stepping forward ends at the newest message");
#ifndef FORWARD_ONLY
  vh_assert(!a0_transport_jump_tail(lk), "the newest message can be reached");
  for (int i = nlive - 1; i >= 0; i--) {
    if (i < nlive - 1) {
      a0_transport_has_prev(lk, &b);
      vh_assert(b, "stepping backward visits every live message");
      vh_assert(!a0_transport_step_prev(lk), "stepping backward succeeds until the oldest message");
    }
    a0_transport_frame_t* f = NULL;
    vh_assert(!a0_transport_frame(lk, &f), "the current message can be read");
    vh_assert((uint64_t)((uint8_t*)f - arena) == at[i], "stepping backward visits the messages in reverse order");
  }
  a0_transport_has_prev(lk, &b);
  vh_assert(!b & (a0_transport_step_prev(lk) == A0_ERR_RANGE), "stepping backward ends at the oldest message");
#endif
  // Disjointness.
  for (int i = 0; i < nlive; i++) {
    for (int j = 0; j < i; j++) {
      vh_assert((at[i] + FH + len[i] <= at[j]) | (at[j] + FH + len[j] <= at[i]), "live messages do not overlap");
    }
  }
}

static void expect_space(void) {
  uint64_t used = 0, end = HDR;
  a0_transport_used_space(lk, &used);
  for (int i = 0; i < nlive; i++) {
    vh_assert(used >= at[i] + FH + len[i], "the used space covers every live message");
  }
  vh_assert((used >= HDR) & (used <= asize), "the used space covers the header and stays inside the arena");
  if (!nlive) {
    vh_assert(used == HDR, "the used space of an empty transport is the header");
  }
}

// Forget the k oldest messages.
static void drop(int k) {
  for (int i = k; i < nlive; i++) {
    at[i - k] = at[i];
    len[i - k] = len[i];
    probe[i - k] = probe[i];
    byte[i - k] = byte[i];
  }
  nlive -= k;
  low += k;
}
