// Opening blank, initialised and old-format arenas (h_transport.h).
#include "h_transport.h"

static a0_arena_mode_t any_mode(int readonly) {
  static const a0_arena_mode_t modes[] = {A0_ARENA_MODE_SHARED, A0_ARENA_MODE_EXCLUSIVE, A0_ARENA_MODE_READONLY};
  return modes[vh_concrete(vh_range(0, readonly ? 2 : 1))];
}

static void usable(void) {
  uint64_t used = 0, size = vh_u64();
  a0_transport_used_space(lk, &used);
  a0_transport_frame_t* f = NULL;
  a0_err_t err = a0_transport_alloc(lk, size, &f);
  vh_assert(err == (size <= ARENA_MAX && HDR + FH + size <= asize ? A0_OK : A0_ERR_FRAME_LARGE), "the transport is usable at its full size");
  if (!nlive) {
    vh_assert(used == HDR, "a blank arena opens with only the header used");
    if (!err) {
      vh_assert(f->hdr.seq == low, "the first message takes the next number");
    }
  }
}

static a0_arena_mode_t mode;
static void do_init(void* arg) {
  a0_arena_t a = {{arena, asize}, mode};
  a0_transport_init(&tp, a);
}

int main() {
#if defined(BLANK) || defined(CRASH)
  asize = vh_sym(41);
  vh_assume((asize >= HDR) & (asize <= ARENA_MAX));
  arena = vh_arena_(asize, HDR, 1);
  nlive = 0;
  low = 1;
#endif
#ifdef BLANK
  open_mode(any_mode(0), asize);
  // Opened again before anything is written.
  open_mode(any_mode(0), asize);
#endif
#ifdef CRASH
  mode = any_mode(0);
  vh_shared(arena, asize);
  int died = vh_crash_run(do_init, NULL);
  lk_held = 0;
  open_mode(any_mode(0), asize);
  if (died) vh_reach("died");
#endif
#ifdef EXISTING
  build(N, UP);
  mode = any_mode(1);
  vh_readonly(arena, mode == A0_ARENA_MODE_READONLY);
  open_mode(mode, asize);
  mode = any_mode(1);
  vh_readonly(arena, mode == A0_ARENA_MODE_READONLY);
  open_mode(mode, asize);
#endif
#ifdef OLD_FORMAT
  build(N, UP);
  // Version 0.2 bookkeeping.
  int idx = ((thdr_t*)arena)->committed;
  page_t p = ((thdr_t*)arena)->pages[idx];
  for (int i = 0; i < HDR; i++) {
    arena[i] = i < 2 ? 1 : 0;
  }
  uint32_t idx32 = idx;
  memcpy(arena + 120, &idx32, 4);
  memcpy(arena + (idx ? 88 : 56), &p, 32);
  page_t other;
  page_any(&other);
  memcpy(arena + (idx ? 56 : 88), &other, 32);
  memcpy(arena + 128, &asize, 8);
  open_mode(any_mode(0), asize);
  open_mode(any_mode(0), asize);
#endif
  a0_transport_lock(&tp, &lk);
  expect_live_(asize);
#if !defined(OLD_FORMAT)
  expect_space();
#endif
#ifdef EXISTING
  if (mode == A0_ARENA_MODE_READONLY) {
    vh_reach("read-only");
    return 0;
  }
#endif
#if !defined(OLD_FORMAT)
  usable();
#endif
  a0_transport_unlock(lk);
  vh_reach("opened");
  return 0;
}
