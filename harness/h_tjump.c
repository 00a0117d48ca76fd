// Jumping to arbitrary offsets of an arbitrary arena (h_transport.h).
#include "h_transport.h"

int main() {
#ifdef LIVE
  build(N, UP);
  open_tp();
  a0_transport_lock(&tp, &lk);
  int i = (int)vh_concrete(vh_range(0, N - 1));
  uint64_t seq0 = tp._seq;
  vh_assert(!a0_transport_jump(lk, at[i]), "jumping to a live message succeeds");
  a0_transport_frame_t* f = NULL;
  vh_assert(!a0_transport_frame(lk, &f), "the message jumped to can be read");
  vh_assert((uint64_t)((uint8_t*)f - arena) == at[i], "jumping to a live message yields that message");
  vh_assert((f->hdr.seq == low + i) & (f->hdr.data_size == len[i]), "jumping to a live message yields its number and size");
  bool b = 0;
  a0_transport_iter_valid(lk, &b);
  vh_assert(b, "the cursor is valid after jumping to a live message");
  a0_transport_has_next(lk, &b);
  vh_assert(b == (i < N - 1), "stepping on from the message jumped to is possible exactly if it is not the newest");
  if (i < N - 1) {
    vh_assert(!a0_transport_step_next(lk) & !a0_transport_frame(lk, &f), "stepping on works");
    vh_assert((uint64_t)((uint8_t*)f - arena) == at[i + 1], "stepping on yields the next message");
  }
  if (at[i] + FH + len[i] == asize) vh_reach("ends at the end of the arena");
  vh_reach("live");
#else
  build(N, UP);
  open_tp();
  a0_transport_lock(&tp, &lk);
#if N
  a0_transport_jump_head(lk);
#endif
  a0_transport_frame_t *f0 = NULL, *f1 = NULL;
  a0_err_t e0 = a0_transport_frame(lk, &f0);
  uint64_t off = vh_u64();
  a0_err_t err = a0_transport_jump(lk, off);
  a0_err_t e1 = a0_transport_frame(lk, &f1);
  if (err) {
    vh_assert(err == A0_ERR_RANGE, "a failed jump reports a range error");
    vh_assert((e0 == e1) & (f0 == f1), "a failed jump leaves the cursor where it was");
    vh_reach("refused");
  } else {
    vh_assert((off & 15) == 0, "a jump succeeds only on an aligned offset");
    vh_assert((off <= asize) & (off + FH <= asize), "the header of a message jumped to lies inside the arena");
    uint64_t size = ((a0_transport_frame_hdr_t*)(arena + off))->data_size;
    vh_assert((size <= asize) & (off + FH + size <= asize), "a message jumped to lies inside the arena");
    if (!e1) {
      vh_assert((uint64_t)((uint8_t*)f1 - arena) == off, "the cursor is where the jump went");
    }
    vh_reach("accepted");
  }
#endif
  return 0;
}
