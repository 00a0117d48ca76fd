// The schedule: ROUNDS rounds in which every thread in turn runs up to a place
// of the solver's choice (or not at all), and in which the solver may let a
// sleep run out or a thread die at any of those places.
#ifndef DEATHS
#define DEATHS 0
#endif
#ifndef INTR
#define INTR 0
#endif

#ifdef IL_NATIVE
#define IL_NOTE(S, T) (getenv("IL_TRACE") ? fprintf(stderr, "IL %d %s\n", T, S) : 0)
#else
#define IL_NOTE(S, T)
#endif

int main(void) {
  int deaths = 0;
  il_vt_init();
  il_frozen();
  for (int t = 1; t <= NT; t++) il_start(t);
  for (int r = 0; r < ROUNDS; r++) {
    for (int t = 1; t <= NT; t++) {
      if (!il_done_[t] && !il_dead_[t]) {
        if (k_st[t] != K_RUN && vh_bool()) {
          int intr = 0;
#if INTR
          intr = vh_bool();
#endif
          vh_assume(intr ? (k_st[t] == K_WAIT || (k_st[t] == K_PI && k_cond[t])) : k_timed[t]);
          IL_NOTE("stops sleeping", t);
          k_expire(t, intr);
        }
        if (k_st[t] == K_RUN) {
          uint8_t stop = vh_u8();
          vh_assume(stop <= il_maxpc(t));
          il_run(t, stop);
        }
        if (DEATHS && deaths < DEATHS && !il_done_[t] && vh_bool()) {
          deaths++;
          il_dying_ = t;
          il_vt_died();
          IL_NOTE("dies", t);
          k_die(t);
        }
        il_vt_check();
      }
    }
  }
  int any = 0;
  for (int t = 1; t <= NT; t++) {
    if (!il_done_[t] && !il_dead_[t]) any |= k_st[t] == K_RUN || k_timed[t];
  }
  if (!any) {
    il_vt_end();
    vh_reach("every thread ended");
  }
  il_judge();
  return 0;
}
