// Opening a file while calls fail and another process creates or removes it.
#include <a0/env.h>
#include <a0/err.h>
#include <a0/file.h>

#include "err_macro.h"
#include "fs.h"

#ifndef FAULTS
#define FAULTS 1
#endif
#ifndef RIVALS
#define RIVALS 2
#endif

#define PATH "/r/d/f"
#define WANT 4096
#define THEIRS 8192

const char* a0_env_root(void) { return "/r"; }

static int active, faults, fault_errno, unlink_failed, rivals_left, target_dir, was_target[INOS];
static a0_file_options_t opts;

static int target(void) { return fs_path(PATH, 0); }

// Whoever looks at the name, at any time, sees a finished file.
static void look(void) {
  int e = target();
  if (e >= 0) {
    ino_t_* i = &inos[ents[e].ino];
    was_target[ents[e].ino] = 1;
    vh_assert(!i->ours || (i->size == WANT && i->mode == opts.create_options.mode), "the name refers to a finished file");
  }
}
static void fs_created(int e) { look(); }
static void fs_removed(int e) {
  vh_assert(inos[ents[e].ino].ours || inos[ents[e].ino].kind != FILE_, "a file of others is not removed");
}

static int fs_call(int call, const char* path) {
  if (!active) {
    return 0;
  }
  look();
  if (rivals_left && vh_concrete(vh_bool())) {
    rivals_left--;
    int e = target();
    if (e >= 0) {
      fs_drop(e);
      vh_reach("another removes it");
    } else {
      int d = fs_path("/r/d", 1);
      if (d >= 0) {
        int i = fs_ino(FILE_);
        inos[i].size = THEIRS;
        fs_add(d, "f", 1, i);
        vh_reach("another creates it");
      }
    }
    look();
  }
  if (faults < FAULTS && vh_concrete(vh_bool())) {
    int err = (int)vh_range(1, 133);
    vh_assume(err != ENOENT && err != EEXIST);
    faults++;
    fault_errno = err;
    if (call == C_UNLINK) {
      unlink_failed = 1;
    }
    return err;
  }
  return 0;
}

int main(void) {
  fs_init();
  int r = fs_make(0, "r", DIR_), d = -1, had = -1;
  int start = START;
  temps_max = RIVALS + FAULTS + 1;
  if (start) {
    d = fs_make(r, "d", DIR_);
  }
  if (start == 2 || start == 3) {
    had = ents[fs_make(d, "f", FILE_)].ino;
    inos[had].size = start == 2 ? THEIRS : 0;
  }
  if (start == 4) {
    fs_make(d, "f", LINK_);
  }
  opts.create_options.size = WANT;
  opts.create_options.mode = 0640;
  opts.create_options.dir_mode = 0750;
  opts.open_options.arena_mode = (a0_arena_mode_t)vh_concrete(vh_range(A0_ARENA_MODE_SHARED, A0_ARENA_MODE_READONLY));
  rivals_left = RIVALS;
  a0_file_t file;
  uint64_t heap = vh_live_heap();
  active = 1;
  a0_err_t err = a0_file_open(vh_concrete(vh_bool()) ? "d/f" : PATH, &opts, &file);
  active = 0;
  int tmp = 0;
  for (int e = 1; e < ENTS; e++) {
    tmp += ents[e].used && inos[ents[e].ino].kind == FILE_ && !(ents[e].parent == fs_path("/r/d", 1) && !strcmp(ents[e].name, "f"));
  }
  vh_assert(tmp == 0 || unlink_failed, "no temporary file is left");
  if (err) {
    vh_assert(fs_open_things() == 0, "a failed open leaves no descriptor or mapping");
    vh_assert(vh_live_heap() == heap, "a failed open leaves no memory");
    vh_assert(err == A0_ERR_SYS, "a failure is a system error");
    if (faults == 1 && start < 3) {
      vh_assert(a0_err_syscode == fault_errno, "the error is that of the step that failed");
    }
    if (!faults) {
      vh_assert(start == 3 || start == 4, "without a failing call opening succeeds");
      vh_assert(start != 3 || a0_err_syscode == EINVAL || rivals_left < RIVALS, "an empty file cannot be mapped");
    }
    vh_reach("failed");
  } else {
    int m = fs_map(file.arena.buf.data);
    vh_assert(m >= 0 && fs_open_things() == 2, "one descriptor and one mapping");
    ino_t_* i = &inos[maps[m].ino];
    vh_assert(was_target[maps[m].ino], "the file that has the name is mapped");
    vh_assert(fs_of(file.fd) == maps[m].ino, "descriptor and mapping are of the same file");
    vh_assert(maps[m].len == (size_t)i->size && file.arena.buf.size == maps[m].len && file.stat.st_size == i->size, "the whole file is mapped");
    vh_assert(i->size == (i->ours ? WANT : THEIRS), "with the size asked for when created");
    vh_assert(file.arena.mode == opts.open_options.arena_mode, "in the mode asked for");
    int shared = (maps[m].flags & MAP_SHARED) != 0;
    vh_assert(shared == (opts.open_options.arena_mode != A0_ARENA_MODE_READONLY), "changes are shared unless opened read-only");
    vh_assert(!strcmp(file.path, PATH), "the path is recorded");
    if (rivals_left == RIVALS) {
      int e = target();
      vh_assert(e >= 0 && ents[e].ino == maps[m].ino && i->ours == (had < 0), "an existing file is opened, a missing one created");
    }
    vh_assert(a0_file_close(&file) == A0_OK && fs_open_things() == 0, "closing gives everything back");
    vh_assert(vh_live_heap() == heap, "closing frees everything");
    vh_assert(a0_file_close(&file) != A0_OK && fs_open_things() == 0, "closing twice is refused");
    vh_reach("opened");
  }
  return 0;
}
