// Walking and removing directory trees.
#include <a0/env.h>
#include <a0/err.h>
#include <a0/file.h>

#include <limits.h>

#include "err_macro.h"

#ifndef LONG
#include "fs.h"

#ifndef FAULTS
#define FAULTS 0
#endif
#ifndef TOP
#define TOP 2
#endif
#ifndef SUB
#define SUB 2
#endif

static const char* root = "/r";
const char* a0_env_root(void) { return root; }

static int active, faults, removed[ENTS], inside[ENTS];
static int fs_call(int call, const char* path) {
  if (active && faults < FAULTS && vh_concrete(vh_bool())) {
    faults++;
    int err = (int)vh_range(1, 133);
    return err;
  }
  return 0;
}
static void fs_created(int e) { vh_assert(0, "nothing is created"); }
static void fs_removed(int e) {
  vh_assert(inside[e], "nothing outside of the named tree is removed");
  vh_assert(!removed[e], "nothing is removed twice");
  removed[e] = 1;
}

static int outside_dir, outside_file, keep;
// One entry of any kind; *dir says whether it can have entries itself.
static int any_entry(int parent, const char* name, int* dir) {
  int kind = (int)vh_concrete(vh_range(0, 4));
  *dir = -1;
  if (!kind) {
    return 0;
  }
  int e = fs_make(parent, name, kind == 1 ? FILE_ : kind == 2 ? DIR_ : LINK_);
  inside[e] = 1;
  if (kind == 2) {
    *dir = e;
  } else if (kind == 3) {
    inos[ents[e].ino].target = outside_dir;
  }
  return 1;
}

static const char* const names[] = {"a", ".b", "..c"};
static int t, count, expect_n;
static void build(int kind) {
  fs_init();
  int r = fs_make(0, "r", DIR_);
  fs_make(0, "t", DIR_);  // of the same name elsewhere
  outside_dir = fs_make(0, "o", DIR_);
  outside_file = fs_make(outside_dir, "x", FILE_);
  keep = fs_make(r, "tt", FILE_);
  t = fs_make(r, "t", kind);
  inside[t] = 1;
  if (kind == LINK_) {
    inos[ents[t].ino].target = outside_dir;
  }
  if (kind == DIR_) {
    for (int i = 0; i < TOP; i++) {
      int d, unused;
      count += any_entry(t, names[i], &d);
      for (int k = 0; d >= 0 && k < SUB; k++) {
        any_entry(d, names[k], &unused);
      }
    }
  }
}
static void outside_is_whole(void) {
  vh_assert(ents[0].used && ents[outside_dir].used && ents[outside_file].used && ents[keep].used, "what is outside is still there");
  vh_assert(inos[ents[outside_file].ino].nlink == 1 && inos[ents[keep].ino].nlink == 1, "what is outside is unchanged");
}

static const char* form(int f) {
  return f == 0 ? "t" : f == 1 ? "/r/t" : f == 2 ? "t/" : "/r/t/";
}

int main(void) {
  int f = (int)vh_concrete(vh_range(0, 3));
  uint64_t heap = vh_live_heap();
#ifdef REMOVE
  build(DIR_);
  active = 1;
  a0_err_t err = a0_file_remove_all(form(f));
  active = 0;
  outside_is_whole();
  if (!faults) {
    vh_assert(err == A0_OK, "removing a tree succeeds");
    for (int e = 0; e < ENTS; e++) {
      vh_assert(!inside[e] || removed[e], "the whole tree is removed");
    }
    vh_reach("removed");
  } else {
    vh_assert(err != A0_OK || removed[t], "success means that it is gone");
    vh_reach("faults");
  }
#elif defined(OTHER)
  // what is named is not a directory, or not there
  int kind = (int)vh_concrete(vh_range(0, 2));
  build(kind == 1 ? LINK_ : FILE_);
  vh_assume(f < 2);
  if (kind == 2) {
    fs_drop(t);
  }
  int op = (int)vh_concrete(vh_range(0, 2));
  active = 1;
  a0_err_t err;
  a0_file_iter_t it;
  if (op == 0) {
    err = a0_file_remove_all(form(f));
    vh_assert(err == A0_OK ? removed[t] : !removed[t], "success means that it is gone");
  } else if (op == 1) {
    err = a0_file_remove(form(f));
    vh_assert(err == A0_OK ? removed[t] : !removed[t], "success means that it is gone");
    vh_assert(faults || (err == A0_OK) == (kind != 2), "a single name is removed");
    vh_assert(err == A0_OK || faults || a0_err_syscode == ENOENT, "a missing name is reported");
  } else {
    err = a0_file_iter_init(&it, form(f));
    vh_assert(err != A0_OK, "only directories can be listed");
  }
  active = 0;
  outside_is_whole();
  vh_reach("other");
#else
  build(DIR_);
  a0_file_iter_t it;
  a0_file_iter_entry_t en;
  active = 1;
  a0_err_t err = a0_file_iter_init(&it, form(f));
  if (err) {
    vh_assert(faults, "listing a directory succeeds");
    vh_reach("refused");
  } else {
    int seen[ENTS] = {0}, n = 0;
    while (!(err = a0_file_iter_next(&it, &en))) {
      int e = fs_child(t, en.filename, strlen(en.filename));
      vh_assert(e >= 0 && !seen[e], "every entry is listed once");
      seen[e] = 1;
      n++;
      int k = inos[ents[e].ino].kind;
      vh_assert(en.d_type == (k == DIR_ ? DT_DIR : k == LINK_ ? DT_LNK : DT_REG), "with its kind");
      vh_assert(fs_path(en.fullpath, 0) == e && !memcmp(en.fullpath, "/r/t/", 5) && !strcmp(en.fullpath + 5, en.filename), "with its full path");
    }
    vh_assert(faults || (err == A0_ERR_ITER_DONE && n == count), "all entries are listed");
    vh_assert(a0_file_iter_close(&it) == A0_OK, "closing succeeds");
    vh_reach("listed");
  }
  active = 0;
  outside_is_whole();
#endif
  vh_assert(fs_open_things() == 0, "nothing is left open");
  vh_assert(vh_live_heap() == heap, "no memory is left");
  return 0;
}

#else
// Paths and names around the longest possible.
#include <dirent.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>

#include "vh.h"
#include "vlibc.h"

const char* a0_env_root(void) { return "/r"; }
static int opened, given, name_len;
static struct dirent d;
int vh_lstat(const char* p, struct stat* st) {
  memset(st, 0, sizeof(*st));
  st->st_mode = S_IFDIR;
  if (strlen(p) >= PATH_MAX) {
    errno = ENAMETOOLONG;
    return -1;
  }
  return 0;
}
int vh_stat(const char* p, struct stat* st) { return vh_lstat(p, st); }
DIR* vh_opendir(const char* p) {
  if (strlen(p) >= PATH_MAX) {
    errno = ENAMETOOLONG;
    return NULL;
  }
  opened++;
  return (DIR*)&d;
}
struct dirent* vh_readdir(DIR* p) {
  if (given) {
    return NULL;
  }
  given = 1;
  memset(d.d_name, 'n', (size_t)name_len);
  d.d_name[name_len] = 0;
  d.d_type = DT_REG;
  return &d;
}
int vh_closedir(DIR* p) {
  opened--;
  return 0;
}

int main(void) {
  static const int lens[] = {1, 2, 3, 254, 255};
  int n = (int)vh_concrete(vh_range(LO, HI));
  name_len = lens[vh_concrete(vh_range(0, 4))];
  int slash = (int)vh_concrete(vh_bool());
  char* path = malloc((size_t)n + 1);
  memset(path, 'p', (size_t)n);
  path[0] = '/';
  path[n] = 0;
  if (slash) {
    path[n - 1] = '/';
  }
  a0_file_iter_t* it = malloc(sizeof(*it));
  a0_file_iter_entry_t en;
  a0_err_t err = a0_file_iter_init(it, path);
  vh_assert(err == A0_OK || n >= PATH_MAX, "every path the system takes is taken");
  if (!err) {
    size_t total = (size_t)n + !slash + (size_t)name_len;
    err = a0_file_iter_next(it, &en);
    if (!err) {
      int ok = strlen(en.fullpath) == total && !memcmp(en.fullpath, path, (size_t)n) && en.fullpath[total - (size_t)name_len - 1] == '/';
      ok = ok && en.fullpath[total - 1] == 'n' && en.fullpath[total - (size_t)name_len] == 'n';
      vh_assert(ok, "the full path is complete");
      vh_reach("fits");
    } else {
      vh_assert(total >= PATH_MAX, "every name that fits is listed");
      vh_reach("does not fit");
    }
    a0_file_iter_close(it);
  }
  vh_assert(!opened, "nothing is left open");
  return 0;
}
#endif
