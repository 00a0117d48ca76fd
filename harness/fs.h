// A small file system: directories, files with hard links, symbolic links,
// descriptors, mappings and directory streams.  Every call first goes through
// fs_call, where the harness lets others act and decides whether it fails.
#ifndef FS_H
#define FS_H

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>

#include "vh.h"
#include "vlibc.h"

enum { NOTHING, FILE_, DIR_, LINK_ };
enum { C_OPEN, C_CLOSE, C_STAT, C_LSTAT, C_FSTAT, C_MKDIR, C_MKSTEMP, C_FCHMOD, C_FTRUNCATE, C_LINK, C_RENAME, C_UNLINK, C_RMDIR, C_MMAP, C_MUNMAP, C_OPENDIR, C_READDIR, C_CLOSEDIR };

#define INOS 14
#define ENTS 14
#define NAMELEN 40
typedef struct {
  int kind, nlink, ours, target;  // target: entry a symbolic link leads to, -1 nowhere
  off_t size;
  mode_t mode;
} ino_t_;
typedef struct {
  int used, parent, ino;
  char name[NAMELEN];
} ent_t;
static ino_t_ inos[INOS];
static ent_t ents[ENTS];
static int ino_n;
static struct { int used, ino; } fds[8];
static struct { int used, ino, flags, prot; size_t len; } maps[8];
static uint8_t map_mem[8][8];
#define FD0 3

// The harness: others act, the result is 0 or the error of a failing call.
static int fs_call(int call, const char* path);
// The harness is told of changes to the tree.
static void fs_created(int ent);
static void fs_removed(int ent);

static int fs_ino(int kind) {
  vh_assume(ino_n < INOS);
  inos[ino_n].kind = kind;
  inos[ino_n].target = -1;
  return ino_n++;
}
static int fs_add(int parent, const char* name, size_t n, int ino) {
  int e = 0;
  while (e < ENTS && ents[e].used) {
    e++;
  }
  vh_assume(e < ENTS);
  vh_assert(n < NAMELEN, "harness: name length");
  ents[e].used = 1;
  ents[e].parent = parent;
  ents[e].ino = ino;
  memcpy(ents[e].name, name, n);
  ents[e].name[n] = 0;
  inos[ino].nlink++;
  return e;
}
static int fs_make(int parent, const char* name, int kind) { return fs_add(parent, name, strlen(name), fs_ino(kind)); }
static void fs_drop(int e) {
  ents[e].used = 0;
  inos[ents[e].ino].nlink--;
}
static int fs_init(void) {  // the root directory is entry 0
  return fs_make(0, "", DIR_);
}
static int fs_child(int dir, const char* name, size_t n) {
  for (int e = 1; e < ENTS; e++) {
    if (ents[e].used && ents[e].parent == dir && strlen(ents[e].name) == n && !memcmp(ents[e].name, name, n)) {
      return e;
    }
  }
  return -1;
}
static int fs_empty(int dir) {
  for (int e = 1; e < ENTS; e++) {
    if (ents[e].used && ents[e].parent == dir) {
      return 0;
    }
  }
  return 1;
}
// Entry of a path; -1 with errno.  *dir and *last are set if only the last part is missing.
static int fs_find(const char* path, int follow, int* dir, const char** last, size_t* len) {
  int at = 0;
  *dir = -1;
  if (path[0] != '/') {
    vh_assert(0, "a path that is not absolute reaches the system");
  }
  for (const char* p = path;;) {
    while (*p == '/') {
      p++;
    }
    if (!*p) {
      if (inos[ents[at].ino].kind != DIR_ && p[-1] == '/') {
        errno = ENOTDIR;
        return -1;
      }
      return at;
    }
    size_t n = 0;
    while (p[n] && p[n] != '/') {
      n++;
    }
    if (inos[ents[at].ino].kind != DIR_) {
      errno = ENOTDIR;
      return -1;
    }
    int c = fs_child(at, p, n);
    if (c < 0) {
      if (!p[n]) {
        *dir = at;
        *last = p;
        *len = n;
      }
      errno = ENOENT;
      return -1;
    }
    if (inos[ents[c].ino].kind == LINK_ && (p[n] || follow)) {
      c = inos[ents[c].ino].target;
      if (c < 0 || !ents[c].used) {
        errno = ENOENT;
        return -1;
      }
    }
    at = c;
    p += n;
  }
}
static int fs_path(const char* path, int follow) {
  int dir;
  const char* last;
  size_t len;
  return fs_find(path, follow, &dir, &last, &len);
}

#define ENTER(CALL, PATH)             \
  do {                                \
    int err_ = fs_call((CALL), (PATH)); \
    if (err_) {                       \
      errno = err_;                   \
      return -1;                      \
    }                                 \
  } while (0)

static int fs_fd(int ino) {
  for (int i = 0; i < 8; i++) {
    if (!fds[i].used) {
      fds[i].used = 1;
      fds[i].ino = ino;
      return FD0 + i;
    }
  }
  vh_assert(0, "descriptors run out");
  return -1;
}
static int fs_of(int fd) {
  vh_assert(fd >= FD0 && fd < FD0 + 8 && fds[fd - FD0].used, "uses a descriptor that is open");
  return fds[fd - FD0].ino;
}
static void fs_fill(int ino, struct stat* st) {
  memset(st, 0, sizeof(*st));
  int k = inos[ino].kind;
  st->st_mode = inos[ino].mode | (k == DIR_ ? S_IFDIR : k == LINK_ ? S_IFLNK : S_IFREG);
  st->st_size = inos[ino].size;
  st->st_ino = (ino_t)(ino + 1);
  st->st_nlink = (nlink_t)inos[ino].nlink;
}

int vh_open(const char* path, int flags, ...) {
  ENTER(C_OPEN, path);
  int dir;
  const char* last;
  size_t len;
  int e = fs_find(path, !(flags & O_NOFOLLOW), &dir, &last, &len);
  if (e >= 0) {
    if ((flags & O_CREAT) && (flags & O_EXCL)) {
      errno = EEXIST;
      return -1;
    }
    int i = ents[e].ino;
    if (inos[i].kind != FILE_) {
      errno = inos[i].kind == LINK_ ? ELOOP : EISDIR;
      return -1;
    }
    if (flags & O_TRUNC) {
      vh_assert(inos[i].ours, "a file of others is not truncated");
      inos[i].size = 0;
    }
    return fs_fd(i);
  }
  if (!(flags & O_CREAT) || dir < 0) {
    return -1;
  }
  int i = fs_ino(FILE_);
  inos[i].ours = 1;
  fs_created(fs_add(dir, last, len, i));
  return fs_fd(i);
}
int vh_close(int fd) {
#ifdef FS_OTHER_CLOSE
  if (FS_OTHER_CLOSE(fd)) {
    return 0;
  }
#endif
  fs_of(fd);
  fds[fd - FD0].used = 0;  // closed even if it says it failed
  ENTER(C_CLOSE, NULL);
  return 0;
}
int vh_stat(const char* path, struct stat* st) {
  ENTER(C_STAT, path);
  int e = fs_path(path, 1);
  if (e < 0) {
    return -1;
  }
  fs_fill(ents[e].ino, st);
  return 0;
}
int vh_lstat(const char* path, struct stat* st) {
  ENTER(C_LSTAT, path);
  int e = fs_path(path, 0);
  if (e < 0) {
    return -1;
  }
  fs_fill(ents[e].ino, st);
  return 0;
}
int vh_fstat(int fd, struct stat* st) {
  ENTER(C_FSTAT, NULL);
  fs_fill(fs_of(fd), st);
  return 0;
}
int vh_access(const char* path, int mode) {
  ENTER(C_STAT, path);
  return fs_path(path, 1) < 0 ? -1 : 0;
}
int vh_mkdir(const char* path, mode_t mode) {
  ENTER(C_MKDIR, path);
  int dir;
  const char* last;
  size_t len;
  if (fs_find(path, 0, &dir, &last, &len) >= 0) {
    errno = EEXIST;
    return -1;
  }
  if (dir < 0) {
    return -1;
  }
  int i = fs_ino(DIR_);
  inos[i].mode = mode;
  fs_created(fs_add(dir, last, len, i));
  return 0;
}
static int temps, temps_max = 3;
int vh_mkstemp(char* path) {
  ENTER(C_MKSTEMP, path);
  vh_assert(temps < temps_max, "does not try again without end");
  size_t n = strlen(path);
  vh_assert(n > 6 && !memcmp(path + n - 6, "XXXXXX", 6), "a template for the temporary name");
  memcpy(path + n - 6, "tmp000", 6);
  path[n - 1] += temps++;
  int dir;
  const char* last;
  size_t len;
  vh_assert(fs_find(path, 0, &dir, &last, &len) < 0, "harness: temporary names are fresh");
  if (dir < 0) {
    return -1;
  }
  int i = fs_ino(FILE_);
  inos[i].ours = 1;
  inos[i].mode = 0600;
  fs_created(fs_add(dir, last, len, i));
  return fs_fd(i);
}
int vh_fchmod(int fd, mode_t mode) {
  ENTER(C_FCHMOD, NULL);
  inos[fs_of(fd)].mode = mode;
  return 0;
}
int vh_ftruncate(int fd, off_t size) {
  ENTER(C_FTRUNCATE, NULL);
  int i = fs_of(fd);
  vh_assert(inos[i].ours, "a file of others is not resized");
  inos[i].size = size;
  return 0;
}
int vh_link(const char* from, const char* to) {
  ENTER(C_LINK, to);
  int e = fs_path(from, 0), dir;
  const char* last;
  size_t len;
  if (e < 0) {
    return -1;
  }
  if (fs_find(to, 0, &dir, &last, &len) >= 0) {
    errno = EEXIST;
    return -1;
  }
  if (dir < 0) {
    return -1;
  }
  fs_created(fs_add(dir, last, len, ents[e].ino));
  return 0;
}
int vh_rename(const char* from, const char* to) {
  ENTER(C_RENAME, to);
  int e = fs_path(from, 0), dir;
  const char* last;
  size_t len;
  if (e < 0) {
    return -1;
  }
  int old = fs_find(to, 0, &dir, &last, &len);
  if (old >= 0) {
    vh_assert(inos[ents[old].ino].ours, "a file of others is not replaced");
    ents[old].ino = ents[e].ino;
    fs_drop(e);
    return 0;
  }
  if (dir < 0) {
    return -1;
  }
  int n = fs_add(dir, last, len, ents[e].ino);
  fs_drop(e);
  fs_created(n);
  return 0;
}
int vh_unlink(const char* path) {
  ENTER(C_UNLINK, path);
  int e = fs_path(path, 0);
  if (e < 0) {
    return -1;
  }
  if (inos[ents[e].ino].kind == DIR_) {
    errno = EISDIR;
    return -1;
  }
  fs_removed(e);
  fs_drop(e);
  return 0;
}
int vh_rmdir(const char* path) {
  ENTER(C_RMDIR, path);
  int e = fs_path(path, 0);
  if (e < 0) {
    return -1;
  }
  if (inos[ents[e].ino].kind != DIR_) {
    errno = ENOTDIR;
    return -1;
  }
  if (!fs_empty(e)) {
    errno = ENOTEMPTY;
    return -1;
  }
  fs_removed(e);
  fs_drop(e);
  return 0;
}
int vh_remove(const char* path) {
  int e = fs_path(path, 0);
  return e >= 0 && inos[ents[e].ino].kind == DIR_ ? vh_rmdir(path) : vh_unlink(path);
}
void* vh_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
  int err = fs_call(C_MMAP, NULL);
  if (!err && len == 0) {
    err = EINVAL;
  }
  if (err) {
    errno = err;
    return MAP_FAILED;
  }
  int i = fs_of(fd);
  for (int m = 0; m < 8; m++) {
    if (!maps[m].used) {
      maps[m].used = 1;
      maps[m].ino = i;
      maps[m].len = len;
      maps[m].flags = flags;
      maps[m].prot = prot;
      return map_mem[m];
    }
  }
  vh_assert(0, "mappings run out");
  return MAP_FAILED;
}
static int fs_map(void* p) {
  for (int m = 0; m < 8; m++) {
    if (maps[m].used && p == map_mem[m]) {
      return m;
    }
  }
  return -1;
}
int vh_munmap(void* p, size_t len) {
  int m = fs_map(p);
  vh_assert(m >= 0 && maps[m].len == len, "unmaps what was mapped");
  maps[m].used = 0;
  ENTER(C_MUNMAP, NULL);
  return 0;
}

// ---- directory streams
typedef struct {
  int used, ent, pos;
  struct dirent d;
} vdir_t;
#define DIRS 8
static vdir_t dirs[DIRS];
DIR* vh_opendir(const char* path) {
  int err = fs_call(C_OPENDIR, path);
  if (err) {
    errno = err;
    return NULL;
  }
  int e = fs_path(path, 1);
  if (e < 0) {
    return NULL;
  }
  if (inos[ents[e].ino].kind != DIR_) {
    errno = ENOTDIR;
    return NULL;
  }
  for (int i = 0; i < DIRS; i++) {
    if (!dirs[i].used) {
      dirs[i].used = 1;
      dirs[i].ent = e;
      dirs[i].pos = -2;
      return (DIR*)&dirs[i];
    }
  }
  vh_assert(0, "directory streams run out");
  return NULL;
}
static vdir_t* fs_dir(DIR* p) {
  vdir_t* d = (vdir_t*)p;
  int i = 0;
  for (; i < DIRS; i++) {
    if (d == &dirs[i]) {
      break;
    }
  }
  vh_assert(i < DIRS && dirs[i].used, "uses a directory stream that is open");
  return d;
}
struct dirent* vh_readdir(DIR* p) {
  vdir_t* d = fs_dir(p);
  int err = fs_call(C_READDIR, NULL);
  if (err) {
    errno = err;
    return NULL;
  }
  for (;;) {
    int e = d->pos++;
    if (e >= ENTS) {
      return NULL;
    }
    if (e < 0) {
      memcpy(d->d.d_name, "..", 3);
      d->d.d_name[-e] = 0;
      d->d.d_type = DT_DIR;
      return &d->d;
    }
    if (e > 0 && ents[e].used && ents[e].parent == d->ent && ents[d->ent].used) {
      int k = inos[ents[e].ino].kind;
      memcpy(d->d.d_name, ents[e].name, NAMELEN);
      d->d.d_type = k == DIR_ ? DT_DIR : k == LINK_ ? DT_LNK : DT_REG;
      return &d->d;
    }
  }
}
int vh_closedir(DIR* p) {
  vdir_t* d = fs_dir(p);
  d->used = 0;
  ENTER(C_CLOSEDIR, NULL);
  return 0;
}
static int fs_open_things(void) {
  int n = 0;
  for (int i = 0; i < 8; i++) {
    n += fds[i].used + maps[i].used + dirs[i].used;
  }
  return n;
}

#endif
