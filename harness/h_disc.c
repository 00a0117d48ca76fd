// Discovery while files and directories come and go around it.
#include <a0/discovery.h>
#include <a0/env.h>
#include <a0/err.h>
#include <a0/file.h>
#include <a0/pathglob.h>

#include <pthread.h>
#include <sys/epoll.h>
#include <sys/inotify.h>

static int other_close(int fd);
#define FS_OTHER_CLOSE other_close
#include "fs.h"

#ifndef ACTIONS
#define ACTIONS 1
#endif
#ifndef FAULTS
#define FAULTS 0
#endif

const char* a0_env_root(void) { return "/r"; }

// ---- what may exist
#define ITEMS 6
static const char* const item[ITEMS] = {"/r/d", "/r/d/e", "/r/d/m.a0", "/r/d/n.b", "/r/d/e/k.a0", "/r/y.a0"};
static const int is_dir[ITEMS] = {1, 1, 0, 0, 0, 0};
static int existed[ITEMS], announced[ITEMS], match[ITEMS];

// ---- notification
enum { EPOLL_FD = 100, CLOSE_FD, NOTIFY_FD };
static int fd_open[3], registered[3], closing, asked_close;
static struct { int used, ino; uint32_t mask; } watch[12];
static int watches;  // numbers are not used again
static struct { int wd; uint32_t mask; char name[16]; } queue[12];
static int q_head, q_tail;
static int running, actions, faults;

static void notify(int dir_ino, uint32_t mask, const char* name) {
  for (int w = 1; w <= watches; w++) {
    if (watch[w].used && watch[w].ino == dir_ino && (watch[w].mask & mask & IN_ALL_EVENTS)) {
      vh_assume(q_tail < 12);
      queue[q_tail].wd = w;
      queue[q_tail].mask = mask;
      strcpy(queue[q_tail].name, name);
      q_tail++;
    }
  }
}
static void forget(int dir_ino) {
  for (int w = 1; w <= watches; w++) {
    if (watch[w].used && watch[w].ino == dir_ino) {
      watch[w].used = 0;
      vh_assume(q_tail < 12);
      queue[q_tail].wd = w;
      queue[q_tail].mask = IN_IGNORED;
      queue[q_tail].name[0] = 0;
      q_tail++;
    }
  }
}
static void fs_created(int e) { vh_assert(0, "discovery creates nothing"); }
static void fs_removed(int e) { vh_assert(0, "discovery removes nothing"); }

// /r/d was there before discovery had looked around.
static int top_seen, looked;
// Somebody creates the item, or removes it if it is there.
static int toggle(int i) {
  int dir, e;
  const char* last;
  size_t len;
  e = fs_find(item[i], 0, &dir, &last, &len);
  if (e >= 0) {
    if (is_dir[i] && !fs_empty(e)) {
      return 0;
    }
    int ino = ents[e].ino;
    if (running && i == 0 && (PATTERN == 0 || PATTERN == 3) && top_seen) {
#ifndef TOPGONE
      vh_assume(0);  // the fixed part of the pattern goes away: a known finding
#endif
    }
    fs_drop(e);
    if (is_dir[i]) {
      forget(ino);
    }
    return 1;
  }
  if (dir < 0) {
    return 0;
  }
  fs_add(dir, last, len, fs_ino(is_dir[i] ? DIR_ : FILE_));
  existed[i] = 1;
  top_seen |= i == 0 && !looked;
  notify(ents[dir].ino, IN_CREATE | (is_dir[i] ? IN_ISDIR : 0), last);
  return 1;
}
static void others(void) {
  if (running && actions < ACTIONS && vh_concrete(vh_bool())) {
    actions++;
    vh_assume(toggle((int)vh_concrete(vh_range(0, ITEMS - 1))));
  }
}
static int fault(void) {
  if (running && faults < FAULTS && vh_concrete(vh_bool())) {
    faults++;
    return EACCES;
  }
  return 0;
}
static int fs_call(int call, const char* path) {
#ifdef ANYTIME
  others();
#elif !defined(LATER)
  if (call == C_OPENDIR || call == C_STAT) {
    others();
  }
#endif
  return call == C_CLOSEDIR || call == C_STAT ? 0 : fault();
}

static int other_close(int fd) {
  if (fd < 100) {
    return 0;
  }
  vh_assert(fd_open[fd - 100], "closes a descriptor that is open");
  fd_open[fd - 100] = 0;
  return 1;
}
int vh_epoll_create1(int f) {
  fd_open[0] = 1;
  return EPOLL_FD;
}
int vh_eventfd(unsigned v, int f) {
  fd_open[1] = 1;
  return CLOSE_FD;
}
int vh_inotify_init1(int f) {
  fd_open[2] = 1;
  return NOTIFY_FD;
}
static struct epoll_event reg[3];
int vh_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
  vh_assert(ep == EPOLL_FD && fd > 100, "registers its own descriptors");
  registered[fd - 100] = 1;
  reg[fd - 100] = *ev;
  return 0;
}
int vh_epoll_wait(int ep, struct epoll_event* ev, int n, int timeout) {
  vh_assert(ep == EPOLL_FD && registered[1] && registered[2], "waits for everything");
  looked = 1;
  if (FAULTS && fault()) {
    errno = EINTR;
    return -1;
  }
  for (int i = 0; i < ACTIONS && q_head == q_tail; i++) {
    others();
  }
  if (q_head < q_tail) {
    ev[0] = reg[2];
    return 1;
  }
  closing = 1;
  ev[0] = reg[1];
  return 1;
}
int vh_inotify_add_watch(int fd, const char* path, uint32_t mask) {
  vh_assert(fd == NOTIFY_FD, "the notification descriptor");
#ifndef LATER
  others();
#endif
  int err = fault();
  if (err) {
    errno = ENOSPC;
    return -1;
  }
  int e = fs_path(path, 1);
  if (e < 0) {
    return -1;
  }
  int ino = ents[e].ino;
  for (int w = 1; w <= watches; w++) {
    if (watch[w].used && watch[w].ino == ino) {
      watch[w].mask = mask;
      return w;
    }
  }
  vh_assume(watches < 11);
  watches++;
  watch[watches].used = 1;
  watch[watches].ino = ino;
  watch[watches].mask = mask;
  return watches;
}
int vh_inotify_rm_watch(int fd, int wd) {
  if (wd < 1 || wd > watches || !watch[wd].used) {
    errno = EINVAL;
    return -1;
  }
  watch[wd].used = 0;
  return 0;
}
ssize_t vh_read(int fd, void* buf, size_t n) {
  vh_assert(fd == NOTIFY_FD, "reads notifications");
  if (q_head == q_tail) {
    errno = EAGAIN;
    return -1;
  }
  size_t at = 0;
  int many = (int)vh_concrete(vh_bool());
  do {
    struct inotify_event ev;
    memset(&ev, 0, sizeof(ev));
    ev.wd = queue[q_head].wd;
    ev.mask = queue[q_head].mask;
    ev.len = queue[q_head].name[0] ? 16 : 0;
    if (at + sizeof(ev) + ev.len > n) {
      break;
    }
    memcpy((char*)buf + at, &ev, sizeof(ev));
    memcpy((char*)buf + at + sizeof(ev), queue[q_head].name, ev.len);
    at += sizeof(ev) + ev.len;
    q_head++;
  } while (many && q_head < q_tail);
  return (ssize_t)at;
}
ssize_t vh_write(int fd, const void* buf, size_t n) {
  asked_close |= fd == CLOSE_FD;
  return (ssize_t)n;
}

static void* (*thread_fn)(void*);
static void* thread_arg;
static int joined;
int vh_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  thread_fn = fn;
  thread_arg = arg;
  return 0;
}
int vh_pthread_join(pthread_t t, void** r) {
  vh_assert(asked_close, "asks the thread to stop before waiting for it");
  joined = 1;
  return 0;
}

static void found(void* u, const char* path) {
  int i = 0;
  while (i < ITEMS && strcmp(item[i], path)) {
    i++;
  }
  vh_assert(u == announced && i < ITEMS && !is_dir[i] && existed[i], "only files that exist are announced");
  vh_assert(match[i], "only files that match are announced");
  vh_assert(!announced[i], "a file is announced once");
  announced[i] = 1;
}

int main(void) {
  fs_init();
  fs_make(0, "r", DIR_);
  static const int starts[][ITEMS] = {{0}, {1}, {1, 0, 1, 1}, {1, 1, 0, 0, 1}, {1, 1, 1, 1, 1, 1}};
  for (int i = 0; i < ITEMS; i++) {
    if (starts[START][i]) {
      toggle(i);
    }
  }
  static const char* const patterns[] = {"/r/d/*.a0", "**/*.a0", "/r/*/e/*", "d/m.a0"};
  const char* pattern = patterns[PATTERN];
  a0_pathglob_t glob;
  vh_assert(a0_pathglob_init(&glob, pattern) == A0_OK, "the pattern is good");
  for (int i = 0; i < ITEMS; i++) {
    bool m = false;
    a0_pathglob_match(&glob, item[i], &m);
    match[i] = m && !is_dir[i];
  }
  a0_pathglob_close(&glob);
  uint64_t heap = vh_live_heap();
  a0_discovery_t disc;
  a0_err_t err = a0_discovery_init(&disc, pattern, (a0_discovery_callback_t){announced, found});
  vh_assert(err == A0_OK && thread_fn, "starting succeeds");
  running = 1;
  thread_fn(thread_arg);
  running = 0;
  vh_assert(closing, "the watch goes on until it is closed");
  if (!faults) {
    for (int i = 0; i < ITEMS; i++) {
      if (match[i] && fs_path(item[i], 0) >= 0) {
#ifdef TOPGONE
        vh_assert(announced[i], "a file in a directory that was removed and made again is announced");
#else
        vh_assert(announced[i], "every matching file is announced");
#endif
        vh_reach("announced");
      }
    }
  } else {
    vh_reach("faults");
  }
  vh_assert(a0_discovery_close(&disc) == A0_OK && joined, "closing succeeds");
  vh_assert(!fd_open[0] && !fd_open[1] && !fd_open[2] && !fs_open_things(), "nothing is left open");
  vh_assert(vh_live_heap() == heap, "no memory is left");
  vh_reach("end");
  return 0;
}
