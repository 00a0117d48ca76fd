// Topic names, templates and root: the path of a topic.
#include <a0/env.h>
#include <a0/file.h>
#include <a0/topic.h>

#include <string.h>

#include "vh.h"
#include "vlibc.h"

#ifndef NP
#define NP 2  // bytes before the placeholder
#endif
#ifndef NS
#define NS 2  // bytes after the placeholder
#endif
#ifndef NT
#define NT 3  // bytes of topic name
#endif

// Arbitrary string of exactly n bytes.
static void sym_str(char* s, int n) {
  for (int i = 0; i < n; i++) {
    s[i] = (char)vh_u8();
    vh_assume(s[i] != 0);
  }
  s[n] = 0;
}

static char opened[64];
static int opens;
static const a0_file_options_t* opened_opts;
static a0_err_t open_err;

#if defined(H_PATH) || defined(H_ENV)
// Stand-in for opening: records the path it is given.
a0_err_t a0_file_open(const char* path, const a0_file_options_t* opts, a0_file_t* file) {
  (void)file;
  opens++;
  opened_opts = opts;
  vh_assert(strlen(path) < sizeof(opened), "path length");
  memcpy(opened, path, strlen(path) + 1);
  return open_err;
}
#endif

static int length(int max) {
  return (int)vh_concrete(vh_range(0, max));
}

#ifdef H_PATH
int main(void) {
  int np = length(NP), ns = length(NS), nt = length(NT);
  char* tmpl = malloc(np + 7 + ns + 1);
  char* topic = malloc(nt + 1);
  char* want = malloc(np + ns + nt + 1);
  sym_str(tmpl, np);
  memcpy(tmpl + np, "{topic}", 7);
  sym_str(tmpl + np + 7, ns);
  sym_str(topic, nt);
  memcpy(want, tmpl, np);
  memcpy(want + np, topic, nt);
  memcpy(want + np + nt, tmpl + np + 7, ns + 1);

  open_err = (a0_err_t)vh_range(0, 20);
  a0_file_options_t opts = A0_FILE_OPTIONS_DEFAULT;
  a0_file_t file;
  const char* path = NULL;
  a0_err_t err = a0_topic_path(tmpl, topic, &path);
  a0_err_t oerr = a0_topic_open(tmpl, topic, &opts, &file);
  if (topic[0] == 0 || topic[0] == '/') {
    vh_assert(err != A0_OK && path == NULL, "empty or absolute topic refused");
    vh_assert(oerr != A0_OK && opens == 0, "empty or absolute topic not opened");
    if (nt == 0) {
      vh_reach("empty topic");
    } else {
      vh_reach("absolute topic");
    }
  } else {
    vh_assert(err == A0_OK, "topic accepted");
    vh_assert(strcmp(path, want) == 0, "topic is placed verbatim into the template");
    vh_assert(opens == 1 && oerr == open_err, "opened once and the result returned");
    vh_assert(strcmp(opened, want) == 0, "the topic's own path is opened");
    vh_assert(opened_opts == &opts, "options passed on");
    vh_reach("topic path");
    // Two topics share a path only if they are the same.
    char* other = malloc(nt + 1);
    sym_str(other, nt);
    vh_assume((other[0] != '/') & (other[0] != 0));
    const char* path2 = NULL;
    vh_assert(a0_topic_path(tmpl, other, &path2) == A0_OK, "topic accepted");
    vh_assert((strcmp(path, path2) == 0) == (strcmp(topic, other) == 0), "distinct topics have distinct paths");
    free((void*)path2);
    free((void*)path);
  }
}
#endif

#ifdef H_NOPLACE
// Templates without the placeholder are refused; so are null arguments.
int main(void) {
  int n = length(7);
  char *tmpl = malloc(n + 1), topic[2] = "a";
  sym_str(tmpl, n);
  vh_assume(strcmp(tmpl, "{topic}") != 0);
  const char* path = NULL;
  vh_assert(a0_topic_path(tmpl, topic, &path) != A0_OK && path == NULL, "template without a place for the topic refused");
  vh_assert(a0_topic_path(NULL, topic, &path) != A0_OK && path == NULL, "null template refused");
  vh_assert(a0_topic_path("{topic}", NULL, &path) != A0_OK && path == NULL, "null topic refused");
  vh_assert(a0_topic_open(tmpl, topic, NULL, NULL) != A0_OK, "template without a place for the topic not opened");
  vh_reach("done");
}
a0_err_t a0_file_open(const char* path, const a0_file_options_t* opts, a0_file_t* file) {
  vh_assert(0, "nothing is opened");
  return A0_OK;
}
#endif

#ifdef H_ABS
a0_err_t a0_abspath(const char* rel, char** out);
static char root[NP + 1];
static int root_set;
char* vh_getenv(const char* name) {
  return (strcmp(name, "A0_ROOT") == 0 && root_set) ? root : NULL;
}
int main(void) {
  int nt = length(NT), np = length(NP);
  char* rel = malloc(nt + 1);
  sym_str(rel, nt);
  sym_str(root, np);
  root_set = vh_bool();
  const char* r = root_set ? root : "/dev/shm/alephzero";
  char* out = NULL;
  a0_err_t err = a0_abspath(rel, &out);
  if (rel[0] == 0) {
    vh_assert(err != A0_OK, "empty path refused");
    vh_reach("empty path");
  } else if (rel[0] == '/') {
    vh_assert(err == A0_OK && strcmp(out, rel) == 0, "absolute paths are unchanged");
    vh_reach("absolute path");
  } else if (r[0] != '/') {
    vh_assert(err != A0_OK, "unusable root refused");
    vh_reach("bad root");
  } else {
    vh_assert(err == A0_OK, "relative path accepted");
    size_t n = strlen(r);
    vh_assert(memcmp(out, r, n) == 0 && out[n] == '/' && strcmp(out + n + 1, rel) == 0, "relative paths resolve under the root");
    vh_reach("relative path");
  }
  vh_assert(a0_abspath(NULL, &out) != A0_OK, "null path refused");
}
#endif

#ifdef H_ENV
// Each kind of topic goes through its own template, from the environment or by default.
#include <a0/cfg.h>
#include <a0/deadman.h>
#include <a0/log.h>
#include <a0/prpc.h>
#include <a0/pubsub.h>
#include <a0/rpc.h>
static const char* const VAR[] = {"A0_TOPIC_TMPL_CFG", "A0_TOPIC_TMPL_DEADMAN", "A0_TOPIC_TMPL_LOG", "A0_TOPIC_TMPL_PRPC", "A0_TOPIC_TMPL_PUBSUB", "A0_TOPIC_TMPL_RPC"};
static const char* const DEF[] = {"{topic}.cfg.a0", "{topic}.deadman", "{topic}.log.a0", "{topic}.prpc.a0", "{topic}.pubsub.a0", "{topic}.rpc.a0"};
static const char* (*const FN[])() = {a0_env_topic_tmpl_cfg, a0_env_topic_tmpl_deadman, a0_env_topic_tmpl_log, a0_env_topic_tmpl_prpc, a0_env_topic_tmpl_pubsub, a0_env_topic_tmpl_rpc};
static int set[6];
static char val[6][4];
char* vh_getenv(const char* name) {
  for (int i = 0; i < 6; i++) {
    if (strcmp(name, VAR[i]) == 0) {
      return set[i] ? val[i] : NULL;
    }
  }
  return NULL;
}
int main(void) {
  for (int i = 0; i < 6; i++) {
    set[i] = vh_bool();
    sym_str(val[i], 3);
  }
  for (int i = 0; i < 6; i++) {
    const char* got = FN[i]();
    vh_assert(strcmp(got, set[i] ? val[i] : DEF[i]) == 0, "template is the configured one, or the default");
  }
  vh_assert(strcmp(a0_env_root(), "/dev/shm/alephzero") == 0, "default root");
  vh_reach("templates");
}
#endif
