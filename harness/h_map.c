// Hash map against a plain dictionary, for every hash function.
#include <a0/cmp.h>
#include <a0/map.h>

#include <string.h>

#include "vh.h"

#ifndef NPUT
#define NPUT 3
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef KS
#define KS 1
#endif
#ifndef VS
#define VS 4
#endif
#define NK (NPUT + 1)

static uint8_t keys[NK][KS];
static size_t hashes[NK];
static uint8_t model_val[NK][VS];
static int model_has[NK];

static int keyid(const void* k) { return *(const uint8_t*)k - 10; }

static a0_err_t hash_fn(void* u, const void* k, size_t* out) {
  (void)u;
  *out = hashes[keyid(k)];
  return A0_OK;
}
static a0_err_t cmp_fn(void* u, const void* a, const void* b, int* out) {
  (void)u;
  *out = memcmp(a, b, KS);
  return A0_OK;
}

static a0_map_t map;

static void put(int k) {
  uint8_t v[VS];
  for (int i = 0; i < VS; i++) {
    v[i] = vh_u8();
  }
  vh_assert(a0_map_put(&map, keys[k], v) == A0_OK, "put succeeds");
  memcpy(model_val[k], v, VS);
  model_has[k] = 1;
}
static void del(int k) {
  a0_err_t err = a0_map_del(&map, keys[k]);
  vh_assert(err == (model_has[k] ? A0_OK : A0_ERR_NOT_FOUND), "del reports whether the key was there");
  model_has[k] = 0;
}
static void pop(int k) {
  uint8_t v[VS + 1];
  uint8_t canary = v[VS] = vh_u8();
  a0_err_t err = a0_map_pop(&map, keys[k], v);
  vh_assert(err == (model_has[k] ? A0_OK : A0_ERR_NOT_FOUND), "pop reports whether the key was there");
  if (model_has[k]) {
    vh_assert(memcmp(v, model_val[k], VS) == 0, "pop returns the latest value");
  }
  vh_assert(v[VS] == canary, "pop writes only the value");
  model_has[k] = 0;
}

static void check(void) {
  size_t n = 0, size;
  bool empty;
  for (int k = 0; k < NK; k++) {
    n += model_has[k];
  }
  {
    // Any one key; every key is some run's choice.
    int k = (int)vh_concrete(vh_range(0, NK - 1));
    bool has;
    vh_assert(a0_map_has(&map, keys[k], &has) == A0_OK, "has succeeds");
    vh_assert(has == model_has[k], "has agrees with the dictionary");
    void* v;
    a0_err_t err = a0_map_get(&map, keys[k], &v);
    vh_assert(err == (model_has[k] ? A0_OK : A0_ERR_NOT_FOUND), "get agrees with the dictionary");
    if (model_has[k]) {
      vh_assert(memcmp(v, model_val[k], VS) == 0, "get returns the latest value");
    }
  }
  vh_assert(a0_map_size(&map, &size) == A0_OK && size == n, "size counts the entries");
  vh_assert(a0_map_empty(&map, &empty) == A0_OK && empty == (n == 0), "empty agrees with size");

  a0_map_iterator_t it;
  a0_map_iterator_init(&it, &map);
  int seen[NK] = {0};
  const void* ik;
  void* iv;
  for (size_t i = 0; i < n; i++) {
    vh_assert(a0_map_iterator_next(&it, &ik, &iv) == A0_OK, "iteration yields every entry");
    int k = keyid(ik);
    vh_assert(k >= 0 && k < NK && model_has[k] && !seen[k], "iteration yields each entry once");
    seen[k] = 1;
    vh_assert(memcmp(iv, model_val[k], VS) == 0, "iteration yields the latest value");
  }
  vh_assert(a0_map_iterator_next(&it, &ik, &iv) == A0_ERR_ITER_DONE, "iteration ends");
  vh_assert(a0_map_iterator_next(&it, &ik, &iv) == A0_ERR_ITER_DONE, "iteration stays ended");
}

int main(void) {
  for (int i = 0; i < NK; i++) {
    memset(keys[i], 7, KS);
    keys[i][0] = 10 + i;
    hashes[i] = vh_u64();
  }
  a0_map_init(&map, KS, VS, (a0_hash_t){NULL, hash_fn}, (a0_cmp_t){NULL, cmp_fn});
#ifdef EMPTY_FIRST
  check();
  del(0);
  pop(0);
  check();
#endif
  for (int i = 0; i < NPUT; i++) {
    put(i);
  }
  for (int i = 0; i < NOPS; i++) {
    int k = (int)vh_concrete(vh_range(0, NK - 1));
    int op = (int)vh_concrete(vh_range(0, 2));
#ifdef FIRST_OP
    if (i == 0) {
      vh_assume(op == FIRST_OP);
    }
#endif
    if (op == 0) {
      put(k);
      vh_reach("put");
    } else if (op == 1) {
      del(k);
      vh_reach("del");
    } else {
      pop(k);
      vh_reach("pop");
    }
  }
  check();
  vh_assert(a0_map_close(&map) == A0_OK, "close succeeds");
  vh_reach("done");
}
