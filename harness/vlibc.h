// Library routines the symbolic engine does not know; replays use the real ones.
#ifndef VLIBC_H
#define VLIBC_H
#include <stdlib.h>
#include <string.h>
#ifdef VH_SYMEX
char* strstr(const char* h, const char* n) {
  size_t k = strlen(n);
  for (;; h++) {
    if (strncmp(h, n, k) == 0) {
      return (char*)h;
    }
    if (!*h) {
      return NULL;
    }
  }
}
char* strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = malloc(n);
  memcpy(p, s, n);
  return p;
}
char* strndup(const char* s, size_t m) {
  size_t n = strnlen(s, m);
  char* p = malloc(n + 1);
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}
char* strncpy(char* d, const char* s, size_t n) {
  size_t k = strnlen(s, n);
  memcpy(d, s, k);
  memset(d + k, 0, n - k);
  return d;
}
char* strncat(char* d, const char* s, size_t n) {
  size_t a = strlen(d), k = strnlen(s, n);
  memcpy(d + a, s, k);
  d[a + k] = 0;
  return d;
}
char* dirname(char* path) {
  size_t n = path ? strlen(path) : 0;
  while (n > 1 && path[n - 1] == '/') {
    n--;
  }
  while (n && path[n - 1] != '/') {
    n--;
  }
  if (!n) {
    return ".";
  }
  while (n > 1 && path[n - 1] == '/') {
    n--;
  }
  path[n] = 0;
  return path;
}
#endif
#endif
