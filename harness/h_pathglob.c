// Path patterns against a straightforward matcher, for all short strings.
#include <a0/pathglob.h>

#include <string.h>

#include "vh.h"
#include "vlibc.h"

// Patterns and paths given here are absolute.
a0_err_t a0_abspath(const char* rel, char** out) {
  *out = strdup(rel);
  return A0_OK;
}

#ifdef H_MATCH
#ifndef NG
#define NG 4
#endif
#ifndef NR
#define NR 4
#endif

// Branch-free reference.
//   m(i, j): pattern from i matches path from j, both starting inside the same
//   kind of position.  Star rules: '*' matches a run without '/', a "**"
//   component followed by '/' matches zero or more "x/" components.
static char g[NG + 2], r[NR + 2];

static int ref_match(void) {
  // memo[i][j] for suffixes, computed from the end.
  int m[NG + 3][NR + 3];
  int ng = NG + 1, nr = NR + 1;  // lengths including the leading '/'
  for (int i = 0; i <= ng + 1; i++) {
    for (int j = 0; j <= nr + 1; j++) {
      m[i][j] = 0;
    }
  }
  for (int i = ng; i >= 0; i--) {
    for (int j = nr; j >= 0; j--) {
      int v;
      if (i == ng) {
        v = (j == nr);
      } else {
        // '*' within a component: either stop here, or eat one non-separator.
        int star = m[i + 1][j];
        if (j < nr) {
          star |= (r[j] != '/') & m[i][j + 1];
        }
        int lit = 0;
        if (j < nr) {
          lit = (g[i] == r[j]) & m[i + 1][j + 1];
        }
        v = ((g[i] == '*') & star) | ((g[i] != '*') & lit);
        // A whole "**" component that is not the last one: g[i-1] == '/', "**/".
        if (i >= 1 && i + 2 < ng) {
          int rec = (g[i - 1] == '/') & (g[i] == '*') & (g[i + 1] == '*') & (g[i + 2] == '/');
          // Zero components, or skip one path component "x/".
          int rv = m[i + 3][j];
          int open = 1;
          for (int k = j; k < nr; k++) {
            // open: r[j..k) has no separator
            rv |= open & (r[k] == '/') & m[i][k + 1];
            open &= r[k] != '/';
          }
          v = (rec & rv) | (!rec & v);
        }
      }
      m[i][j] = v;
    }
  }
  return m[0][0];
}

int main(void) {
  g[0] = r[0] = '/';
  for (int i = 1; i <= NG; i++) {
    g[i] = (char)vh_u8();
    vh_assume(g[i] != 0);
  }
  for (int i = 1; i <= NR; i++) {
    r[i] = (char)vh_u8();
    vh_assume(r[i] != 0);
  }
#ifdef GT
  // Given shapes: '?' stands for any byte but '/'.
  for (int i = 1; i <= NG; i++) {
    if (GT[i] == '?') {
      vh_assume(g[i] != '/');
    } else {
      g[i] = GT[i];
    }
  }
  for (int i = 1; i <= NR; i++) {
    if (RT[i] == '?') {
      vh_assume(r[i] != '/');
    } else {
      r[i] = RT[i];
    }
  }
#endif
#ifdef G1
  vh_assume(g[1] == G1);
#endif
#ifdef G1NOT
  vh_assume((g[1] != '*') & (g[1] != '/'));
#endif
  int expected = ref_match();
  a0_pathglob_t glob;
  vh_assert(a0_pathglob_init(&glob, g) == A0_OK, "pattern accepted");
  bool out;
  vh_assert(a0_pathglob_match(&glob, r, &out) == A0_OK, "path accepted");
  vh_assert(out == expected, "match agrees with the wildcard rules");
  if (out) {
    vh_reach("matched");
  } else {
    vh_reach("not matched");
  }
  bool again;
  vh_assert(a0_pathglob_match(&glob, r, &again) == A0_OK && again == out, "same answer again");
  a0_pathglob_close(&glob);
}
#endif

#ifdef H_DEPTH
// Depth at and past the maximum; any component may hold a star.
int main(void) {
  int depth = (int)vh_concrete(vh_range(A0_PATHGLOB_MAX_DEPTH - 2, A0_PATHGLOB_MAX_DEPTH + 3));
  int starred = (int)vh_concrete(vh_range(0, A0_PATHGLOB_MAX_DEPTH + 3));
  char s[2 * A0_PATHGLOB_MAX_DEPTH + 10];
  for (int i = 0; i < depth; i++) {
    s[2 * i] = '/';
    s[2 * i + 1] = i == starred ? '*' : 'a';
  }
  s[2 * depth] = 0;
  a0_pathglob_t* glob = malloc(sizeof(a0_pathglob_t));
  a0_err_t err = a0_pathglob_init(glob, s);
  if (depth <= A0_PATHGLOB_MAX_DEPTH) {
    vh_assert(err == A0_OK, "depth up to the maximum accepted");
    bool out;
    vh_assert(a0_pathglob_match(glob, s, &out) == A0_OK && out, "a path matches the same pattern");
    vh_reach("within the maximum");
  } else {
    vh_assert(err != A0_OK, "deeper patterns refused");
    a0_pathglob_t ok;
    bool out;
    vh_assert(a0_pathglob_init(&ok, "/**/a") == A0_OK, "pattern accepted");
    vh_assert(a0_pathglob_match(&ok, s, &out) != A0_OK, "deeper paths refused");
    vh_reach("past the maximum");
  }
  vh_assert(a0_pathglob_init(glob, NULL) == A0_ERR_BAD_PATH, "null pattern refused");
}
#endif
