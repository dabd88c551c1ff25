/* Exact simplex over 128-bit integers with one common denominator; mirrors poly.simplex_min.
   Returns 0 optimal, 1 unbounded, 2 infeasible, 3 overflow (the caller then uses Python integers). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef __int128 I;
static int mul(I a, I b, I *r) { return __builtin_mul_overflow(a, b, r); }
static int sub(I a, I b, I *r) { return __builtin_sub_overflow(a, b, r); }

typedef struct { int m, w; I *a; I *o1, *o2; int *nb, *bs; I D; } T; /* w = columns incl. constant (last) */
#define ROW(t, i) ((t)->a + (size_t)(i) * (t)->w)

static int elim(I *R, const I *A, int W, int s, I p, int sg, I D) {
  I f = R[s];
  if (f) {
    for (int j = 0; j < W; j++) if (j != s) {
      I x, y, z;
      if (!R[j] && !A[j]) continue;
      if (mul(R[j], p, &x) || mul(f, A[j], &y) || sub(x, y, &z)) return 1;
      z /= D;
      R[j] = sg * z;
    }
    R[s] = f * sg;
  } else if (p != D * sg) {
    for (int j = 0; j < W; j++) if (j != s && R[j]) {
      I x;
      if (mul(R[j], p, &x)) return 1;
      R[j] = sg * (x / D);
    }
  }
  return 0;
}

static int pivot(T *t, int r, int s) {
  I *A = ROW(t, r), p = A[s], D = t->D;
  int sg = p > 0 ? 1 : -1;
  for (int i = 0; i < t->m; i++) if (i != r && elim(ROW(t, i), A, t->w, s, p, sg, D)) return 1;
  if (t->o1 && elim(t->o1, A, t->w, s, p, sg, D)) return 1;
  if (t->o2 && elim(t->o2, A, t->w, s, p, sg, D)) return 1;
  for (int j = 0; j < t->w; j++) if (j != s) A[j] = -sg * A[j];
  A[s] = sg * D;
  t->D = p * sg;
  int x = t->nb[s]; t->nb[s] = t->bs[r]; t->bs[r] = x;
  return 0;
}

static int optimise(T *t, I *o) { /* 0 ok, 1 unbounded, 3 overflow */
  int k = t->w - 1;
  for (int it = 1;; it++) {
    if (it > 5000) return 3;
    int s = -1;
    if (it < 60) { I best = 0; for (int j = 0; j < k; j++) if (o[j] > best) { best = o[j]; s = j; } }
    else for (int j = 0; j < k; j++) if (o[j] > 0 && (s < 0 || t->nb[j] < t->nb[s])) s = j;
    if (s < 0) return 0;
    int r = -1; I bn = 0, bd = 1;
    for (int i = 0; i < t->m; i++) {
      I a = ROW(t, i)[s];
      if (a < 0) {
        I q = ROW(t, i)[k], x, y;
        if (r >= 0) { if (mul(q, bd, &x) || mul(bn, -a, &y)) return 3; }
        if (r < 0 || x < y || (x == y && t->bs[i] < t->bs[r])) { bn = q; bd = -a; r = i; }
      }
    }
    if (r < 0) return 1;
    if (pivot(t, r, s)) return 3;
  }
}

/* rows: m x (n+1) (constant last), obj: n+1.  num/den: value.  sol: n numerators (0 when nonbasic). */
int lp_min(int m, int n, const I *rows, const I *obj, I *num, I *den, I *sol) {
  int rc = 3, aux = 0;
  for (int i = 0; i < m; i++) if (rows[(size_t)i * (n + 1) + n] < 0) aux = 1;
  int w = n + 1 + aux;
  T t = { m, w, calloc((size_t)m * w + 1, sizeof(I)), 0, 0, malloc(sizeof(int) * (n + 2)), malloc(sizeof(int) * (m + 1)), 1 };
  I *o = calloc(w + 1, sizeof(I)), *x = calloc(w + 1, sizeof(I));
  for (int j = 0; j < n; j++) t.nb[j] = j;
  for (int i = 0; i < m; i++) t.bs[i] = n + i;
  for (int i = 0; i < m; i++) {
    memcpy(ROW(&t, i), rows + (size_t)i * (n + 1), n * sizeof(I));
    if (aux) ROW(&t, i)[n] = 1;
    ROW(&t, i)[w - 1] = rows[(size_t)i * (n + 1) + n];
  }
  for (int j = 0; j < n; j++) o[j] = -obj[j];
  o[w - 1] = -obj[n];
  t.o1 = o;
  if (aux) {
    int x0 = n + m, r = 0;
    t.nb[n] = x0;
    x[n] = -1;
    t.o2 = x;
    for (int i = 1; i < m; i++) if (ROW(&t, i)[w - 1] < ROW(&t, r)[w - 1]) r = i;
    if (pivot(&t, r, n)) goto out;
    if (optimise(&t, x)) goto out;
    if (x[w - 1] < 0) { rc = 2; goto out; }
    for (int i = 0; i < m; i++) if (t.bs[i] == x0) {
      for (int j = 0; j < w - 1; j++) if (ROW(&t, i)[j]) { if (pivot(&t, i, j)) goto out; break; }
      break;
    }
    t.o2 = 0;
    for (int j = 0; j < w - 1; j++) if (t.nb[j] == x0) {
      /* drop the column */
      for (int i = 0; i < m; i++) memmove(t.a + (size_t)i * (w - 1), ROW(&t, i), j * sizeof(I)),
        memmove(t.a + (size_t)i * (w - 1) + j, ROW(&t, i) + j + 1, (w - 1 - j) * sizeof(I));
      memmove(o + j, o + j + 1, (w - 1 - j) * sizeof(I));
      memmove(t.nb + j, t.nb + j + 1, (w - 2 - j) * sizeof(int));
      t.w = --w;
      break;
    }
  }
  rc = optimise(&t, o);
  if (rc) goto out;
  *num = -o[w - 1];
  *den = t.D;
  for (int j = 0; j < n; j++) sol[j] = 0;
  for (int i = 0; i < m; i++) if (t.bs[i] < n) sol[t.bs[i]] = ROW(&t, i)[w - 1];
out:
  free(t.a); free(t.nb); free(t.bs); free(o); free(x);
  return rc;
}
