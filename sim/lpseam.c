/* Reruns a scenario with a reference solver (quadruple precision, Bland's rule) in place of the bundled LP solver, to tell
   the known loss of precision of the latter from every other wrong result. Off (a plain call) except in such reruns. */
#include <stdlib.h>
#include <string.h>
#include "lpkit.h"
typedef __float128 Q;
int sim_lp_tight;
static Q *D; /* dictionary: rows 0..m-1 basic variables, row m the objective; columns 0..n-1 nonbasic variables, column n constants */
static int m, n, *bas, *non;
#define E(i, j) D[(size_t)(i) * (size_t)(n + 1) + (size_t)(j)]
static const Q EPS = 1e-22Q, PIV = 1e-17Q;
static void pivot(int r, int c) {
  Q p = -E(r, c); /* basic_r = E(r,n) + sum E(r,j) nonbasic_j, solved for nonbasic_c */
  int i, j, t = bas[r];
  bas[r] = non[c], non[c] = t;
  for (j = 0; j <= n; j++)
    if (j != c) E(r, j) /= p;
  E(r, c) = -1 / p;
  for (i = 0; i <= m; i++)
    if (i != r) {
      Q f = E(i, c);
      if (f == 0) continue;
      for (j = 0; j <= n; j++)
        if (j != c) {
          E(i, j) += f * E(r, j);
          if (E(i, j) < EPS && E(i, j) > -EPS) E(i, j) = 0;
        }
      E(i, c) = f * E(r, c);
    }
}
/* minimises row m; 0 optimal, 1 unbounded, 2 gives up */
static int simplex(void) {
  int it, i, j, c, r;
  for (it = 0; it < 20000; it++) {
    int bland = it > 3000; /* the steepest column and the largest pivot until that seems to cycle */
    for (c = -1, j = 0; j < n; j++)
      if (E(m, j) < -EPS && (c < 0 || (bland ? non[j] < non[c] : E(m, j) < E(m, c)))) c = j;
    if (c < 0) return 0;
    Q best = 0;
    for (r = -1, i = 0; i < m; i++)
      if (E(i, c) < -PIV) {
        Q t = (E(i, n) > 0 ? E(i, n) : 0) / -E(i, c);
        if (r < 0 || t < best || (t == best && (bland ? bas[i] < bas[r] : E(i, c) < E(r, c)))) r = i, best = t;
      }
    if (r < 0) return 1;
    pivot(r, c);
  }
  return 2;
}
static int reference(lprec *lp) {
  int R = lp->rows, C = lp->columns, i, j, k, st = FAILURE, nv = 0, rows = 0;
  int *pos = calloc((size_t)C + 1, sizeof(int)), *neg = calloc((size_t)C + 1, sizeof(int));
  for (j = 1; j <= C; j++) {
    pos[j] = nv++;
    neg[j] = lp->orig_lowbo[R + j] <= -1e29 ? nv++ : -1;
    if (lp->orig_upbo[R + j] < 1e29) rows++;
  }
  for (i = 1; i <= R; i++) rows += lp->orig_upbo[i] == 0 ? 2 : 1;
  n = nv + 1; /* and the artificial variable, in column nv */
  m = rows;
  D = calloc((size_t)(m + 1) * (size_t)(n + 1), sizeof(Q));
  bas = calloc((size_t)m, sizeof(int)), non = calloc((size_t)n, sizeof(int));
  Q *obj = calloc((size_t)nv + 1, sizeof(Q)), *x = calloc((size_t)C + 1, sizeof(Q)), *row = calloc((size_t)R + 1, sizeof(Q));
  int *at = calloc((size_t)R + 1, sizeof(int));
  for (i = 1, k = 0; i <= R; i++) at[i] = k, k += lp->orig_upbo[i] == 0 ? 2 : 1;
  for (i = 1; i <= R; i++) E(at[i], n) = lp->orig_rh[i];
  for (j = 1; j <= C; j++) {
    Q lo = neg[j] < 0 ? lp->orig_lowbo[R + j] : 0;
    for (k = lp->col_end[j - 1]; k < lp->col_end[j]; k++) {
      int q = lp->mat[k].row_nr;
      Q a = lp->mat[k].value;
      if (!q) {
        obj[pos[j]] += a;
        if (neg[j] >= 0) obj[neg[j]] -= a;
        obj[nv] += a * lo;
      } else {
        E(at[q], pos[j]) -= a;
        if (neg[j] >= 0) E(at[q], neg[j]) += a;
        E(at[q], n) -= a * lo;
      }
    }
    if (lp->orig_upbo[R + j] < 1e29) {
      --rows;
      E(rows, pos[j]) = -1;
      if (neg[j] >= 0) E(rows, neg[j]) = 1;
      E(rows, n) = lp->orig_upbo[R + j] - lo;
    }
  }
  for (i = 1; i <= R; i++)
    if (lp->orig_upbo[i] == 0)
      for (j = 0; j <= n; j++) E(at[i] + 1, j) = -E(at[i], j);
  for (i = 0; i < m; i++) bas[i] = nv + 1 + i;
  for (j = 0; j < n; j++) non[j] = j;
  int low = -1;
  for (i = 0; i < m; i++) E(i, nv) = 0;
  for (i = 0; i < m; i++)
    if (E(i, n) < -EPS && (low < 0 || E(i, n) < E(low, n))) low = i;
  if (low >= 0) { /* a feasible start first */
    for (i = 0; i < m; i++) E(i, nv) = 1;
    for (j = 0; j <= n; j++) E(m, j) = 0;
    E(m, nv) = 1;
    pivot(low, nv);
    if (simplex() == 2) goto out;
    if (E(m, n) > 1e-18Q) {
      st = INFEASIBLE;
      goto out;
    }
    for (i = 0; i < m; i++)
      if (bas[i] == nv) { /* at zero: exchange it for anything */
        E(i, n) = 0;
        for (k = -1, j = 0; j < n; j++)
          if (E(i, j) != 0 && (k < 0 || (E(i, j) < 0 ? -E(i, j) : E(i, j)) > (E(i, k) < 0 ? -E(i, k) : E(i, k)))) k = j;
        if (k >= 0) pivot(i, k);
        break;
      }
    for (j = 0; j < n; j++)
      if (non[j] == nv)
        for (i = 0; i <= m; i++) E(i, j) = 0; /* stays at zero from now on */
  }
  for (j = 0; j <= n; j++) E(m, j) = 0;
  E(m, n) = obj[nv];
  for (k = 0; k < nv; k++) {
    for (j = 0; j < n; j++)
      if (non[j] == k) E(m, j) += obj[k];
    for (i = 0; i < m; i++)
      if (bas[i] == k)
        for (j = 0; j <= n; j++) E(m, j) += obj[k] * E(i, j);
  }
  for (j = 0; j < n; j++)
    if (non[j] == nv) E(m, j) = 0;
  i = simplex();
  st = i == 0 ? OPTIMAL : i == 1 ? UNBOUNDED : FAILURE;
  if (st != OPTIMAL) goto out;
  for (j = 1; j <= C; j++) {
    x[j] = neg[j] < 0 ? lp->orig_lowbo[R + j] : 0;
    for (i = 0; i < m; i++) {
      if (bas[i] == pos[j]) x[j] += E(i, n);
      if (neg[j] >= 0 && bas[i] == neg[j]) x[j] -= E(i, n);
    }
    for (k = lp->col_end[j - 1]; k < lp->col_end[j]; k++) row[lp->mat[k].row_nr] += lp->mat[k].value * x[j];
    lp->best_solution[R + j] = (REAL)x[j];
  }
  for (i = 0; i <= R; i++) lp->best_solution[i] = (REAL)row[i];
out:
  free(pos), free(neg), free(D), free(bas), free(non), free(obj), free(x), free(row), free(at);
  return st;
}
int sim_lp_solve(lprec *lp) {
  int r = solve(lp), t;
  if (!sim_lp_tight) return r;
  t = reference(lp);
  return t == FAILURE ? r : t;
}
