/* Exact rational simplex (general bounds, Bland's rule) over GMP rationals.
   Used by sa/poly.py as the decision kernel of the linear-inequality domain. */
#include <gmp.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

typedef struct {
  int m, n, tot, ok, gaveup;
  int *ba, *nb;              /* variable of each row / column */
  int *pos;                  /* var -> row index (>=0) or -1-col */
  char *hlo, *hhi;
  mpq_t *lo, *hi, *val, *tab; /* tab[i*n+j] */
} LP;

static mpq_t t1, t2, t3;
static int inited = 0;
static void init(void) { if (!inited) { mpq_init(t1); mpq_init(t2); mpq_init(t3); inited = 1; } }

static char *rdtok(char **s) {
  while (**s == ' ') (*s)++;
  char *b = *s;
  while (**s && **s != ' ') (*s)++;
  if (**s) { **s = 0; (*s)++; }
  return b;
}

static void pivot(LP *l, int r, int c) {
  int n = l->n, m = l->m;
  mpq_t *row = l->tab + (size_t) r * n;
  mpq_inv(t1, row[c]);
  for (int j = 0; j < n; j++) {
    if (j == c) continue;
    if (mpq_sgn(row[j])) { mpq_mul(row[j], row[j], t1); mpq_neg(row[j], row[j]); }
  }
  mpq_set(row[c], t1);
  for (int i = 0; i < m; i++) {
    if (i == r) continue;
    mpq_t *q = l->tab + (size_t) i * n;
    if (!mpq_sgn(q[c])) continue;
    mpq_set(t2, q[c]);
    mpq_set_ui(q[c], 0, 1);
    for (int j = 0; j < n; j++)
      if (mpq_sgn(row[j])) { mpq_mul(t3, t2, row[j]); mpq_add(q[j], q[j], t3); }
  }
  int b = l->ba[r], v = l->nb[c];
  l->ba[r] = v; l->nb[c] = b;
  l->pos[v] = r; l->pos[b] = -1 - c;
}

static int solve(LP *l) {
  int n = l->n, m = l->m;
  mpq_t theta; mpq_init(theta);
  int res = 1, it;
  for (it = 0; it < 5000; it++) {
    int bi = -1, bv = -1, inc = 0;
    for (int i = 0; i < m; i++) {
      int b = l->ba[i];
      if (bi >= 0 && b > bv) continue;
      if (l->hlo[b] && mpq_cmp(l->val[b], l->lo[b]) < 0) { bi = i; bv = b; inc = 1; }
      else if (l->hhi[b] && mpq_cmp(l->val[b], l->hi[b]) > 0) { bi = i; bv = b; inc = 0; }
    }
    if (bi < 0) goto done;
    mpq_t *row = l->tab + (size_t) bi * n;
    int pc = -1;
    for (int j = 0; j < n; j++) {
      int s = mpq_sgn(row[j]);
      if (!s) continue;
      int v = l->nb[j];
      if (pc >= 0 && v > l->nb[pc]) continue;
      int up = (s > 0) == inc;
      if (up ? (!l->hhi[v] || mpq_cmp(l->val[v], l->hi[v]) < 0)
             : (!l->hlo[v] || mpq_cmp(l->val[v], l->lo[v]) > 0)) pc = j;
    }
    if (pc < 0) { res = 0; goto done; }
    mpq_sub(theta, inc ? l->lo[bv] : l->hi[bv], l->val[bv]);
    mpq_div(theta, theta, row[pc]);
    int pv = l->nb[pc];
    mpq_set(l->val[bv], inc ? l->lo[bv] : l->hi[bv]);
    mpq_add(l->val[pv], l->val[pv], theta);
    for (int i = 0; i < m; i++) {
      if (i == bi) continue;
      mpq_t *q = l->tab + (size_t) i * n;
      if (mpq_sgn(q[pc])) { mpq_mul(t1, q[pc], theta); mpq_add(l->val[l->ba[i]], l->val[l->ba[i]], t1); }
    }
    pivot(l, bi, pc);
  }
  l->gaveup = 1;
done:
  mpq_clear(theta);
  return res;
}

/* text: nx m nlo nhi  then lo: (var num) ...  hi: ...   rows: k (var coef)*k
   bounds of slack variables are given as variables nx..nx+m-1 */
LP *lp_open(const char *txt) {
  init();
  char *buf = strdup(txt), *s = buf;
  LP *l = calloc(1, sizeof *l);
  int nx = atoi(rdtok(&s)), m = atoi(rdtok(&s));
  l->n = nx; l->m = m; l->tot = nx + m;
  l->ba = malloc(sizeof(int) * (m + 1)); l->nb = malloc(sizeof(int) * (nx + 1));
  l->pos = malloc(sizeof(int) * (l->tot + 1));
  l->hlo = calloc(l->tot + 1, 1); l->hhi = calloc(l->tot + 1, 1);
  l->lo = malloc(sizeof(mpq_t) * (l->tot + 1)); l->hi = malloc(sizeof(mpq_t) * (l->tot + 1));
  l->val = malloc(sizeof(mpq_t) * (l->tot + 1));
  for (int i = 0; i < l->tot; i++) { mpq_init(l->lo[i]); mpq_init(l->hi[i]); mpq_init(l->val[i]); }
  l->tab = malloc(sizeof(mpq_t) * ((size_t) m * nx + 1));
  for (size_t i = 0; i < (size_t) m * nx; i++) mpq_init(l->tab[i]);
  int nl = atoi(rdtok(&s));
  for (int i = 0; i < nl; i++) { int v = atoi(rdtok(&s)); mpq_set_str(l->lo[v], rdtok(&s), 10); mpq_canonicalize(l->lo[v]); l->hlo[v] = 1; }
  int nh = atoi(rdtok(&s));
  for (int i = 0; i < nh; i++) { int v = atoi(rdtok(&s)); mpq_set_str(l->hi[v], rdtok(&s), 10); mpq_canonicalize(l->hi[v]); l->hhi[v] = 1; }
  for (int i = 0; i < m; i++) {
    int k = atoi(rdtok(&s));
    for (int j = 0; j < k; j++) {
      int v = atoi(rdtok(&s));
      mpq_t *x = &l->tab[(size_t) i * nx + v];
      mpq_set_str(*x, rdtok(&s), 10); mpq_canonicalize(*x);
    }
    l->ba[i] = nx + i; l->pos[nx + i] = i;
  }
  for (int j = 0; j < nx; j++) { l->nb[j] = j; l->pos[j] = -1 - j; }
  free(buf);
  l->ok = 1;
  for (int v = 0; v < l->tot; v++)
    if (l->hlo[v] && l->hhi[v] && mpq_cmp(l->lo[v], l->hi[v]) > 0) { l->ok = 0; return l; }
  for (int j = 0; j < nx; j++) {
    if (l->hlo[j] && mpq_cmp(l->val[j], l->lo[j]) < 0) mpq_set(l->val[j], l->lo[j]);
    if (l->hhi[j] && mpq_cmp(l->val[j], l->hi[j]) > 0) mpq_set(l->val[j], l->hi[j]);
  }
  for (int i = 0; i < m; i++)
    for (int j = 0; j < nx; j++)
      if (mpq_sgn(l->tab[(size_t) i * nx + j])) {
        mpq_mul(t1, l->tab[(size_t) i * nx + j], l->val[j]);
        mpq_add(l->val[nx + i], l->val[nx + i], t1);
      }
  l->ok = solve(l);
  return l;
}

int lp_ok(LP *l) { return l->ok ? (l->gaveup ? 2 : 1) : 0; }

void lp_close(LP *l) {
  for (int i = 0; i < l->tot; i++) { mpq_clear(l->lo[i]); mpq_clear(l->hi[i]); mpq_clear(l->val[i]); }
  for (size_t i = 0; i < (size_t) l->m * l->n; i++) mpq_clear(l->tab[i]);
  free(l->ba); free(l->nb); free(l->pos); free(l->hlo); free(l->hhi); free(l->lo); free(l->hi); free(l->val); free(l->tab); free(l);
}

static char *outbuf = NULL;

/* minimise  sum coef*var  (txt: k (var coef)*k); returns "" when unbounded */
const char *lp_min(LP *l, const char *txt) {
  if (!l->ok || l->gaveup) return "";
  char *buf = strdup(txt), *s = buf;
  int n = l->n, m = l->m;
  mpq_t *obj = malloc(sizeof(mpq_t) * (n + 1));
  for (int j = 0; j < n; j++) mpq_init(obj[j]);
  mpq_t k, lim, t;
  mpq_init(k); mpq_init(lim); mpq_init(t);
  int kk = atoi(rdtok(&s));
  for (int q = 0; q < kk; q++) {
    int v = atoi(rdtok(&s));
    mpq_set_str(k, rdtok(&s), 10); mpq_canonicalize(k);
    if (l->pos[v] >= 0) {
      mpq_t *row = l->tab + (size_t) l->pos[v] * n;
      for (int j = 0; j < n; j++) if (mpq_sgn(row[j])) { mpq_mul(t, k, row[j]); mpq_add(obj[j], obj[j], t); }
    } else { int j = -1 - l->pos[v]; mpq_add(obj[j], obj[j], k); }
  }
  free(buf);
  int found = 0;
  for (int it = 0; it < 5000; it++) {
    int ent = -1, d = 0;
    for (int j = 0; j < n; j++) {
      int sg = mpq_sgn(obj[j]);
      if (!sg) continue;
      int v = l->nb[j];
      if (ent >= 0 && v > l->nb[ent]) continue;
      if (sg > 0) { if (!l->hlo[v] || mpq_cmp(l->val[v], l->lo[v]) > 0) { ent = j; d = -1; } }
      else { if (!l->hhi[v] || mpq_cmp(l->val[v], l->hi[v]) < 0) { ent = j; d = 1; } }
    }
    if (ent < 0) { found = 1; break; }
    int ev = l->nb[ent], haslim = 0, leave = -1;
    if (d > 0 && l->hhi[ev]) { mpq_sub(lim, l->hi[ev], l->val[ev]); haslim = 1; }
    if (d < 0 && l->hlo[ev]) { mpq_sub(lim, l->val[ev], l->lo[ev]); haslim = 1; }
    for (int i = 0; i < m; i++) {
      mpq_t *c = &l->tab[(size_t) i * n + ent];
      int sg = mpq_sgn(*c) * d;
      if (!sg) continue;
      int b = l->ba[i];
      if (sg > 0 && l->hhi[b]) mpq_sub(t, l->hi[b], l->val[b]);
      else if (sg < 0 && l->hlo[b]) mpq_sub(t, l->lo[b], l->val[b]);
      else continue;
      mpq_div(t, t, *c);
      if (d < 0) mpq_neg(t, t);
      if (!haslim || mpq_cmp(t, lim) < 0 || (mpq_cmp(t, lim) == 0 && leave >= 0 && b < l->ba[leave])) { mpq_set(lim, t); haslim = 1; leave = i; }
    }
    if (!haslim) break;
    mpq_set(t, lim);
    if (d < 0) mpq_neg(t, t);
    mpq_add(l->val[ev], l->val[ev], t);
    for (int i = 0; i < m; i++) {
      mpq_t *c = &l->tab[(size_t) i * n + ent];
      if (mpq_sgn(*c)) { mpq_mul(k, *c, t); mpq_add(l->val[l->ba[i]], l->val[l->ba[i]], k); }
    }
    if (leave >= 0) {
      pivot(l, leave, ent);
      mpq_t *row = l->tab + (size_t) leave * n;
      mpq_set(k, obj[ent]);
      mpq_set_ui(obj[ent], 0, 1);
      for (int j = 0; j < n; j++) if (mpq_sgn(row[j])) { mpq_mul(t, k, row[j]); mpq_add(obj[j], obj[j], t); }
    }
  }
  const char *r = "";
  if (found) {
    mpq_set_ui(k, 0, 1);
    for (int j = 0; j < n; j++) if (mpq_sgn(obj[j])) { mpq_mul(t, obj[j], l->val[l->nb[j]]); mpq_add(k, k, t); }
    free(outbuf);
    outbuf = mpq_get_str(NULL, 10, k);
    r = outbuf;
  }
  for (int j = 0; j < n; j++) mpq_clear(obj[j]);
  free(obj);
  mpq_clear(k); mpq_clear(lim); mpq_clear(t);
  return r;
}

/* is the lower (hi = 0) or upper (hi = 1) bound of var implied, over the
   integers, by the other bounds?  If so it stays removed. */
int lp_redundant(LP *l, int var, int hi) {
  if (!l->ok || l->gaveup) return 0;
  char *flag = hi ? &l->hhi[var] : &l->hlo[var];
  if (!*flag) return 0;
  *flag = 0;
  char txt[40];
  sprintf(txt, "1 %d %d", var, hi ? -1 : 1);
  const char *r = lp_min(l, txt);
  int red = 0;
  if (*r) {
    mpq_t v; mpq_init(v);
    mpq_set_str(v, r, 10);
    if (hi) { mpq_neg(v, v); mpq_sub(v, v, l->hi[var]); } else mpq_sub(v, l->lo[var], v);
    /* violation amount v must be < 1 */
    red = mpq_cmp_ui(v, 1, 1) < 0;
    mpq_clear(v);
  }
  if (red) return 1;
  *flag = 1;
  if (l->pos[var] < 0) {
    int c = -1 - l->pos[var];
    mpq_t *b = hi ? &l->hi[var] : &l->lo[var];
    int viol = hi ? mpq_cmp(l->val[var], *b) > 0 : mpq_cmp(l->val[var], *b) < 0;
    if (viol) {
      mpq_t th; mpq_init(th);
      mpq_sub(th, *b, l->val[var]);
      mpq_set(l->val[var], *b);
      for (int i = 0; i < l->m; i++) {
        mpq_t *q = &l->tab[(size_t) i * l->n + c];
        if (mpq_sgn(*q)) { mpq_mul(t1, *q, th); mpq_add(l->val[l->ba[i]], l->val[l->ba[i]], t1); }
      }
      mpq_clear(th);
    }
  }
  l->ok = solve(l);
  return 0;
}
