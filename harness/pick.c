/* Chooses inputs for the list decoding checks.  It decides nothing: a machine
 * like that of ListDec, in floating point, decodes every offered input as it
 * is and with one step of it changed at a time; inputs at which many of the
 * changes show are worth recording.
 *   in:  cfg kind m r L mask nperm perms... crc|-   then per input: y llr...
 *   out: cfg number-of-changes   /   one string of 0 and 1 per input
 */
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
enum { NMAX = 512, LVMAX = 512 };
typedef struct { double w; int perm; unsigned char c[NMAX]; } path;
static int m, r, L, n, polar, np, nl, lm[LVMAX], lt[LVMAX], mask[LVMAX], perms[64][16], ng, gen[64];
/* the changed step */
static struct { int what, at; } mu;
enum { NONE, LM1, LP1, LHALF, LDOUBLE, NO4, BOTH, THIRD, NO3, FIRST, MINSUM, FREEZE, LOCAL, NOADD, NOCRC, CRCHALF, CRCLAST, SINGLES,
       NOBRANCH = 100, ATLM1, DROPPERM, ATFREEZE, DROPAT };
static int leafp(int m, int r) { return polar ? m == 0 : r == 0 || r == m; }
static void leaves(int m, int r) {
  if (leafp(m, r)) { lm[nl] = m; lt[nl++] = !polar && r == m && m > 0; return; }
  leaves(m - 1, polar ? 0 : r - 1); leaves(m - 1, polar ? 0 : r);
}
static int nleaves(int m, int r) { return leafp(m, r) ? 1 : nleaves(m - 1, polar ? 0 : r - 1) + nleaves(m - 1, polar ? 0 : r); }
static void assemble(int m, int r, const unsigned char *c, unsigned char *out) {
  int h = 1 << m >> 1;
  if (leafp(m, r)) { memcpy(out, c, 1 << m); return; }
  assemble(m - 1, polar ? 0 : r - 1, c, out);
  assemble(m - 1, polar ? 0 : r, c + h, out + h);
  for (int i = 0; i < h; i++) out[i] ^= out[i + h];
}
static double lxor(double a, double b) {
  double s = (a < 0) == (b < 0) ? 1 : -1, x = fabs(a), y = fabs(b), q = x < y ? x : y;
  if (mu.what == MINSUM) return s * q;
  return s * (q + log1p(exp(-x - y)) - log1p(exp(-fabs(x - y))));
}
/* Symbols at leaf number k of the subtree. */
static void syms(int m, int r, const double *y, const unsigned char *c, int k, double *out) {
  int h = 1 << m >> 1;
  double z[NMAX / 2];
  if (leafp(m, r)) { memcpy(out, y, sizeof(double) << m); return; }
  int nv = nleaves(m - 1, polar ? 0 : r - 1);
  if (k < nv) {
    for (int i = 0; i < h; i++) z[i] = lxor(y[i], y[i + h]);
    syms(m - 1, polar ? 0 : r - 1, z, c, k, out);
  } else {
    unsigned char v[NMAX / 2];
    assemble(m - 1, polar ? 0 : r - 1, c, v);
    for (int i = 0; i < h; i++) z[i] = (v[i] ? -y[i] : y[i]) + (mu.what == NOADD ? 0 : y[i + h]);
    syms(m - 1, polar ? 0 : r, z, c + h, k - nv, out);
  }
}
static double lp(double l, int b) { double x = b ? l : -l; return x > 0 ? -x - log1p(exp(-x)) : -log1p(exp(x)); }
static int cmp(const void *a, const void *b) { double x = ((path *)a)->w, y = ((path *)b)->w; return x < y ? 1 : x > y ? -1 : 0; }
static int crcok(const path *p) {
  int x[NMAX], k = 0, off = 0, v;
  for (int i = 0; i < nl; i++) { if (mask[i]) x[k++] = p->c[off]; off += 1 << lm[i]; }
  int rg[64];
  for (int i = 0; i < ng; i++) rg[i] = x[i];
  for (int j = ng; j < k - ng; j++) {
    v = rg[0];
    for (int i = 0; i < ng; i++) rg[i] = (i < ng - 1 ? rg[i + 1] : x[j]) ^ (v & gen[i]);
  }
  for (int i = 0; i < ng; i++) if (rg[i] != x[k - ng + i]) return 0;
  return 1;
}
static path *A, *B;
static int rc;
static void decode(const double *y, unsigned char *res) {
  int na = 0, off = 0;
  double roots[64][NMAX], s[NMAX];
  for (int p = 0; p < np; p++) {
    if (mu.what == DROPPERM && mu.at == p) continue;
    A[na].w = 0; A[na].perm = p; memset(A[na].c, 0, n); na++;
    for (int i = 0; i < n; i++) {
      int t = 0;
      for (int j = 0; j < m; j++) if (i >> j & 1) t |= 1 << perms[p][j];
      roots[p][i] = y[t];
    }
  }
  for (int k = 0; k < nl; k++) {
    int nb = 0, ln = 1 << lm[k];
    for (int a = 0; a < na; a++) {
      syms(m, r, roots[A[a].perm], A[a].c, k, s);
      double base = mu.what == LOCAL ? 0 : A[a].w;
      if (!mask[k]) {
        B[nb] = A[a];
        if (!(mu.what == FREEZE || (mu.what == ATFREEZE && mu.at == k))) for (int i = 0; i < ln; i++) B[nb].w += lp(s[i], 0);
        nb++; continue;
      }
      if (!lt[k]) {
        double w[2] = {0, 0};
        for (int i = 0; i < ln; i++) { w[0] += lp(s[i], 0); w[1] += lp(s[i], 1); }
        for (int b = 0; b < 2; b++) {
          if (mu.what == NOBRANCH && mu.at == k && w[b] < w[1 - b]) continue;
          B[nb] = A[a]; memset(B[nb].c + off, b, ln); B[nb++].w = base + w[b];
        }
        continue;
      }
      int ix[3] = {-1, -1, -1};
      for (int t = 0; t < 3 && t < ln; t++)
        for (int i = 0; i < ln; i++) {
          if (i == ix[0] || i == ix[1]) continue;
          if (ix[t] < 0 || (mu.what != FIRST && fabs(s[i]) < fabs(s[ix[t]]))) ix[t] = i;
        }
      double w = base;
      path q = A[a];
      for (int i = 0; i < ln; i++) { q.c[off + i] = s[i] < 0; w += lp(s[i], s[i] < 0); }
      double f0 = fabs(s[ix[0]]), f1 = fabs(s[ix[1]]), f2 = ix[2] >= 0 ? fabs(s[ix[2]]) : 1e300;
      for (int t = 0; t < 4; t++) {
        B[nb] = q; B[nb].w = w;
        if (mu.what == NOBRANCH && mu.at == k && t) continue;
        if (t == 1) { B[nb].c[off + ix[0]] ^= 1; B[nb].w -= f0; }
        if (t == 2) { if (mu.what == NO3) continue; B[nb].c[off + ix[1]] ^= 1; B[nb].w -= f1; }
        if (t == 3) {
          if (mu.what == NO4) continue;
          int both = f0 + f1 < f2;
          if (mu.what == BOTH) both = 1;
          if (mu.what == THIRD && ix[2] >= 0) both = 0;
          if (both) { B[nb].c[off + ix[0]] ^= 1; B[nb].c[off + ix[1]] ^= 1; B[nb].w -= f0 + f1; }
          else { B[nb].c[off + ix[2]] ^= 1; B[nb].w -= f2; }
        }
        if (mu.what == SINGLES && t == 3) continue;
        nb++;
      }
    }
    if (mask[k]) {
      int l = L;
      if (mu.what == LM1 || (mu.what == ATLM1 && mu.at == k)) l--;
      if (mu.what == LP1) l++;
      if (mu.what == LHALF) l = (l + 1) / 2;
      if (mu.what == LDOUBLE) l *= 2;
      if (l < 1) l = 1;
      qsort(B, nb, sizeof *B, cmp);
      if (mu.what == DROPAT && nb > l && mu.at < l) { memmove(B + mu.at, B + mu.at + 1, (nb - mu.at - 1) * sizeof *B); nb--; }
      if (nb > l) nb = l;
    }
    path *t = A; A = B; B = t; na = nb;
    off += ln;
  }
  int best = -1;
  if (!mask[nl - 1]) qsort(A, na, sizeof *A, cmp);
  rc = 0;
  if (ng && mu.what != NOCRC) {
    int lim = mu.what == CRCHALF ? (na + 1) / 2 : na;
    for (int i = 0; i < lim && (best < 0 || mu.what == CRCLAST); i++) if (crcok(A + i)) best = i;
    if (best < 0) rc = 1;
  }
  if (best < 0) best = 0;
  unsigned char c[NMAX];
  assemble(m, r, A[best].c, c);
  for (int i = 0; i < n; i++) {
    int t = 0;
    for (int j = 0; j < m; j++) if (i >> j & 1) t |= 1 << perms[A[best].perm][j];
    res[t] = c[i];
  }
}
static int list[2000][2], nmu;
static void addmu(int what, int at) { if (nmu < 2000) { list[nmu][0] = what; list[nmu++][1] = at; } }
int main(void) {
  static char word[1 << 14];
  double y[NMAX];
  unsigned char ref[NMAX], got[NMAX];
  while (scanf("%16383s", word) == 1) {
    if (!strcmp(word, "cfg")) {
      char kind[16], cr[256];
      if (scanf("%15s %d %d %d %16383s %d", kind, &m, &r, &L, word, &np) != 6) return 2;
      polar = !strcmp(kind, "polar"); n = 1 << m; nl = 0;
      if (n > NMAX || np > 64) return 2;
      leaves(m, r);
      for (int i = 0; i < nl; i++) mask[i] = word[i] == '1';
      for (int p = 0; p < np; p++) for (int j = 0; j < m; j++) if (scanf("%d", &perms[p][j]) != 1) return 2;
      if (scanf("%255s", cr) != 1) return 2;
      ng = cr[0] == '-' ? 0 : strlen(cr);
      for (int i = 0; i < ng; i++) gen[i] = cr[i] == '1';
      free(A); free(B);
      A = malloc(sizeof *A * (8 * (L + 2 + np) + 16)); B = malloc(sizeof *B * (8 * (L + 2 + np) + 16));
      nmu = 0;
      for (int w = LM1; w <= SINGLES; w++) {
        int full = 0;
        for (int i = 0; i < nl; i++) full |= lt[i] && mask[i];
        if (w >= NO4 && w <= FIRST && !full) continue;
        if (w >= NOCRC && w <= CRCLAST && !ng) continue;
        if (w == SINGLES) continue;
        addmu(w, 0);
      }
      for (int k = 0; k < nl && k < 64; k++) { if (mask[k]) { addmu(NOBRANCH, k); addmu(ATLM1, k); } else addmu(ATFREEZE, k); }
      if (L > 16) for (int i = 0; i < 4; i++) addmu(DROPAT, i * L / 4 + i);   /* one in the middle is lost */
      if (np > 1) for (int p = 0; p < np; p++) addmu(DROPPERM, p);
      printf("cfg %d\n", nmu);
    } else if (!strcmp(word, "y")) {
      for (int i = 0; i < n; i++) if (scanf("%lf", y + i) != 1) return 2;
      mu.what = NONE; decode(y, ref);
      int rc0 = rc;
      for (int i = 0; i < nmu; i++) {
        mu.what = list[i][0]; mu.at = list[i][1];
        decode(y, got);
        putchar('0' + (rc != rc0 || memcmp(ref, got, n)));
      }
      putchar('\n');
    }
  }
  return 0;
}
