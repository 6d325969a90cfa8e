/* The scripted codec of sim_driver.c (see there). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "common/std_defs.h"
#include "common/typedefs.h"
#include "common/spf_par.h"
#include "interfaces/codec.h"
extern FILE *out;
extern int quiet;
extern char **script; extern int nscript, pos;
extern long clk;
typedef struct { long n, bin[2][21]; double s1, s2, c1[16], c2[16], last[32]; } hist_t;
#define KMAX 4096
typedef struct { int n, k, zero, fail, lastx[KMAX]; } mock;
static double cursg = 1;
static hist_t hist;
void put_hist(FILE *f) {
  fprintf(f, "hist %ld %.0f %.0f", hist.n, hist.s1, hist.s2);
  for (int i = 0; i < 42; i++) fprintf(f, " %ld", hist.bin[i / 21][i % 21]);
  for (int l = 0; l < 16; l++) fprintf(f, " %.0f %.0f", hist.c1[l], hist.c2[l]);
  fputc('\n', f);
}
/* Counts the noise of a received vector instead of printing it. */
static void count(const int sent[], const double y[], int n) {
  for (int j = 0; j < n; j++) {
    double z = (y[j] - (sent[j] ? 1.0 : -1.0)) / cursg, a = z < 0 ? -z : z;
    int b = a >= 5 ? 20 : (int)(a * 4);
    hist.bin[z < 0][b]++;
    for (int l = 1; l <= 16; l++) if (hist.n >= l) {
      double v = hist.last[(hist.n - l) & 31];
      hist.c1[l - 1] += z * v; hist.c2[l - 1] += (z * z - 1) * (v * v - 1) / 2;
    }
    hist.last[hist.n & 31] = z;
    hist.n++; hist.s1 += z; hist.s2 += z * z - 1;
  }
}
/* Symbol j of the codeword of x (k bits).  Short messages: the parity of the
 * bits selected by (j mod (2^k - 1)) + 1; long ones (k > 16): x[j mod k], from
 * j = k on xor x[(3 j + 1) mod k]. */
static int cw(const mock *c, const int x[], int j) {
  int v = 0;
  if (c->k > 16) return x[j % c->k] ^ (j >= c->k ? x[(3 * j + 1) % c->k] : 0);
  for (int i = 0, s = j % ((1 << c->k) - 1) + 1; i < c->k; i++) if (s >> i & 1) v ^= x[i];
  return v;
}
int cdc_init(char param_str[], void **cdc) {
  mock *c = calloc(1, sizeof *c);
  char *p = strdup(param_str), *save = NULL;
  c->n = 8; c->k = 3;
  fprintf(out, "cdcinit");
  for (char *t = strtok_r(p, tk_seps_prepared, &save); t; t = strtok_r(NULL, tk_seps_prepared, &save)) {
    char *v = NULL;
    fprintf(out, " %s", t);
    if (!strcmp(t, "mock_n")) { v = strtok_r(NULL, tk_seps_prepared, &save); if (v) c->n = atoi(v); }
    else if (!strcmp(t, "mock_k")) { v = strtok_r(NULL, tk_seps_prepared, &save); if (v) c->k = atoi(v); }
    else if (!strcmp(t, "mock_zero")) { v = strtok_r(NULL, tk_seps_prepared, &save); if (v) c->zero = atoi(v); }
    else if (!strcmp(t, "mock_fail")) c->fail = 1;
    if (v) fprintf(out, " %s", v);
  }
  fputc('\n', out); fflush(out);
  free(p);
  if (c->fail) { free(c); return RC_ERROR; }
  if (c->k > KMAX) c->k = KMAX;
  *cdc = c;
  return RC_OK;
}
int cdc_get_n(void *c) { return ((mock *)c)->n; }
int cdc_get_k(void *c) { return ((mock *)c)->k; }
void cdc_set_csnrn(void *c, int v) { fprintf(out, "csnrn %d\n", v); }
void cdc_set_sg(void *c, double v) { cursg = v; fprintf(out, "sg %a\n", v); }
/* Bit i of a mask in hexadecimal. */
static int mbit(const char *t, int i) {
  int l = strspn(t, "0123456789abcdef"), p = l - 1 - i / 4;
  char d = p < 0 ? '0' : t[p];
  return (d <= '9' ? d - '0' : d - 'a' + 10) >> i % 4 & 1;
}
int enc_bpsk(void *p, int x[], double y[]) {
  mock *c = p;
  for (int i = 0; i < c->k; i++) c->lastx[i] = !!x[i];
  for (int j = 0; j < c->n; j++) y[j] = cw(c, c->lastx, j) ? 1.0 : -1.0;
  if (!quiet) { fprintf(out, "enc "); for (int i = 0; i < c->k; i++) fputc(x[i] == 0 || x[i] == 1 ? '0' + x[i] : '?', out); fputc('\n', out); }
  return RC_OK;
}
static double corr(mock *c, const int x[], const double y[], int hard) {
  double s = 0;
  for (int j = 0; j < c->n; j++) { double z = !hard ? y[j] : y[j] > 0 ? 1 : -1; s += cw(c, x, j) ? z : -z; }
  return s;
}
int dec_bpsk(void *p, double y[], int xd[]) {
  mock *c = p;
  char *t = nscript ? script[pos] : "c";
  int sent[KMAX], rc = RC_OK;
  for (int i = 0; i < c->k; i++) xd[i] = sent[i] = c->zero ? 0 : c->lastx[i];
  if (pos + 1 < nscript) pos++;
  switch (t[0]) {
    case 'w': case 'e': for (int i = 0; i < c->k; i++) xd[i] = sent[i] ^ mbit(t + 1, i); if (t[0] == 'e') rc = RC_DEC_ERASURE; break;
    case 'x': rc = RC_ERROR; break;
    case 'm': case 'h': {
      double best = -1e300;
      int x[KMAX];
      if (c->k <= 16)
        for (unsigned v = 0; v < 1u << c->k; v++) {
          for (int i = 0; i < c->k; i++) x[i] = v >> i & 1;
          double s = corr(c, x, y, t[0] == 'h');
          if (s > best) { best = s; memcpy(xd, x, sizeof(int) * c->k); }
        }
      else
        for (int a = -1; a < c->k; a++) {   /* among the neighbours of the sent message */
          memcpy(x, sent, sizeof(int) * c->k);
          if (a >= 0) x[a] ^= 1;
          double s = corr(c, x, y, t[0] == 'h');
          if (s > best) { best = s; memcpy(xd, x, sizeof(int) * c->k); }
        }
    }
  }
  if (quiet == 2) {
    int s[c->n];
    for (int j = 0; j < c->n; j++) s[j] = cw(c, sent, j);
    count(s, y, c->n);
  } else
  if (!quiet) {
    fprintf(out, "dec %d ", rc);
    for (int i = 0; i < c->k; i++) fputc('0' + xd[i], out);
    for (int j = 0; j < c->n; j++) fprintf(out, " %a", y[j]);
    fputc('\n', out);
  } else fprintf(out, "t\n");
  char *q = strchr(t, '+');
  if (q) clk += atol(q + 1);
  return rc;
}
void cdc_close(void *c) { fprintf(out, "cdcclose\n"); free(c); }
