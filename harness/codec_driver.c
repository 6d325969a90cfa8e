/* Drives one codec through its public interface.  argv: command file, answer
 * file (the codec's own messages go to stdout).  One answer line per command,
 * flushed before the next command, so a crash is attributed to its command.
 * Commands (slot is 0..7, floats are C hex floats, bits are a 0/1 string):
 *   case                      start of an independent case (closes all slots)
 *   init slot token...        cdc_init with these parameter tokens
 *   initnull slot             cdc_init with an empty string
 *   sg slot v / csnrn slot n  channel information
 *   enc slot bits             -> enc ret word inputkept
 *   dec slot v...             -> dec ret bits inputkept
 *   rep N slot K v...         N decodings of K vectors in turn -> rep, then which:rc:bits:kept
 *                             for every result that differs from those before for this vector
 *   close slot
 *   mem                       -> mem bytes allocated on the heap
 *   rm1 fn m lsiz v...        direct call of an RM(1,m) decoder (fn: sh lst finp dotp)
 *   end
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "common/std_defs.h"
#include "common/typedefs.h"
#include "common/spf_par.h"
#include "interfaces/codec.h"
#ifdef HAVE_RM1
#include "rm1_ml/rm1_ml.h"
#pragma weak rm1_dec_sh
#pragma weak rm1_dec_lst
#pragma weak rm1_dec_sh_finp
#pragma weak rm1_dec_sh_dotp
#endif
#ifdef __SANITIZE_ADDRESS__
size_t __sanitizer_get_current_allocated_bytes(void);
#define HEAPUSE() __sanitizer_get_current_allocated_bytes()
#else
#define HEAPUSE() ((size_t)0)
#endif
#define SLOTS 8
static void *inst[SLOTS];
static int open_[SLOTS], nn[SLOTS], kk[SLOTS];
static FILE *out;
static char *line;
static size_t cap;
static char *tok(void) { return strtok(NULL, " \n"); }
static void closeall(void) { for (int i = 0; i < SLOTS; i++) if (open_[i]) { cdc_close(inst[i]); open_[i] = 0; } }
int main(int argc, char **argv) {
  static char obuf[4096];
  setvbuf(stdout, obuf, _IOLBF, sizeof obuf);   /* its buffer is not memory of the codec */
  FILE *in = fopen(argv[1], "r");
  out = fopen(argv[2], "w");
  if (!in || !out) return 2;
  line = malloc(cap = 1 << 22);
  while (getline(&line, &cap, in) > 0) {
    char *c = strtok(line, " \n");
    if (!c) continue;
    if (!strcmp(c, "case")) { closeall(); fprintf(out, "case\n"); }
    else if (!strcmp(c, "end")) { closeall(); fprintf(out, "end\n"); fflush(out); break; }
    else if (!strcmp(c, "init") || !strcmp(c, "initnull")) {
      int s = atoi(tok());
      char *rest = strtok(NULL, "\n");
      size_t l = rest ? strlen(rest) : 0, j = 0;
      char *p = malloc(l + 2);
      /* tokens are written the way spf_read_preparse writes them: each one
       * followed by the separator */
      for (size_t i = 0; i < l; i++) p[j++] = rest[i] == ' ' ? tk_seps_prepared[0] : rest[i];
      if (j && p[j - 1] != tk_seps_prepared[0]) p[j++] = tk_seps_prepared[0];
      p[j] = 0;
      inst[s] = NULL;
      int rc = cdc_init(p, &inst[s]);
      free(p);
      if (rc == 0) { open_[s] = 1; nn[s] = cdc_get_n(inst[s]); kk[s] = cdc_get_k(inst[s]); fprintf(out, "init %d %d %d\n", rc, nn[s], kk[s]); }
      else fprintf(out, "init %d 0 0\n", rc);
    }
    else if (!strcmp(c, "sg")) { int s = atoi(tok()); double v = strtod(tok(), NULL); cdc_set_sg(inst[s], v); fprintf(out, "sg\n"); }
    else if (!strcmp(c, "csnrn")) {
      int s = atoi(tok()), v = atoi(tok());
#ifdef DEC_NEEDS_CSNRN
      cdc_set_csnrn(inst[s], v);
#endif
      fprintf(out, "csnrn\n");
    }
    else if (!strcmp(c, "enc")) {
      int s = atoi(tok()), kept; char *b = tok();
      int *x = malloc(sizeof(int) * kk[s]), *x0 = malloc(sizeof(int) * kk[s]);
      double *y = malloc(sizeof(double) * nn[s]);
      for (int i = 0; i < kk[s]; i++) x[i] = x0[i] = b[i] - '0';
      for (int i = 0; i < nn[s]; i++) y[i] = 0.25;
      int rc = enc_bpsk(inst[s], x, y);
      kept = !memcmp(x, x0, sizeof(int) * kk[s]);
      fprintf(out, "enc %d ", rc);
      for (int i = 0; i < nn[s]; i++) fputc(y[i] == 1.0 ? '1' : y[i] == -1.0 ? '0' : '?', out);
      fprintf(out, " %d\n", kept);
      free(x); free(x0); free(y);
    }
    else if (!strcmp(c, "dec")) {
      int s = atoi(tok()), kept;
      double *y = malloc(sizeof(double) * nn[s]), *y0 = malloc(sizeof(double) * nn[s]);
      int *x = malloc(sizeof(int) * kk[s]);
      for (int i = 0; i < nn[s]; i++) { char *t = tok(); y[i] = y0[i] = t ? strtod(t, NULL) : 0.0; }
      for (int i = 0; i < kk[s]; i++) x[i] = 7;
      int rc = dec_bpsk(inst[s], y, x);
      kept = !memcmp(y, y0, sizeof(double) * nn[s]);
      fprintf(out, "dec %d ", rc);
      for (int i = 0; i < kk[s]; i++) fputc(x[i] == 0 || x[i] == 1 ? '0' + x[i] : '?', out);
      fprintf(out, " %d\n", kept);
      free(x); free(y); free(y0);
    }
    else if (!strcmp(c, "rep")) {
      long N = atol(tok()); int s = atoi(tok()), K = atoi(tok()), n = nn[s], k = kk[s];
      double *y = malloc(sizeof(double) * n * K), *y0 = malloc(sizeof(double) * n * K);
      int *x = malloc(sizeof(int) * k), (*seen)[8] = calloc(K, sizeof *seen), *cnt = calloc(K, sizeof(int)), *old = malloc(sizeof(int) * k * 8 * K);
      for (int i = 0; i < n * K; i++) { char *t = tok(); y[i] = y0[i] = t ? strtod(t, NULL) : 0.0; }
      fprintf(out, "rep");
      for (long t = 0; t < N; t++) {
        int w = t % K, j;
        for (int i = 0; i < k; i++) x[i] = 7;
        int rc = dec_bpsk(inst[s], y + w * n, x), kept = !memcmp(y + w * n, y0 + w * n, sizeof(double) * n), code = 2 * rc + kept;
        for (j = 0; j < cnt[w]; j++) if (seen[w][j] == code && !memcmp(old + (w * 8 + j) * k, x, sizeof(int) * k)) break;
        if (j < cnt[w] || cnt[w] == 8) continue;
        seen[w][cnt[w]] = code; memcpy(old + (w * 8 + cnt[w]++) * k, x, sizeof(int) * k);
        fprintf(out, " %d:%d:", w, rc);
        for (int i = 0; i < k; i++) fputc(x[i] == 0 || x[i] == 1 ? '0' + x[i] : '?', out);
        fprintf(out, ":%d", kept);
      }
      fputc('\n', out);
      free(y); free(y0); free(x); free(seen); free(cnt); free(old);
    }
    else if (!strcmp(c, "mem")) fprintf(out, "mem %zu\n", HEAPUSE());
    else if (!strcmp(c, "close")) { int s = atoi(tok()); cdc_close(inst[s]); open_[s] = 0; fprintf(out, "close\n"); }
#ifdef HAVE_RM1
    else if (!strcmp(c, "rm1")) {
      char *fn = tok(); int m = atoi(tok()), ls = atoi(tok()), n = 1 << m, rc = -50, nx = !strcmp(fn, "lst") ? ls : 1;
      double *y = malloc(sizeof(double) * n);
      int *x = malloc(sizeof(int) * (m + 1) * nx);
      for (int i = 0; i < n; i++) { char *t = tok(); y[i] = t ? strtod(t, NULL) : 0.0; }
      for (int i = 0; i < (m + 1) * nx; i++) x[i] = 7;
      if (!strcmp(fn, "sh")) rc = !rm1_dec_sh ? -51 : rm1_dec_sh(m, y, x);
      if (!strcmp(fn, "lst")) rc = !rm1_dec_lst ? -51 : rm1_dec_lst(m, y, ls, x);
      if (!strcmp(fn, "finp")) rc = !rm1_dec_sh_finp ? -51 : rm1_dec_sh_finp(m, y, x);
      if (!strcmp(fn, "dotp")) rc = !rm1_dec_sh_dotp ? -51 : rm1_dec_sh_dotp(m, y, x);
      fprintf(out, "rm1 %d ", rc);
      for (int i = 0; i < (m + 1) * nx; i++) fputc(x[i] == 0 || x[i] == 1 ? '0' + x[i] : '?', out);
      fputc('\n', out);
      free(x); free(y);
    }
#endif
    else fprintf(out, "bad\n");
    fflush(out);
  }
  return 0;
}
