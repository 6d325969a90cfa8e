/* Drives the simulator through interfaces/simul.h with a scripted codec.
 * argv: command file, answer file.  Commands:
 *   out tok...           outcomes of the next decoder calls, used in order, the
 *                        last one for ever.  tok = kind[mask][+dt]:
 *                          c      the transmitted message
 *                          w<hex> the transmitted message xor this mask
 *                          e<hex> the same, reported as an erasure
 *                          m      the most likely message given the vector
 *                          h      the same after hard decisions
 *                          x      decoding error
 *                        +dt: the clock advances by dt seconds
 *   init spf retint nr   -> init rc
 *   run                  -> the calls the codec gets, then: run rc
 *   state / res          -> state text / res text (lines joined by |)
 *   save                 -> save rc
 *   ctl code / close
 *   clock t
 *   count / hist        count the noise instead of showing it / show the counts
 * Codec (mock_codec.c; real codecs can be linked instead): dimension mock_k and length mock_n from the parameters (defaults 3, 8);
 * code symbol j (from 0) is the parity of the message bits selected by
 * (j mod (2^k - 1)) + 1 (long messages: see there).  mock_zero 1: the zero word is sent.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <time.h>
#include "common/std_defs.h"
#include "interfaces/simul.h"
FILE *out;
int quiet;
char **script; int nscript, pos;
long clk = 1000000;
void put_hist(FILE *) __attribute__((weak));
time_t __wrap_time(time_t *t) { if (t) *t = clk; return clk; }
static void put(const char *tag, char *s) {
  for (char *q = s; *q; q++) if (*q == '\n') *q = '|';
  fprintf(out, "%s %s\n", tag, s);
}
int main(int argc, char **argv) {
  FILE *in = fopen(argv[1], "r");
  static char line[1 << 20], buf[1 << 16];
  void *inst = NULL;
  int rc;
  out = fopen(argv[2], "w");
  if (!in || !out) return 2;
  while (fgets(line, sizeof line, in)) {
    char *c = strtok(line, " \n");
    if (!c) continue;
    if (!strcmp(c, "out")) {
      char *t;
      nscript = pos = 0;
      while ((t = strtok(NULL, " \n"))) { script = realloc(script, sizeof *script * (nscript + 1)); script[nscript++] = strdup(t); }
    }
    else if (!strcmp(c, "quiet")) quiet = 1;
    else if (!strcmp(c, "count")) quiet = 2;
    else if (!strcmp(c, "hist") && put_hist) put_hist(out);
    else if (!strcmp(c, "clock")) clk = atol(strtok(NULL, " \n"));
    else if (!strcmp(c, "init")) {
      sim_init_params sp;
      memset(&sp, 0, sizeof sp);
      sp.spf_name = strdup(strtok(NULL, " \n"));
      sp.ret_int = atoi(strtok(NULL, " \n"));
      sp.dont_randomize = atoi(strtok(NULL, " \n"));
      rc = sim_init(&sp, &inst);
      fprintf(out, "init %d\n", rc);
      if (rc) { fprintf(out, "end\n"); fflush(out); return 0; }
    }
    else if (!strcmp(c, "run")) { fprintf(out, "call\n"); rc = sim_run(inst); fprintf(out, "run %d\n", rc); }
    else if (!strcmp(c, "runall")) { do { fprintf(out, "call\n"); rc = sim_run(inst); fprintf(out, "run %d\n", rc); } while (rc > 0); }
    else if (!strcmp(c, "state")) { sim_state_str(inst, buf); put("state", buf); }
    else if (!strcmp(c, "res")) { sim_cur_res_str(inst, buf); put("res", buf); }
    else if (!strcmp(c, "save")) {
      fflush(out);
      prctl(0x7e570001, 0, 0, 0, 0);   /* for sched.c */
      rc = sim_save_res(inst);
      prctl(0x7e570001, 1, rc, 0, 0);
      fprintf(out, "save %d\n", rc);
    }
    else if (!strcmp(c, "ctl")) { sim_control(inst, atoi(strtok(NULL, " \n"))); fprintf(out, "ctl\n"); }
    else if (!strcmp(c, "cat")) {   /* the results file as it is now */
      FILE *f = fopen(strtok(NULL, " \n"), "r"); size_t l = f ? fread(buf, 1, sizeof buf - 1, f) : 0;
      buf[l] = 0; if (f) fclose(f); put(f ? "cat" : "nofile", buf);
    }
    else if (!strcmp(c, "rm")) { remove(strtok(NULL, " \n")); fprintf(out, "gone\n"); }
    else if (!strcmp(c, "close")) { sim_close(inst); fprintf(out, "close\n"); }
    else fprintf(out, "bad %s\n", c);
    fflush(out);
  }
  fprintf(out, "end\n"); fflush(out);
  return 0;
}
