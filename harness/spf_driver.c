/* Reads parameter files with spf_read_preparse.  argv: list file, answer file.
 * List file: one "dir name" per line; the driver changes to dir and reads name.
 * Answer: "<n> rc" and, when rc is 0, the tokens in hex, - for an empty token. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "common/std_defs.h"
#include "common/spf_par.h"
int main(int argc, char **argv) {
  FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "w");
  static char dir[4096], name[4096];
  int id = 0;
  if (!in || !out) return 2;
  while (fscanf(in, "%4095s %4095s", dir, name) == 2) {
    char *s = NULL;
    int rc;
    fprintf(out, "%d ", id++); fflush(out);
    if (chdir(dir)) return 2;
    rc = spf_read_preparse(name, &s);
    fprintf(out, "%d", rc ? 1 : 0);
    if (rc == 0) {
      for (char *t = s; *t; ) {
        size_t l = strcspn(t, tk_seps_prepared);
        fputc(' ', out);
        if (!l) fputc('-', out);
        for (size_t i = 0; i < l; i++) fprintf(out, "%02x", (unsigned char)t[i]);
        t += l;
        if (*t) t++;
      }
      free(s);
    }
    fprintf(out, "\n"); fflush(out);
  }
  fprintf(out, "end\n");
  return fclose(out) ? 2 : 0;
}
