/* calc GEN X -> "0 remainder"; valid GEN X (message and check bits) -> "result -".
 * Buffers have exactly the sizes the interface asks for. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "common/crc.h"
static int *ints(const char *s, int n) { int *p = malloc(sizeof(int) * n); for (int i = 0; i < n; i++) p[i] = s[i] - '0'; return p; }
int main(int argc, char **argv) {
  FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "w");
  static char op[16], g[1000], x[10000];
  while (fscanf(in, "%15s %999s %9999s", op, g, x) == 3) {
    int gl = strlen(g), xl = strlen(x), *gi = ints(g, gl), *xi = ints(x, xl);
    if (!strcmp(op, "calc")) {
      int *buf = malloc(sizeof(int) * xl);
      int *r = calc_crc(xi, xl, gi, gl, buf);
      fprintf(out, "0 ");
      for (int i = 0; i < gl; i++) fputc('0' + (r[i] & 7), out);
      for (int i = 0; i < xl; i++) if (xi[i] != x[i] - '0') fputc('M', out);
      fputc('\n', out);
      free(buf);
    } else {
      int *buf = malloc(sizeof(int) * (xl - gl));
      fprintf(out, "%d -\n", is_valid_crc(xi, xl - gl, gi, gl, buf));
      free(buf);
    }
    fflush(out);
    free(gi); free(xi);
  }
  return 0;
}
