#!/usr/bin/env python3
from seedlib import *
rng = random.Random(7)
def g(x): return "%.17g" % x
def noisy(n, sg, c=None): return [(1.0 if c and c[i] else -1.0) + rng.gauss(0, sg) for i in range(n)]
def decs(n, num, sg, slot=0, c=None): return ["dec %d %s" % (slot, " ".join(g(v) for v in noisy(n, sg, c))) for _ in range(num)]

# ---------------------------------------------------------------- encoders, CRC
seed("C01-zeroleaf", "C01", [("common/srm_utils.c", """   if (r == m) {
      if (node_table[enc_utils_ntp++] == 0) {
         for (i = 0; i < n; i++) y[i] = 0;""", """   if (r == m) {
      if (node_table[enc_utils_ntp++] == 0) {
         for (i = 1; i < n; i++) y[i] = 0;""")],
  "an RM subcode with a zeroed full-space border node and a heap block that is not fresh zero memory",
  "the encoder leaves the first symbol of a zeroed full-space node uninitialised, so the codeword is not the one of the message",
  codec("Encoding with zeroed full-space nodes.", "dtrm_glp", ["case", "init 0 RM_m 4 RM_r 2 border_node_mask 110110 border_node_lsize 4"] + ["enc 0 " + "".join(rng.choice("01") for _ in range(6)) for _ in range(8)] + ["end"], env="MALLOC_PERTURB_=85"))
seed("C01-dim", "C01", [("common/srm_utils.c", "   if (m == r) {\n      if (node_table[enc_utils_ntp++] == 0) return 0;\n      else return 1 << m;\n   }\n   return calc_srm_k_p(m - 1, r - 1, node_table) + calc_srm_k_p(m - 1, r, node_table);",
   "   if (m == r) {\n      if (node_table[enc_utils_ntp++] == 0) return 0;\n      else return 1 << m;\n   }\n   int ku = calc_srm_k_p(m - 1, r, node_table);\n   return calc_srm_k_p(m - 1, r - 1, node_table) + ku;")],
  "an asymmetric border node mask", "the dimension of a subcode is counted visiting the u half before the v half, so masks are matched to the wrong nodes",
  codec("Dimension of subcodes.", "dtrm_glp", ["case"] + ["init 0 RM_m 4 RM_r 2 border_node_mask %s border_node_lsize 4" % m for m in ("111111", "011111", "111110", "000111", "110100")] + ["end"]))
# ---------------------------------------------------------------- decoders
seed("D02-allones", "D02", [("rm1_ml/rm1_ml.c", "      if (s1 > s2) { s2 = s1; j = i << 1; }\n      ADD_OPS(2, 1);\n      s1 = slist[i] + EST_TO_LNP1(yp1[i]);", "      if (s1 > s2) { s2 = s1; j = i << 1; }\n      ADD_OPS(2, 1);\n      if (i == 0) continue;\n      s1 = slist[i] + EST_TO_LNP1(yp1[i]);"),
   ("rm1_ml/rm1_ml.c", "   // if (j != 0) printf(\"%d, %d, %g\\n\", j, c_m, slist[0]);\n   // \"Unpack\" j to get information bits.\n   for (i = c_m; i >= 0; i--) {\n      x_dec[i] = j & 1;\n      j >>= 1;\n   }\n\n   // Free memory.\n   free(mem_buf);\n\n   return 0;\n}\n\n// Max dot product.", "   // \"Unpack\" j to get information bits.\n   for (i = c_m; i >= 0; i--) {\n      x_dec[i] = j & 1;\n      j >>= 1;\n   }\n\n   // Free memory.\n   free(mem_buf);\n\n   return 0;\n}\n\n// Max dot product.")],
  "a first-order node whose most likely word is the all-one word (never the case in simulations of the zero codeword without errors)",
  "one codeword of RM(1,m), the all-one word, is never decided for",
  codec("All-one words.", "dtrm1", ["case", "init 0 RM_m 4 RM_r 1", "sg 0 0.5"] + decs(16, 6, 0.2, c=[1] * 16) + decs(16, 6, 0.3) + ["end"]))
seed("D04-erasure", "D04", [("polar_scl/ca_polar_scl_main.c", "    free(tmp);\n    return -1; // no candidates with valid CRC found", "    free(tmp);\n    return (lsiz > 1) ? -1 : 0; // no candidates with valid CRC found")],
  "list size 1 and a decoding whose only candidate fails the CRC", "with list size 1 a candidate that fails the CRC is returned as a success instead of an erasure",
  codec("CRC failures at list size 1.", "ca_polar_scl", ["case", "init 0 c_m 4 info_bits_mask 0001011101111111 ca_polar_crc 011 list_size 1", "sg 0 0.9"] + decs(16, 60, 0.9) + ["end"]))
seed("D05-pair", "D05", [("dtrm_glp/dtrm_glp_inner.c", "    if (s1 + s2 > s3) {", "    if ((n > 4) || (s1 + s2 > s3)) {")],
  "a full-space node of length 8 or more that is not the last one, whose fourth most likely word flips the third least reliable symbol alone, and that word being the right one",
  "in long full-space nodes the fourth candidate is always the one with the two least reliable symbols flipped",
  codec("List decoding with one long full-space node.", "dtrm_glp", ["case", "init 0 RM_m 7 RM_r 6 border_node_mask 0001000 border_node_lsize 6", "csnrn 0 0"] + open(V + "/tools/D05-pair.txt").read().split("\n") + ["end"]))
seed("D11-same", "D11", [("dtrm_glp/dtrm_glp_main.c", "         dd->dc.peak_lsiz = dd->lsiz[i];\n", "         if ((i > 0) && (dd->lsiz[i] == dd->lsiz[i - 1])) continue; // already tried\n         dd->dc.peak_lsiz = (int)dd->lsiz[i];\n")],
  "the same list size twice with different thresholds, followed by another size, and a distance between the two thresholds",
  "a list size listed again with a higher threshold is skipped, so a later size is tried although a decision was close enough",
  codec("Variable list with a repeated size.", "dtrm_glp", ["case", "init 0 RM_m 4 RM_r 2 border_node_mask 111111 border_node_lsize 8 use_variable_list on distance_threshold { 1 14 1 22 8 30 }", "csnrn 0 0", "sg 0 0.9"] + decs(16, 300, 0.9, c=[0] * 16) + ["end"]))
seed("D07-frozen", "D07", [("polar_scl/polar_scl_inner.c", "    slist[cur_ind0] += EST_TO_LNP0(yp[0]);", "    slist[cur_ind0] += CHECK_EST0(yp[0]) ? 0.0 : EST_TO_LNP0(yp[0]) - EST_TO_LNP1(yp[0]);")],
  "a frozen position after free ones and paths whose min-sum and exact metrics rank differently", "the exact path metric of frozen positions is replaced by the min-sum one while free positions keep the exact one, so a full list is not maximum likelihood",
  codec("Full lists.", "ca_polar_scl", ["case", "init 0 c_m 3 info_bits_mask 01110100 list_size 16", "sg 0 0.9"] + decs(8, 300, 0.9) + ["end"]))
seed("D09-clip", "D09", [("formats/format_eps5.h", "   if ((e) < -CLIP_T) (e) = -CLIP_T; \\\n", "   else if ((e) <= -(1.0 - 1e-4)) (e) = -(1.0 - 1e-4); \\\n")],
  "strong reliabilities (received values well above the noise level) voting for 1, so that decoding of some word and of its flipped version differ",
  "reliabilities voting for 1 are clipped much earlier than those voting for 0",
  codec("A vector and its flips.", "dtrm0", ["case", "init 0 RM_m 4 RM_r 1", "sg 0 0.4"] + [("dec 0 " + " ".join(g(v * (1 if i % 2 else -1)) for v in y)) for y in [noisy(16, 0.75) for _ in range(150)] for i in (0, 1)] + ["end"]))
seed("D10-sigma", "D10", [("dtrm/dtrm1.c", "   dd->sg22 = 2.0 / (noise_sg * noise_sg);", "   static double last_sg = 0.0, last_sg22 = 0.0;\n\n   if (noise_sg != last_sg) {\n      last_sg = noise_sg;\n      last_sg22 = 2.0 / (noise_sg * noise_sg);\n      dd->sg22 = last_sg22;\n   }")],
  "two instances in one process that are given the same sigma one after the other", "an instance given the sigma another instance was given last ignores it and decodes with none",
  codec("Two instances.", "dtrm1", ["case", "init 0 RM_m 4 RM_r 2", "init 1 RM_m 3 RM_r 1", "sg 0 0.5", "sg 1 0.5"] + decs(16, 3, 0.3) + decs(8, 3, 0.3, 1, c=[1, 0] * 4) + ["end"]))
# ---------------------------------------------------------------- simulator
SPF = "res_file r.spf\nmock_k 3\nmock_n 8\n"
def cmds(*c): return list(c)
seed("S01-init", "S01", [("simulators/sim_bg.c", "    if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {", "    if (sim->pt[csnrn].trn >= sim->trn_req[csnrn]) {")],
  "fewer than 21 block errors at the end of a point", "the trial requirement is extended at its end instead of from its half on: the numbers of trials run differ",
  sim("Trials per point.", {"p.spf": SPF + "EbNo_values { 1 2 }\nmin_trials_per_snr 10\nmin_errors_per_snr 3\n"},
      cmds("quiet", "out c c c c c c c w1 c c c c w1 c c c c c c c c c c c c c c c c w1", "init p.spf -1 1", "runall", "state", "save", "cat r.spf", "close"), pick="grep -e state -e cat ans > got"))
seed("S02-erasure", "S02", [("simulators/sim_bg.c", "      if (rc == RC_DEC_ERASURE) {", "      if (en && (rc == RC_DEC_ERASURE)) {")],
  "an erasure (CRC failure) whose message bits are all right", "erasures with a correct message are not counted as erasures",
  sim("Erasures without bit errors.", {"p.spf": SPF + "EbNo_values { 1 }\nmin_trials_per_snr 8\nml_lb on\n"},
      cmds("quiet", "out e1 e0 c e0 w1 c e3 c", "init p.spf 5 1", "runall", "save", "cat r.spf", "close"), pick="grep cat ans > got"))
seed("S02-hard", "S02", [("simulators/sim_bg.c", "        if (sim->do_ml_hd)\n          for (i = 0; i < c_n; i++) c_out[i] = (c_out[i] > 0.0) ? 1.0 : -1.0;\n        // d1 <-- dist(c_in, c_out).\n        for (i = 0; i < c_n; i++) d1 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);",
   "        // d1 <-- dist(c_in, c_out).\n        for (i = 0; i < c_n; i++) d1 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);\n        if (sim->do_ml_hd)\n          for (i = 0; i < c_n; i++) c_out[i] = (c_out[i] > 0.0) ? 1.0 : -1.0;")],
  "ml_lb_hard on", "the transmitted word's distance is taken before hard decisions and the decision's after them",
  sim("ML errors with hard decisions.", {"p.spf": SPF + "EbNo_values { 1 }\nmin_trials_per_snr 200\nml_lb_hard on\nmin_errors_per_snr 30\n"},
      cmds("quiet", "out " + "w1 w2 w3 c " * 60, "init p.spf 5 1", "runall", "save", "cat r.spf", "close"), pick="grep cat ans > got"))
seed("S03-order", "S03", [("simulators/sim_bg.c", "      update_trn_req(sim, csnrn);\n\n      // Check elapsed time.", "      // Check elapsed time."),
   ("simulators/sim_bg.c", "        return RC_SIMUL_NOT_COMPLETED;\n      }\n    }\n", "        return RC_SIMUL_NOT_COMPLETED;\n      }\n\n      update_trn_req(sim, csnrn);\n    }\n")],
  "a return right after the trial that reaches the point's requirement with too few errors seen", "a return between trials skips the update of the trial requirement, so slicing a run changes where its points end",
  sim("Returns after every trial and none.", {"p.spf": SPF + "EbNo_values { 1 2 }\nmin_trials_per_snr 10\nmin_errors_per_snr 3\n"},
      cmds("quiet", "out c c c c c c c w1 c c c c w1 c c c c c c c c c c c c c c c c w1", "init p.spf -1 1", "runall", "save", "cat r.spf", "close"), pick="grep cat ans > got"))
seed("S04-trunc", "S04", [("simulators/sim_bg.c", "    } while (r >= 1.0);", "    } while ((r >= 1.0) || (r < 1e-4));")],
  "large noise samples (about one in 10000)", "the tails of the noise are cut off, which makes low error rates too small",
  script("""#!/bin/bash
# The tail of the noise: with the built-in generator from seed 1, samples with r < 1e-4 occur among the first 100000.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
objs=$(find "$PWD/_build/CMakeFiles/dtrm_glp_bg.dir" -name '*.o' | grep -v -e main_txt -e bg.dir/dtrm_glp/)
gcc -O1 -w -I. -DDEC_NEEDS_SIGMA -DDEC_NEEDS_CSNRN -Wl,--wrap=time -o "$t/drv" "$d/sim_driver.c" "$d/mock_codec.c" $objs -lm || exit 0
cd "$t"
printf 'res_file r.spf\\nmock_k 3\\nmock_n 8\\nfixed_R 0.5\\nEbNo_values { 0 }\\nmin_trials_per_snr 20000\\n' > p.spf
printf 'out w1\\ninit p.spf 100 1\\nrunall\\nclose\\n' > c
timeout 200 ./drv c ans > /dev/null 2>&1
python3 - <<'X'
m = 0; n = 0
for l in open("ans"):
    if l.startswith("dec "):
        for w in l.split()[3:]:
            v = abs(float.fromhex(w) + 1) ; n += 1; m = max(m, min(v, abs(float.fromhex(w) - 1)))
big = m
import math
print("largest noise sample of %d: %.3f" % (n, big))
# polar method: the pair radius is sqrt(-2 ln r); 160000 samples of a Gaussian exceed 4.3 with near certainty
raise SystemExit(0 if n > 100000 and big > 4.31 else 1)
X
""", {"sim_driver.c": open(V + "/harness/sim_driver.c").read(), "mock_codec.c": open(V + "/harness/mock_codec.c").read()}))
# ---------------------------------------------------------------- results
seed("R01-noerr", "R01", [("simulators/sim_bg.c", "  dst->trn_ml = src1->trn_ml - src2->trn_ml;", "  dst->trn_ml = src1->trn - src2->trn;")],
  "ml_lb with erasures", "the increments of ML trials saved are those of all trials, so erased trials are added as ML trials",
  sim("Saved ML trials.", {"p.spf": SPF + "EbNo_values { 1 }\nmin_trials_per_snr 8\nml_lb on\n"},
      cmds("quiet", "out e1 e0 c e0 w1 c e3 c", "init p.spf -1 1", "run", "run", "save", "runall", "save", "cat r.spf", "close"), pick="grep cat ans > got"))
seed("R05-mlrate", "R05", [("simulators/sim_bg.c", "        sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn_ml : 0", "        sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn : 0")],
  "ml_lb on, erasures and ML errors at the same point", "the ML error rate shown divides by all trials instead of the ML trials",
  sim("Result report.", {"p.spf": SPF + "EbNo_values { -20 }\nmin_trials_per_snr 40\nmin_errors_per_snr 30\nml_lb on\n"},
      cmds("quiet", "out " + "e1 m m w1 " * 10, "init p.spf 5 1", "runall", "res", "save", "cat r.spf", "close"), pick="grep -e res -e cat ans > got"))
# ---------------------------------------------------------------- parameter files
seed("P01-crlf", "P01", [("common/spf_par.c", 'char token_seps[] = " ,\\t\\n\\r";', 'char token_seps[] = " ,\\t\\n";')],
  "a parameter file with CR LF line ends", "with CR LF line ends values and braces carry a carriage return",
  script("""#!/bin/bash
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT; b=$PWD/_build; cd "$t"
printf 'RM_m 3\\nRM_r 1\\nres_file r.spf\\nml_lb on\\nEbNo_values { 1 2 }\\n' > a.spf
sed 's/$/\\r/' a.spf | sed 's/r.spf/q.spf/' > b.spf
$b/dtrm0_bg a.spf -nr > o1; r1=$?; $b/dtrm0_bg b.spf -nr > o2; r2=$?
[ $r1 = 0 ] && [ $r2 = 0 ] && cmp r.spf q.spf
"""))
seed("P02-prefix", "P02", [("common/spf_par.h", "#define TRYGET_ONOFF_TOKEN(tk, tk_samp, x) { \\\n   if (strcmp((tk), (tk_samp)) == 0) { \\", "#define TRYGET_ONOFF_TOKEN(tk, tk_samp, x) { \\\n   if (strncmp((tk), (tk_samp), strlen(tk_samp)) == 0) { \\")],
  "a key that starts with the name of an on/off parameter, like ml_lb_hard or an unknown ml_lb_note", "on/off parameters are matched by prefix: ml_lb_hard is taken for ml_lb, and unknown keys switch options",
  sim("ml_lb_hard.", {"p.spf": SPF + "EbNo_values { 1 }\nmin_trials_per_snr 200\nml_lb_hard on\nmin_errors_per_snr 30\n"},
      cmds("quiet", "out " + "w1 w2 w3 c " * 60, "init p.spf 5 1", "runall", "save", "cat r.spf", "close"), pick="grep cat ans > got"))
if __name__ == "__main__": main()
