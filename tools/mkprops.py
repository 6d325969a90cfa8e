#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe, "hook_needed": None}})
ENC = "common/srm_utils.c"
# ---------------------------------------------------------------- code / encoders
p("C01", "Every codec encodes exactly the documented code",
  "For every accepted configuration, the reported length is 2^m, the reported dimension is the number of free information bits, and the encoder maps each message to the codeword of the documented recursive (u, u+v) construction: RM(r,m) for the plain RM codecs, the subcode left by the zeroed border nodes for the list codec, the code left by the frozen positions (with the CRC bits appended to the message) for the polar codec. Message bits are consumed in the order in which the recursive decoder visits the nodes, channel symbols are -1 for code bit 0 and +1 for code bit 1, the map is linear and injective, and every nonzero RM(r,m) codeword has weight at least 2^(m-r).",
  ["inputs", "configurations"], "all (m, r), all border-node / information masks, all messages",
  "The tests encode a handful of fixed messages for one or two codes per codec; the code is a property of all 2^k messages for every (m, r, mask).",
  [ENC, "dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c"],
  [("mrm/smrm/smrm_par0 encoders", ENC), ("calc_rm_k / calc_srm_k", ENC), ("enc_bpsk", "each codec main file")],
  ["enc_bpsk output", "cdc_get_n / cdc_get_k"])
p("C02", "CRC is the polynomial remainder, appended to the message",
  "For every generator given by its coefficients below the leading one and for every message, the appended check bits are the remainder of the message polynomial divided by the generator, and checking accepts a word exactly when its check part equals the remainder of its message part. The polar codec with a CRC reports a dimension reduced by the CRC length and encodes message followed by its check bits.",
  ["inputs", "configurations"], "all generators, message lengths and messages",
  "test_crc checks one polynomial on one message.",
  ["common/crc.c", "common/crc.h", "polar_scl/ca_polar_scl_main.c"],
  [("add_crc/check_crc", "common/crc.c"), ("CRC in encoder", "polar_scl/ca_polar_scl_main.c")],
  ["crc API", "enc_bpsk with ca_polar_crc", "cdc_get_k"])
p("C03", "Noise-free round trip",
  "For every accepted configuration (code, mask, list size, permutation set, CRC), every message and every noise sigma from the tiniest up to 1 given to the decoder (beyond, as far as the reliabilities of the code's weakest node do not vanish in double precision), decoding the unmodified encoder output reports success and returns exactly that message. The result is always a 0/1 vector of the reported dimension.",
  ["inputs", "configurations"], "all codecs, configurations, messages, sigmas from the very small to the very large",
  "Tests round-trip one code per codec at one sigma; node-type/mask/list-size/permutation combinations and extreme sigmas are never reached.",
  ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c", "formats/format_eps5.h"],
  [("enc_bpsk/dec_bpsk pair", "each codec"), ("channel-to-reliability conversion", "formats/format_eps5.h")],
  ["dec_bpsk return code and output"])
# ---------------------------------------------------------------- decoders
p("D01", "dtrm0 makes the optimal decision at every node of its recursion",
  "For every RM code and every received vector, dtrm0's result is the one of recursive successive decoding down to repetition and full-space nodes: at each node reliabilities are the exact posterior of its symbols given the received vector and the earlier decisions, a repetition node takes its more likely bit, and a full-space node the symbol-by-symbol more likely word.",
  ["inputs", "configurations"], "all RM codes, all real-valued received vectors and sigmas (away from ties)",
  "test_dtrm0 decodes noise-free or one hand-made vector; a decision rule is a function of every received vector.",
  ["dtrm/dtrm0.c", "formats/format_eps5.h", ENC],
  [("decoder recursion", "dtrm/dtrm0.c"), ("reliability algebra", "formats/format_eps5.h")], ["dec_bpsk output"])
p("D02", "First-order Reed-Muller nodes are decoded with maximum likelihood",
  "For every received vector of length 2^m, the first-order RM decoders return a message whose codeword has the maximum correlation with it over all of RM(1,m), in soft form, and in list form the requested number of best codewords in order. dtrm1's result is that of recursive successive decoding with such a maximum-likelihood decision on the node reliabilities at every first-order node and symbol-wise decisions at full-space nodes, so for r = 1 it is a maximum-likelihood decoder.",
  ["inputs", "configurations"], "all m, r, all received vectors (away from ties)",
  "No test touches dtrm1 or the RM(1,m) decoders at all.",
  ["rm1_ml/rm1_ml.c", "rm1_ml/rm1_ml.h", "dtrm/dtrm1.c", "formats/format_eps5.h"],
  [("fast ML decoders", "rm1_ml/rm1_ml.c"), ("decoder recursion", "dtrm/dtrm1.c")], ["rm1_dec_* results", "dec_bpsk output"])
p("D03", "Polar list decoding keeps the L best paths and returns the best",
  "Without CRC and permutations, the polar decoder's result is that of successive cancellation list decoding: every information position extends each surviving path by both bit values, exactly the L most likely prefixes given the received vector survive whenever there are more than L, frozen positions are zero, and the most likely survivor is returned. This holds for every mask and every list size, including 1, odd sizes and sizes above 2^k.",
  ["inputs", "configurations"], "all masks, list sizes, received vectors (away from ties)",
  "The tests decode one mask with one list size.",
  ["polar_scl/polar_scl_inner.c", "polar_scl/ca_polar_scl_main.c", "formats/format_eps5.h"],
  [("path splitting, partial sort and pruning", "polar_scl/polar_scl_inner.c")], ["dec_bpsk output"])
p("D04", "CRC-aided selection and erasures",
  "With a CRC configured the polar decoder returns success and the most likely surviving candidate whose check bits are right if there is one; if no candidate passes it reports an erasure and returns the most likely candidate. Without a CRC it never reports an erasure, and only the message bits (never the check bits) are returned.",
  ["inputs", "configurations"], "all masks, generators, list sizes, received vectors (away from ties)",
  "One fixed CRC configuration is tested on noise-free or lightly noisy words; erasure and non-best selection need specific noise.",
  ["polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c", "common/crc.c"],
  [("candidate selection", "polar_scl/ca_polar_scl_main.c")], ["dec_bpsk return code and output"])
p("D05", "RM list decoding keeps the L best candidates at every border node",
  "Without permutations the RM list decoder follows recursive list decoding: nodes visited in order, zeroed border nodes forced to zero, every surviving candidate extended at a repetition node by both bits and at a full-space node by its (at most four) most likely words, the L most likely candidates kept, and the most likely one returned. This holds for every code, mask and list size, including 1 and odd sizes; list size 1 with a full mask decides as dtrm0 does.",
  ["inputs", "configurations"], "all (m, r, mask, L) and received vectors (away from ties)",
  "No test touches dtrm_glp at all.",
  ["dtrm_glp/dtrm_glp_inner.c", "dtrm_glp/dtrm_glp_main.c"],
  [("list recursion, partitioning by metric", "dtrm_glp/dtrm_glp_inner.c")], ["dec_bpsk output"])
p("D06", "Permutation decoding only helps by choosing the best candidate",
  "With a permutation set the RM list decoder (for a pure RM code) decodes the received vector under each listed permutation of the variables, the candidates of all permutations competing for the same list places, maps candidates back so that the returned message always belongs to the original code and re-encodes to the candidate codeword, and returns the most likely candidate. Listing only the identity is the same as listing none, and reordering the set does not change the result. Permutations that do not preserve the code (subcodes, polar codes) are rejected.",
  ["inputs", "configurations"], "all permutation sets, codes, list sizes, received vectors (away from ties)",
  "No test uses permutations.",
  ["dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/polar_scl_inner.c"],
  [("permutation tables and inverse mapping", "codec main files")], ["dec_bpsk output"])
p("D07", "A large enough list gives maximum-likelihood decoding",
  "Whenever the list is at least as large as the number of codewords, the polar list decoder, and the RM list decoder for codes whose free full-space nodes have length at most 2, return a message whose codeword is at minimum Euclidean distance from the received vector among all codewords of the configured (sub)code; with a CRC, among all codewords whose check bits are right. Enlarging the list further does not change the result.",
  ["inputs", "configurations"], "all codes with 2^k <= L, all received vectors (away from ties)",
  "Tests compare with stored outputs at small lists.",
  ["polar_scl/polar_scl_inner.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/ca_polar_scl_main.c", "dtrm_glp/dtrm_glp_main.c"],
  [("list handling", "inner decoders")], ["dec_bpsk output"])
p("D08", "Errors of weight below half the minimum distance are corrected",
  "For every RM(r,m) code of length up to 32, every codeword and every hard-decision error pattern with fewer than 2^(m-r)/2 sign errors of equal magnitude, dtrm0, dtrm1 and the RM list decoder with any list size return the transmitted message at a noise sigma around 1, where reliabilities are neither saturated by the clipping of the reliability format nor vanish.",
  ["inputs", "configurations"], "all RM codes of length <= 32, messages and error patterns of weight < d/2",
  "Tests exercise no systematic error patterns.",
  ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_inner.c", "rm1_ml/rm1_ml.c"],
  [("recursive decoding", "decoders")], ["dec_bpsk output"])
p("D09", "Decoding does not depend on which codeword was sent",
  "For every decoder without CRC, flipping the signs of the received vector according to any codeword of the code changes the decoded message by exactly that codeword's message and leaves the return code the same (away from ties); scaling received vector and sigma consistently (values by a, sigma by the square root of a) leaves the result the same. This is what makes simulating only the zero codeword equivalent to simulating random ones.",
  ["inputs", "configurations"], "all codecs, received vectors, codewords",
  "Tests never relate two decodings.",
  ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/polar_scl_inner.c", "formats/format_eps5.h"],
  [("symmetric decision rules", "decoders")], ["dec_bpsk output"])
p("D10", "Codec calls are pure: no history, no cross-talk, no side effects",
  "The result of each encode or decode call depends only on the configuration, the sigma most recently set and the call's own input: not on earlier calls, on earlier sigmas, on other codec instances alive or closed in the same process, or on the order of calls. Input vectors are left unmodified, and every call stays within the caller's buffers and its own memory, with everything released by close; an initialisation that fails leaves nothing behind.",
  ["histories", "inputs", "configurations"], "all interleavings of init / set sigma / encode / decode / close over several instances",
  "Tests make one or two calls on one instance.",
  ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c"],
  [("per-instance state", "codec main files"), ("work memory reset", "inner decoders")], ["all codec API results"])
p("D11", "Variable list decoding stops at the first decision that is close enough",
  "With use_variable_list the RM list decoder tries the list sizes given with distance_threshold in their order, each for the whole decoding in place of border_node_lsize, and returns the first decision whose codeword has a squared distance from the received vector, divided by sigma^2, below the threshold given with that list size; if none does, the decision of the last one. Earlier tries and earlier calls leave nothing behind.",
  ["inputs", "configurations"], "all lists of list sizes and thresholds, codes, masks, permutations, received vectors (away from ties)",
  "No test uses a variable list.",
  ["dtrm_glp/dtrm_glp_main.c", "dtrm_glp/dtrm_glp_inner.c"],
  [("loop over list sizes", "dtrm_glp/dtrm_glp_main.c"), ("list handling", "dtrm_glp/dtrm_glp_inner.c")], ["dec_bpsk output"])
# ---------------------------------------------------------------- simulator
SIM = "simulators/sim_bg.c"
p("S01", "A simulation point ends exactly when its stopping rule is met",
  "Points are simulated one after another in the configured order, each for at least its required number of trials (from SNR_val_trn, else min_trials_per_snr, default 1) and until at least min_errors_per_snr (default 1) block errors were seen, extending the trial requirement while too few errors were seen: once more than half of the requirement is done, it becomes 1.5 times the trials done while at most 20 errors were seen, and with more errors the number of trials at which the required errors are expected, never below the initial requirement nor above 2e9. A point is left only when both hold, unless the user asked for fewer trials (a third less, not below those done) or the next point; asking for more raises the requirement by half. Once the requirement is met no further trial is run for that point, and completion is reported exactly when the last point is done.",
  ["histories", "configurations"], "all configurations, all sequences of trial outcomes and user controls",
  "No test touches the simulator.",
  [SIM], [("main loop and trial-requirement update", SIM), ("sim_control", SIM)], ["calls made to the codec", "sim_run return code", "status string"],
  [{"name": "trn_req", "meaning": "trials required for a point", "where": SIM}])
p("S02", "Every trial is accounted exactly once and correctly",
  "Each trial adds one to its point's trial count; the number of wrong message bits and one block error if any bit is wrong; one erasure exactly if the decoder reported one; and, with ml_lb on, one ML trial exactly if not erased and one ML error exactly if the re-encoded decision is strictly closer to the received vector than the transmitted word (after hard decisions with ml_lb_hard). A decoding error aborts the run with an error, and the random_codeword option decides whether fresh random messages or the zero codeword are sent.",
  ["histories", "inputs", "configurations"], "all sequences of decoder outcomes, options on and off",
  "No test touches the simulator.",
  [SIM], [("counter update", SIM)], ["results file", "result string", "status string"],
  [{"name": "sim_point", "meaning": "trials, bit/block errors, erasures, ML trials and errors", "where": SIM}])
p("S03", "Results do not depend on how a run is sliced or observed",
  "With -nr the final counters of a simulation are a function of the parameter file alone: they are the same for any return interval, any number of returns, status or result queries and saves in between, and repeating the run reproduces them. Intermediate saves add up to exactly the single final save.",
  ["histories", "schedules"], "all placements of returns, queries and saves between trials",
  "No test touches the simulator.",
  [SIM, "simulators/main_txt.c"], [("resumable main loop", SIM), ("seed handling", SIM)], ["results file after the run"])
p("S04", "The simulated channel is BPSK/AWGN at the configured Eb/N0",
  "At each point the decoder receives transmitted symbol plus noise, where the noise is independent zero-mean Gaussian of variance 1/(2 R 10^(EbN0/10)) with R = k/n (or fixed_R when given), generated from the random source by the polar method, and the same sigma is announced to the decoder before the first trial of the point. Every code symbol gets its own noise sample and message bits are fair.",
  ["inputs", "configurations"], "all Eb/N0 values, rates, random streams",
  "No test touches the simulator; a 1 dB error in the channel invalidates every published curve yet nothing fails.",
  [SIM], [("copy_add_noise, db2val", SIM)], ["vectors passed to dec_bpsk", "sigma passed to the codec"])
# ---------------------------------------------------------------- results file
p("R01", "Results accumulate exactly once per point in the results file",
  "After any history of runs and saves on one results file, the file holds for every SNR value ever simulated, once each and in ascending order, the sum of the counters of all trials simulated at that value (sums up to 2^31 - 1). Saving again without new trials changes nothing, and resuming with another SNR list adds new points without disturbing others.",
  ["histories", "configurations"], "all sequences of runs, saves, SNR lists",
  "No test touches result saving.",
  [SIM, "common/spf_par.h"], [("merge into old results file", SIM), ("pt_saved increments", SIM)], ["results file content"],
  [{"name": "pt_saved", "meaning": "counters already added to the file", "where": SIM}])
p("R02", "Concurrent simulations sharing a results file lose nothing",
  "When several processes save to the same results file at the same time, then once all successful saves have returned the file is complete and every successful save's increments are in it exactly once; a process that cannot get access reports failure and keeps its increments for a later save.",
  ["schedules"], "all interleavings of the file operations of two or more savers",
  "Needs specific interleavings of file operations; no test runs even one save.",
  [SIM], [(".bsy busy-flag file", SIM)], ["results file content, return codes"])
p("R03", "A save that fails leaves the old results intact and can be retried",
  "If saving cannot be completed (unwritable target, busy flag, unreadable or inconsistent old file, write error, full disk), failure is returned, the previously saved results are still there unchanged, the busy flag taken by this save is released, and a later successful save adds everything accumulated so far, exactly once. An old results file whose lists disagree in length, or that cannot be read, is never overwritten.",
  ["fault_sequences"], "all single file-operation failures and inconsistent old files, followed by retries",
  "No test injects file errors.",
  [SIM], [("error paths of sim_save_res", SIM)], ["results file content, return code, busy flag file"])
p("R04", "A crash during a save does not destroy saved results",
  "If the process dies at any point of a save, the results file afterwards holds either the complete old or the complete new results. Results of earlier saves are never lost or counted twice.",
  ["crash_points"], "every file-operation boundary inside a save",
  "No test crashes anything.",
  [SIM], [("write of the results file", SIM)], ["results file content after the crash"])
p("R05", "Reported and saved rates agree with the counters",
  "In the results file and in the status and result reports, code length and dimension, bit/word/erasure/ML-bound error rates are the ones computed from the counters of the same point (bits over trials times k; words and erasures over trials; ML errors over ML trials, 0 when there are none) to the printed precision of at least three significant digits, for all counter values up to 2^31 - 1. All lists in the results file have one entry per SNR value, and the file is a well-formed parameter file that the simulator reads back to the same counters.",
  ["histories", "inputs"], "all reachable counter values incl. large ones",
  "No test reads any report.",
  [SIM], [("report and file formatting", SIM)], ["results file, sim_cur_res_str, sim_state_str"])
p("R06", "The Octave loader returns the rates of the results file",
  "For every results file the simulator writes, loadsrf returns n, k and equally long EbNo, BER, WER, ERR and MLER arrays in file order, with the rates computed from that point's counters and zero ML rate where no ML trials were made. A missing or inconsistent file yields an error, not data.",
  ["inputs", "histories"], "all results files (incl. accumulated, large counters, many points)",
  "The loader is not even built by the tests.",
  ["Octave/loadsrf.c", "common/spf_par.h"], [("mexFunction", "Octave/loadsrf.c")], ["mxArray outputs"])
# ---------------------------------------------------------------- parameter files
SPF = "common/spf_par.c"
p("P01", "Parameter files mean the same however they are laid out",
  "A parameter file is read as the sequence of its whitespace- or comma-separated tokens: comments from % to the end of the line, blank lines, indentation, line endings, the way a group is broken into lines and spaces around braces do not matter, with or without a final newline. Include directives behave as the included file's tokens in place, at any depth; missing or oversized files are reported as errors.",
  ["inputs"], "all texts over the file syntax, all include structures",
  "The tests pass ready-made strings and never read a file.",
  [SPF, "common/spf_par.h"], [("spf_read_preparse", SPF)], ["preparsed string / behaviour of simulator on the file"])
p("P02", "Parameters are independent of order, and unknown ones are ignored",
  "The simulator's and codecs' configuration depends only on the values given for the known keys: reordering parameters, or inserting any unknown key with a single or group value anywhere, changes nothing, missing optional parameters take their documented defaults, and SNR_val_trn and EbNo_values specify the same points. An on/off parameter is enabled by the value on and by nothing else. (The permutations group is documented to need the code size before it.)",
  ["inputs", "configurations"], "all orders, all unknown keys at all positions, all subsets of optional keys",
  "Tests use one fixed parameter string per codec.",
  [SIM, "common/spf_par.h", "common/spf_par.c", "dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c"],
  [("TRYGET_* and SPF_SKIP_UNKNOWN_PARAMETER", "common/spf_par.h")], ["codec n, k, encoding; simulated points and trial counts"])
p("P03", "Missing or invalid parameters are rejected at initialisation",
  "Initialisation fails with an error, without crashing, when a required parameter is missing, a numeric parameter is out of range (m, r, list size not positive, r greater than m, malformed permutation), a mask is too short, selects no information or leaves no room for the CRC, no SNR value or results file is given, or too many values are given. It succeeds for every parameter set inside the documented limits, and a successfully initialised codec never reads or writes out of bounds in use.",
  ["inputs", "configurations"], "all subsets of parameters and boundary values",
  "Tests only use valid configurations.",
  ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c", SIM, SPF],
  [("parameter checks in cdc_init / sim_init", "codec main files, " + SIM)], ["return code of cdc_init / sim_init"])
p("P04", "The command-line simulators run a parameter file end to end",
  "Each simulator executable run on a valid parameter file simulates all points, leaves a complete results file, prints the same results and exits with success; with bad arguments or an unreadable or invalid parameter file it says so, exits with an error status and leaves existing results alone; the status lines it prints on the way are true. -nr makes the run reproducible, without it every run draws other noise; -si and -ri only change when intermediate results are saved and shown; a run that is killed loses at most what was simulated since the last interval; options may come in any order.",
  ["inputs", "configurations"], "all option combinations, codecs, parameter files",
  "No test starts an executable simulator.",
  ["simulators/main_txt.c", SIM, "common/ui_txt.c"], [("main", "simulators/main_txt.c")], ["exit status, stdout, results file"])
p("P05", "The shipped parameter and code files mean what their names say",
  "Every parameter file in work/ and every code file in work/codes is accepted by the programs it is for and configures what its name says: RM(r,m) or polar code of the given size, dimension and CRC length, the stated subcode mask, list size and permutation set (none, the m cyclic shifts, or one permutation per choice of r variables), ascending signal-to-noise ratios and its own results file; stated lengths and dimensions are those of the code. The codes encode as specified and decode without noise, and the simulator runs each file and writes a valid results file.",
  ["configurations"], "all shipped files (m up to 9, lists up to 256, up to 126 permutations)",
  "No test reads a shipped parameter file.",
  [SPF, SIM, "work/codes", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c"], [("cdc_init", "dtrm_glp/dtrm_glp_main.c")], ["codec dimensions, encoded words, results files"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
