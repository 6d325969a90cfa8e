------------------------------ MODULE TraceSave ------------------------------
(***************************************************************************)
(* Recorded saves of real simulator processes whose file operations were   *)
(* scheduled, made to fail or cut off by a crash (harness/sched.c),        *)
(* accepted if they are behaviours of Save.                                *)
(* Record: id, old: [has, closed, lists (key -> sequence of numbers or     *)
(* strings), rows], flag0 (somebody else's busy flag is there), events:    *)
(*   begin p delta        process p, which has counted delta since its     *)
(*                        last begin, starts to save                       *)
(*   ret p rc             ... returns                                      *)
(*   fault p op           one of its operations fails                      *)
(*   die p                                                                 *)
(*   user                 the busy flag is removed by hand                 *)
(*   snap has ok rows     the results file now (ok: it can be read)        *)
(*   same eq              is the file byte for byte the initial one        *)
(*   flag v               is there a busy flag                             *)
(* rows: sequences <<snr, counters...>> in file order.                     *)
(***************************************************************************)
EXTENDS Save, Json, IOUtils, TLC, Integers
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, pos, excuse, left, held
tvars == <<avars, rec, pos, excuse, left, held>>
R == Trace[rec]
E == R.events[pos]
Map(rows) == [s \in {rows[i][1] : i \in 1..Len(rows)} |-> LET r == rows[CHOOSE i \in 1..Len(rows) : rows[i][1] = s] IN [c \in 1..C |-> r[c + 1]]]
RowsOk(rows) == /\ \A i \in 1..Len(rows) : Len(rows[i]) = C + 1
                /\ \A i \in 1..(Len(rows) - 1) : rows[i][1] < rows[i+1][1]
\* An old file that must not be touched.
Valid(o) == o.closed /\ \A k \in DOMAIN o.lens : o.lens[k] = o.lens["SNR"] /\ o.lens[k] <= 50
Good == ~R.old.has \/ Valid(R.old)
Others(p) == \E q \in Procs \ {p} : ph[q] # "idle"
TInit == /\ rec \in 1..Len(Trace) /\ pos = 1
         /\ AInit(IF Trace[rec].old.has /\ Valid(Trace[rec].old) THEN [has |-> TRUE, m |-> Map(Trace[rec].old.rows)] ELSE None)
         /\ excuse = {}                     \* processes which may fail to save
         /\ left = {}                       \* processes whose flag may have stayed
         /\ held = Trace[rec].flag0         \* a flag which is not a saver's is there
TBegin == /\ E.e = "begin" /\ ph[E.p] = "idle"
          /\ ph' = [ph EXCEPT ![E.p] = "begun"] /\ acc' = [acc EXCEPT ![E.p] = Add(@, Map(E.delta))] /\ UNCHANGED <<file, sav>>
          /\ excuse' = (excuse \ {E.p}) \cup (IF Others(E.p) THEN {E.p} \cup {q \in Procs : ph[q] = "begun"} ELSE {})
               \cup (IF held \/ left # {} \/ ~Good \/ Cardinality(DOMAIN file.m \cup DOMAIN acc'[E.p]) > 50 THEN {E.p} ELSE {})
          /\ UNCHANGED <<left, held>>
TRet == /\ E.e = "ret" /\ UNCHANGED <<left, held, excuse>>
        /\ IF E.rc = 0 THEN RetOk(E.p) ELSE RetFail(E.p) /\ E.p \in excuse
TFault == E.e = "fault" /\ excuse' = excuse \cup {E.p} /\ left' = (IF E.op \in {"unlink", "unlinkat"} THEN left \cup {E.p} ELSE left) /\ UNCHANGED <<avars, held>>
TDie == E.e = "die" /\ Die(E.p) /\ left' = left \cup {E.p} /\ UNCHANGED <<excuse, held>>
TUser == E.e = "user" /\ left' = {} /\ held' = FALSE /\ UNCHANGED <<avars, excuse>>
TSnap == /\ E.e = "snap" /\ UNCHANGED <<avars, excuse, left, held>>
         /\ Good => E.has = file.has /\ (E.has => E.ok /\ RowsOk(E.rows) /\ Map(E.rows) = file.m)
TSame == E.e = "same" /\ (Good \/ E.eq) /\ UNCHANGED <<avars, excuse, left, held>>
TFlag == E.e = "flag" /\ E.v \in (IF held THEN {TRUE} ELSE IF left # {} \/ \E p \in Procs : ph[p] \in {"begun", "done"} THEN BOOLEAN ELSE {FALSE}) /\ UNCHANGED <<avars, excuse, left, held>>
TEvent == /\ pos <= Len(R.events) /\ pos' = pos + 1 /\ UNCHANGED rec
          /\ TBegin \/ TRet \/ TFault \/ TDie \/ TUser \/ TSnap \/ TSame \/ TFlag
          /\ pos = Len(R.events) => PrintT(<<"ACC", R.id>>)
\* Nothing commits over a file that cannot be understood.
TCommit == Good /\ (\E p \in Procs : ~held /\ Commit(p)) /\ UNCHANGED <<rec, pos, excuse, left, held>>
TNext == TEvent \/ TCommit
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
