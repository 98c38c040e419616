---------------------------- MODULE RefineTrace ----------------------------
(* Conformance of recorded refinements of a 2D mesh (harness/fam_refine.py). *)
EXTENDS Refine, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Labels(e) ==
    (IF e.k \in {"crash", "lost"} THEN {"crash"} ELSE {})
    \cup (IF e.k = "refpoly" /\ ~PolyOk(e) THEN {"polygon"} ELSE {})
    \cup (IF (e.k = "refsam" /\ ~SamOk(e)) \/ (e.k = "refcour" /\ ~Refinement(e)) THEN {"samples"} ELSE {})
    \cup (IF "join" \in DOMAIN e /\ e.join = 1 /\ ~NoHanging(e.N) THEN {"hanging"} ELSE {})
    \cup (IF e.k = "split" /\ ~SplitOk(e) THEN {"split"} ELSE {})
    \cup (IF e.k = "casulli" /\ ~CasulliOk(e) THEN {"casulli"} ELSE {})
Why(e) == IF "N" \notin DOMAIN e THEN "" ELSE
    (IF e.rc # 0 THEN " rc" ELSE "") \o (IF ~Sane(e.N) THEN " sane" ELSE (IF ~KeepsNodes(e.M, e.N) THEN " nodes" ELSE "") \o (IF ~Tiles(e.M, e.N) THEN " tiles" ELSE "") \o (IF ~Conforming(e.N) THEN " conf" ELSE "") \o (IF "join" \in DOMAIN e /\ e.join = 1 /\ ~NoHanging(e.N) THEN " hang" ELSE ""))

Init == l = 1
Step ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           v == Labels(e)
       IN \A x \in v : PrintT("VIOL " \o x \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k \o Why(e))
    /\ l' = l + 1
    /\ (l = Len(Log) => PrintT("CHECKED " \o ToString(l)))
Spec == Init /\ [][Step]_l
=============================================================================
