---------------------------- MODULE RepairTrace ----------------------------
(* Conformance of recorded repairs and improvements of a 2D mesh (harness/fam_repair.py). *)
EXTENDS Repair, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Ok(e) == CASE e.k = "regions" -> RegionsOk(e) [] e.k = "merge" -> MergeOk(e) [] e.k = "flip" -> FlipOk(e) [] e.k = "ortho" -> OrthoOk(e)
           [] e.k = "small" -> SmallOk(e) [] e.k = "connect" -> ConnectOk(e) [] e.k = "snap" -> SnapOk(e) [] e.k = "deref" -> DerefOk(e)
Labels(e) ==
    (IF e.k \in {"crash", "lost"} THEN {"crash"} ELSE {})
    \cup (IF e.k \in {"regions", "merge", "flip", "ortho", "small", "connect", "snap", "deref"} /\ ~Ok(e) THEN {"repair"} ELSE {})
Why(e) == IF "rc" \in DOMAIN e THEN " rc " \o ToString(e.rc) ELSE ""

Init == l = 1
Step ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           v == Labels(e)
       IN \A x \in v : PrintT("VIOL " \o x \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k \o Why(e))
    /\ l' = l + 1
    /\ (l = Len(Log) => PrintT("CHECKED " \o ToString(l)))
Spec == Init /\ [][Step]_l
=============================================================================
