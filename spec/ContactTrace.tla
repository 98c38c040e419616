---------------------------- MODULE ContactTrace ----------------------------
(* Conformance of recorded contact computations (harness/fam_contact.py). *)
EXTENDS Contact, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Labels(e) ==
    (IF e.k \in {"crash", "lost"} THEN {"crash"} ELSE {})
    \cup (IF e.k = "contact" /\ (e.rc # 0 \/ ~Allowed(e.how, e.M, e.D, e.mask, e.P, e.fac, e.r2, e.pts, e.C)) THEN {"contact"} ELSE {})
Why(e) == IF e.k # "contact" THEN "" ELSE " " \o e.how \o " rc " \o ToString(e.rc)

Init == l = 1
Step ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           v == Labels(e)
       IN \A x \in v : PrintT("VIOL " \o x \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k \o Why(e))
    /\ l' = l + 1
    /\ (l = Len(Log) => PrintT("CHECKED " \o ToString(l)))
Spec == Init /\ [][Step]_l
=============================================================================
