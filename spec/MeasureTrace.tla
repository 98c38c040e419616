---------------------------- MODULE MeasureTrace ----------------------------
(* Conformance of recorded measures of a mesh (harness/fam_measure.py). *)
EXTENDS Measure, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

MetricsOk(e) == LET fo == FacesOf(e) IN
    /\ e.ok /\ e.same = 1 /\ e.dims = <<Len(e.e), Len(e.e)>>
    /\ Smooth(e, fo, e.m) /\ Orthogonal(e, fo, e.o, e.kind # "free") /\ Lengths(e, e.l)
FilterOk(e) == LET P == Pick(e, InRange(e, e.inr), 1) IN e.ok /\ e.P = P /\ e.size = Size(P)
ObtuseOk(e) == e.ok /\ e.C = ObtuseCentres(e, 1)
FlowOk(e) == e.ok /\ Flow(e, e.t, e.C)
CrossOk(e) == General(e, e.R) => Crossings(e, e.R, e.X, e.F, e.per)

Refused(e) == e.k = "cross" /\ e.rc # 0 /\ e.f = <<>> /\ e.X = <<>>     \* a mesh without faces cannot be intersected
Ok(e) == Refused(e) \/
    (/\ e.rc = 0 /\ e.rc0 = 0 /\ Sane(e)
     /\ CASE e.k = "metrics" -> MetricsOk(e) [] e.k = "filter" -> FilterOk(e) [] e.k = "obtuse" -> ObtuseOk(e) [] e.k = "flow" -> FlowOk(e) [] e.k = "cross" -> CrossOk(e))
Labels(e) ==
    (IF e.k \in {"crash", "lost"} THEN {"crash"} ELSE {})
    \cup (IF e.k \in {"metrics", "filter", "obtuse", "flow"} /\ ~Ok(e) THEN {"measure"} ELSE {})
    \cup (IF e.k = "cross" /\ ~Ok(e) THEN {"crossing"} ELSE {})
Why(e) == IF "rc" \in DOMAIN e THEN " rc " \o ToString(e.rc) ELSE ""

Init == l = 1
Step ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           v == Labels(e)
       IN \A x \in v : PrintT("VIOL " \o x \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k \o Why(e))
    /\ l' = l + 1
    /\ (l = Len(Log) => PrintT("CHECKED " \o ToString(l)))
Spec == Init /\ [][Step]_l
=============================================================================
