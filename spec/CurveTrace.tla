----------------------------- MODULE CurveTrace -----------------------------
(* Conformance of recorded splines, spline and circle grids, grid measures and globes (harness/fam_curve.py). *)
EXTENDS Curve, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Labels(e) ==
    (IF e.k \in {"crash", "lost"} THEN {"crash"} ELSE {})
    \cup (IF e.k = "measure" /\ (e.rc # 0 \/ ~MeasureOk(e)) THEN {"measure"} ELSE {})
    \cup (IF e.k = "circle" /\ (e.rc # 0 \/ ~CircleOk(e)) THEN {"circle"} ELSE {})
    \cup (IF e.k = "graded" /\ (e.rc # 0 \/ ~GradedOk(e)) THEN {"circle"} ELSE {})
    \cup (IF e.k = "cross" /\ (e.rc # 0 \/ ~CrossOk(e)) THEN {"spline"} ELSE {})
    \cup (IF e.k = "ortho" /\ (e.rc # 0 \/ ~OrthoOk(e)) THEN {"spline"} ELSE {})
    \cup (IF e.k = "shore" /\ (e.rc # 0 \/ ~ShoreOk(e)) THEN {"spline"} ELSE {})
    \cup (IF e.k = "points" /\ (e.rc # 0 \/ ~PointsOk(e)) THEN {"spline"} ELSE {})
    \cup (IF e.k = "triangle" /\ (e.rc # 0 \/ ~TriangleOk(e)) THEN {"triangle"} ELSE {})
    \cup (IF e.k = "globe" /\ (e.rc # 0 \/ ~GlobeOk(e)) THEN {"globe"} ELSE {})
    \cup (IF e.k = "project" /\ (e.rc # 0 \/ ~ProjectOk(e)) THEN {"globe"} ELSE {})
Why(e) == IF "rc" \in DOMAIN e THEN " rc " \o ToString(e.rc) ELSE ""

Init == l = 1
Step ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           v == Labels(e)
       IN \A x \in v : PrintT("VIOL " \o x \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k \o Why(e))
    /\ l' = l + 1
    /\ (l = Len(Log) => PrintT("CHECKED " \o ToString(l)))
Spec == Init /\ [][Step]_l
=============================================================================
