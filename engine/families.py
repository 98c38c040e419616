"""Which family, trace specification and labels decide which property; what the quick check runs."""
MESH = dict(family="mesh", module="MeshTrace", mc=("MeshMC.tla", "MeshMC.cfg", "MeshMCDeep.cfg"), gen=("MeshMC.tla", "MeshGen.cfg", 30))
FAMILIES = {
    "C09": dict(MESH, labels=["connectivity"], runs=[("connectivity", 640)]),
    "C10": dict(MESH, labels=["edit"], runs=[("edit", 900)]),
    "C11": dict(MESH, labels=["select"], runs=[("select", 640)]),
    "C12": dict(MESH, labels=["lookup"], runs=[("lookup", 800)]),
    "C13": dict(MESH, labels=["boundary"], runs=[("boundary", 640)]),
}
GRID = dict(family="grid", module="GridTrace", mc=("GridMC.tla", "GridMC.cfg", "GridMCDeep.cfg"), gen=("GridMC.tla", "GridGen.cfg", 16), ngen=150)
FAMILIES.update({
    "C14": dict(GRID, labels=["edit"], runs=[("", 1600), ("mirror", 800)]),
    "C15": dict(GRID, labels=["answer"], runs=[("answer", 1600)], genfocus="answer"),
    "C16": dict(GRID, labels=["local"], runs=[("local", 3200)], gen=None),
})
PLANE = dict(mc=("PlaneMC.tla", "PlaneMC.cfg", "PlaneMCDeep.cfg"))
FAMILIES.update({
    "C17": dict(mc=("RefineMC.tla", "RefineMC.cfg", "RefineMCDeep.cfg"), family="refine", module="RefineTrace", labels=["polygon", "samples", "hanging", "split", "casulli"], runs=[("polygon", 400), ("samples", 400), ("split", 240), ("casulli", 240)]),
    "C18": dict(PLANE, family="contact", module="ContactTrace", labels=["contact"], runs=[("", 5000)]),
    "C19": dict(PLANE, family="make", module="MakeTrace", labels=["rectangular", "transfinite", "triangles", "network"], runs=[("", 8000)]),
    "C20": dict(PLANE, family="poly", module="PolyTrace", labels=["polygon"], runs=[("", 5000)]),
    "C21": dict(PLANE, family="value", module="ValueTrace", labels=["value"], runs=[("", 4000)]),
})
FAMILIES.update({
    "C22": dict(PLANE, family="measure", module="MeasureTrace", labels=["measure", "crossing"], runs=[("", 12000)]),
})
FAMILIES.update({
    "C23": dict(PLANE, family="repair", module="RepairTrace", labels=["repair"], runs=[("", 16000)]),
})
FAMILIES.update({
    "C24": dict(PLANE, family="curve", module="CurveTrace", labels=["measure", "circle", "spline", "triangle", "globe"], runs=[("", 16000)]),
})
