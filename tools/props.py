#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the list of properties is kept in one place, here)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
API = "libs/MeshKernelApi/src/MeshKernel.cpp"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mechanism]),
                  technique=technique, note=note))


SESS = "TLA+ session model (spec/Session.tla) model checked with TLC; TLC-generated and random call histories driven through the real C API; every recorded history validated by TLC against the model (trace validation)"
SNOTE = ("The model is checked exhaustively within its bounds (2-3 instances, stacks up to 4, 2-3 abstract contents). The binding to the code is by trace validation: "
         "every call of about 1,350 histories per quick run (about 90,000 calls over about 75 editing calls, 45 refused calls and 22 queries) must be a step of the model. "
         "Sampled histories, exhaustive judgement; content is what the C API returns.")
UFILES = ["libs/MeshKernel/src/UndoActions/UndoActionStack.cpp", "libs/MeshKernel/src/UndoActions/UndoAction.cpp", API]
USTATE = [("committed and restored actions", "the two stacks of reversible actions, over all instances", "libs/MeshKernel/src/UndoActions/UndoActionStack.cpp"),
          ("instances", "map from id to the meshes, grid, contacts of one session", API)]

prop("C01", "Undo restores the state before the call exactly",
     "After any successful editing call on an instance, undo restores everything that instance holds (2D mesh, 1D mesh, network, curvilinear grid, contacts, projection) to exactly what it was before that call, whatever calls, undos and redos came before. Several undos in a row walk back through the history one call at a time to the very first state.",
     ["histories", "inputs"], "all histories of editing calls, undos and redos over all instances, and all meshes they are applied to",
     "Unit tests undo one call on one mesh; the guarantee is about arbitrary sequences, in which an action recorded on one state must still apply after other calls, undos and redos.",
     UFILES + ["libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp", "libs/MeshKernelApi/src/MKStateUndoAction.cpp"],
     [("every editing call records an action whose restore inverts its commit", "libs/MeshKernel/src/UndoActions"), ("the action is pushed on the stack by the API call", API)], SESS, SNOTE, USTATE)
prop("C02", "Redo restores the state after the call exactly",
     "Redo after undo brings every instance back to exactly what it held after the undone call, and undo and redo can alternate any number of times without drifting from the history.",
     ["histories", "inputs"], "all histories of editing calls, undos and redos, and all meshes they are applied to",
     "Unit tests redo at most once per operation on one sample; drift shows only in longer alternations and after other operations.",
     UFILES + ["libs/MeshKernel/src/Mesh.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp"],
     [("commit after restore replays the recorded change", "libs/MeshKernel/src/UndoActions")], SESS, SNOTE, USTATE)
prop("C03", "The undo history is a bounded stack with the documented counts",
     "Each successful editing call adds exactly one undoable step (none when the history size is zero), drops the redoable steps of that instance, and beyond the configured size drops the oldest step; undo and redo move exactly one step between the two sides, report which instance they changed, and report that nothing was done when there is nothing to do. Clearing the history, of one instance or of all, removes exactly those steps, and the reported numbers of undoable and redoable steps always agree with this.",
     ["histories", "configurations"], "all histories of editing calls, undo, redo, clear and size changes over all instances",
     "The tests fix short scripts; the counts must agree after any interleaving of edits, undo, redo, clears, size changes and instance removal.",
     UFILES, [("UndoActionStack Add, Undo, Commit, Remove, SetMaximumSize, Clear", "libs/MeshKernel/src/UndoActions/UndoActionStack.cpp")], SESS, SNOTE, USTATE)
prop("C04", "Instances are independent of each other",
     "A call on one instance never changes what another instance holds, whether it succeeds, fails, or is undone or redone; a call with an id that is not live is refused and changes nothing; ids are never reused; deallocated instances hold nothing, and their deallocation can be undone until they are expunged.",
     ["histories", "inputs"], "all histories over several instances, with any interleaving of calls on them",
     "Nearly all tests use a single instance; interference between instances (shared static state, wrong id on the undo stack, shared pointers in copies) needs interleaved histories.",
     UFILES + ["libs/MeshKernelApi/src/MKStateUndoAction.cpp", "libs/MeshKernelApi/include/MeshKernelApi/State.hpp"],
     [("instances are looked up by id in one map; each owns its meshes", API)], SESS, SNOTE, USTATE)
prop("C05", "A failing call changes nothing",
     "A call that returns an error leaves every instance exactly as it was, adds no undoable step and drops none, and leaves an error message; the earlier history can still be undone and redone as before.",
     ["histories", "inputs", "fault_sequences"], "all refused or failing calls (wrong ids, wrong indices, invalid polygons, impossible requests), at any point of any history",
     "Tests check the returned code of a few failing calls, not that the state and the undo history are untouched, and never in the middle of a history.",
     UFILES + ["libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp", "libs/MeshKernel/src/CasulliRefinement.cpp"],
     [("exceptions are caught in each API call; the action is added to the stack only on success", API)], SESS, SNOTE, USTATE)
prop("C06", "Queries change nothing",
     "A call that only asks for data (get, count, compute, locate, interpolate, intersect) changes neither what any instance holds nor the undo history, and asked again it gives the same answer.",
     ["histories", "inputs"], "all queries at any point of any history",
     "Tests query once, on a fresh mesh; queries administrate, rebuild search trees and cache, which can alter the mesh or later answers.",
     [API, "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/Mesh.cpp"],
     [("queries administrate without recording actions and build search trees lazily", API)], SESS, SNOTE, USTATE)
prop("C07", "Every call returns, with a code and, if not zero, a message",
     "No call of the C API on any history makes the host process crash or hang: it returns zero, or a non-zero code together with a non-empty message that can be asked for afterwards.",
     ["histories", "inputs", "fault_sequences"], "all calls with well-formed arguments (including indices that do not exist and geometry that makes no sense) at any point of any history",
     "Tests run calls in the order their author had in mind; crashes come from calls after undo, on emptied or non-compact meshes, or on unusual geometry.",
     [API, "libs/MeshKernel/src/Mesh2D.cpp", "libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp"],
     [("each API call translates exceptions to exit codes", API)], SESS, SNOTE, USTATE)

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py setup",
             checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                          technique=p["technique"], level="model_checking", level_note=p["note"]) for p in P],
             not_applicable=NOT_APPLICABLE if "NOT_APPLICABLE" in globals() else [])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
