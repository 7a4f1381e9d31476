"""Properties and manifest entries; `python3 tools/props.py` regenerates
properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TX = "include/vara/Feature/FeatureModelTransaction.h"
FMH = "include/vara/Feature/FeatureModel.h"
FMC = "lib/Feature/FeatureModel.cpp"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, claim=True,
         technique=None, note=None, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, observe=observe, claim=claim,
                  technique=technique, note=note, reason=reason))

prop("C01", "Committed edits yield exactly the specified consistent model",
     "Whatever sequence of edits (adding, removing and moving features and groups, replacing the root, changing locations, constraints or metadata) is committed to a feature model, the model afterwards is exactly the one obtained by applying the documented effect of each edit in order; removing a feature also removes the constraints that mention it. "
     "It always stays consistent: one root, every feature listed, reachable and traversed exactly once, and parent and child links agree. "
     "An invalid edit (unknown feature or parent, duplicate name, second root, removing the root or, non-recursively, a feature with children, an edge that would close a cycle, a constraint over unknown features) is reported as an error and changes nothing.",
     ["histories"], "all edit histories up to a depth, from the empty model",
     "Unit tests run a handful of fixed edits on small models; the guarantee is about every order in which edits, groups and removals can meet.",
     [TX, FMH, FMC, "include/vara/Feature/FeatureTreeNode.h"],
     [("modification classes", TX), ("consistency rules", FMH)],
     ["model contents through the public accessors", "result of commit()"],
     technique="explicit-state BFS over edit histories on a reference model, every transition replayed on the real code",
     note="Exhaustive for the stated feature names, operations and depth; trusts the reference semantics in src/ref.h and src/tx.h.")
prop("C02", "Modify transactions act only at commit and stop at the first bad edit",
     "Recording edits in a modify transaction never changes the model; commit applies them in order, stops at the first invalid edit, reports it, and leaves the model exactly as after the edits before it, still consistent. "
     "An aborted transaction never has an effect, a finished one cannot be committed again, and a transaction that goes out of scope uncommitted commits its edits.",
     ["histories"], "all edit sequences up to a length within one or two open transactions, every ending (commit, abort, destruction)",
     "Tests commit short valid transactions; failing edits at every position and their combinations are not reached.",
     [TX], [("deferred modifications, commitImpl, abortImpl", TX)],
     ["model before, between and after requests and commit", "result of commit()"],
     technique="exhaustive enumeration of transaction scripts against a prefix-semantics reference model",
     note="Exhaustive for the alphabet and length given in the evidence; objects passed to edits are alive when used.")
prop("C03", "Copy transactions never touch the source and deliver the edited copy",
     "A copy transaction never changes the model it was opened on, whatever is requested, committed or aborted. "
     "Committing delivers a new, consistent, independent model that equals the source with every valid requested edit applied in order, invalid edits being reported and without effect; after abort or a first commit nothing is delivered.",
     ["histories"], "all edit sequences up to a length in a copy transaction, every ending",
     "Tests use a few operations on one tiny model and do not compare the source before and after.",
     [TX, FMC], [("FeatureModelCopyTransactionBase", TX), ("FeatureModel::clone", FMC)],
     ["source model", "results of the requests", "committed model"],
     technique="exhaustive enumeration of copy-transaction scripts against the reference model",
     note="Exhaustive for the alphabet and length given in the evidence.")
prop("C04", "A cloned feature model equals its original and is independent of it",
     "Cloning any consistent feature model yields a consistent model with the same name, path, commit, features with all their attributes, tree, groups and constraints. "
     "Original and clone share nothing: editing or destroying one never affects the other.",
     ["histories", "inputs"], "all models reachable by edit histories up to a depth, all follow-up edits on either side",
     "Tests clone one or two models and look at names; attributes, groups next to plain children and constraints are not compared.",
     [FMC, "include/vara/Feature/Constraint.h", "include/vara/Feature/FeatureModelBuilder.h"],
     [("FeatureModel::clone", FMC)], ["both models through the public accessors"],
     technique="explicit-state enumeration of reachable models, clone compared with the reference, follow-up edits on either side",
     note="Exhaustive for the stated names, attributes and depth.")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                     "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                     "technique": p["technique"], "level": "model_checking",
                     "level_note": p["note"]} for p in P if p["claim"]],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]}
                            for p in P if not p["claim"]],
         "notes": "No hooks in /repo: all checks drive the public API of the code compiled from /repo's working tree (C++ with AddressSanitizer and assertions)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
