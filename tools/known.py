"""Regenerates known_findings.json: `python3 tools/known.py`."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C01", "66da451", "adding a second RootFeature was accepted and left a model with two roots"),
 ("C01", "5532c70", "removeRelationship took relationships of other features or crashed if there was none"),
 ("C01", "5d95dc4", "addRelationship dereferenced unknown parents and stacked groups"),
 ("C01", "522d14b", "addChild accepted edges that close a cycle"),
 ("C01", "51d61d9", "the root of a model could be removed"),
 ("C01", "83e9aa3", "relationships of a removed leaf feature stayed behind"),
 ("C01", "f0ed46d", "add/removeLocation on unknown features or locations crashed"),
 ("C02", "69a2854", "a rejected addConstraint left its constraint attached to features"),
 ("C01", "608c3e9", "constraints on removed features stayed in the model and dangled"),
 ("C03", "72fc669", "copy transactions dereferenced features missing in the copy"),
 ("C03", "6434681", "addChild was a no-op in copy transactions"),
 ("C04", "40a5c28", "cloning dropped output strings and step functions"),
 ("C04", "8d5bba5", "cloning dropped the locations of the root"),
 ("C04", "aa6405a", "cloning a model with renamed root and another feature called root failed"),
 ("C04", "8b9f83a", "cloning moved features that are not members of a relationship into its clone"),
]
KNOWN = []
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known2.py")).read())
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"known": KNOWN,
               "fixed": ["fixed: property=%s %s %s" % x for x in FIXED]}, f, indent=1)
    f.write("\n")
