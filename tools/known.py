"""Writes sa/known.txt: the functions of the tree the rules were written against. Run by hand, on the unchanged tree."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "known.txt")
if os.path.exists(out):
    os.remove(out)
from sa.program import Program  # noqa: E402

with open(out, "w") as fh:
    fh.write("\n".join(sorted(dict.keys(Program().funcs))) + "\n")
# sa/counts.json (obligations per property on the unchanged tree) is written by hand from the evidence files:
#   python3 tools/known.py counts
if sys.argv[1:] == ["counts"]:
    import json

    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ev = os.environ.get("VERIF_EVIDENCE", os.path.join(root, "evidence"))
    d = {f[:3]: json.load(open(os.path.join(ev, f)))["coverage"]["obligations"] for f in sorted(os.listdir(ev)) if f.endswith(".json")}
    json.dump(d, open(os.path.join(root, "sa", "counts.json"), "w"), indent=0)
