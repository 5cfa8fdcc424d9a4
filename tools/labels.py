"""Print facet counts and labels of evidence files."""
import json, sys, pathlib
for c in sys.argv[1:]:
    d = json.loads((pathlib.Path(__file__).parent.parent/"evidence"/f"{c}.json").read_text())
    for f, v in d["coverage"]["facets"].items():
        print(c, f, v["evaluations"], "nontrivial", v["distinct_nontrivial"], "max", v["max_shard_s"], v["labels"])
