"""Print the table of planted bugs for DESIGN.md: python tools/mktable.py"""
import json, os
root = "/verif/seeded"
print("| planted bug | breaks | needs | caught by |\n|---|---|---|---|")
also = {"p03-barycentric-derivative": "P03, P22", "p12-entity-split": "P12, P08"}
for i in sorted(os.listdir(root)):
    m = json.load(open("%s/%s/meta.json" % (root, i)))
    print("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), also.get(i, m["property"])))
