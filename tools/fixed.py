import sys, json
p='/verif/known_findings.json'; d=json.load(open(p))
pid, commit, what = sys.argv[1:4]
d["findings"].append({"property": pid, "status": "fixed", "what": "fixed: property=%s %s %s" % (pid, commit, what)})
json.dump(d, open(p,"w"), indent=1); open(p,"a").write("\n")
