import json, sys
# record.py PROPERTY ID COMMIT TEXT: add a repaired defect to the known findings
p = '/verif/known_findings.json'
s = open(p).read().rstrip()
i = s.rindex(']')
prop, ident, commit, text = sys.argv[1:]
new = '  {"property": "%s",\n   "id": "%s",\n   "status": "fixed",\n   "what": %s\n  }\n ' % (prop, ident, json.dumps("fixed: property=%s %s %s" % (prop, commit, text)))
s = s[:i].rstrip() + ",\n" + new + s[i:] + "\n"
json.loads(s)
open(p, 'w').write(s)
