"""addfix.py PROPERTY KEY COMMIT WHAT : record a repaired defect in known_findings.json (suppresses nothing)"""
import json, sys
p, k, c, w = sys.argv[1:5]
f = '/verif/known_findings.json'
d = json.load(open(f))
d['findings'].append(dict(property=p, key=k, status='fixed', commit=c, what='fixed: property=%s %s %s' % (p, c, w)))
with open(f, 'w') as h:
    h.write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in d['findings']) + '\n]}\n')
