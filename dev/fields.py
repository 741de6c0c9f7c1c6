"""writes spec/fields.json: the data members (name, type) the specifications may name"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from engine import model
P = model.load()
out = {}
for k, r in sorted(P.records.items()):
    if k.startswith('libcmaes::') and r['fields']:
        out.setdefault(model.bare_name(k), [(f['sn'], f['t']) for f in r['fields']])
json.dump(out, open(os.path.join(model.VERIF, 'spec', 'fields.json'), 'w'), indent=0, sort_keys=True)
