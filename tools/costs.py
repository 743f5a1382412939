"""Collects wall times from evidence/*.json into docs/costs.json (run by hand after a full run of a tier)."""
import glob
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(H, 'docs/costs.json')
c = json.load(open(path)) if os.path.exists(path) else {}
for f in glob.glob(os.path.join(H, 'evidence/*.json')):
    e = json.load(open(f))
    i = os.path.basename(f)[:-5]
    c.setdefault(i, {})[e['tier']] = round(e['wall_s'])
json.dump(dict(sorted(c.items())), open(path, 'w'), indent=0)
