# writes MANIFEST.json from properties.jsonl and the list of claimed properties
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
T = 'stateless model checking: exhaustive bounded exploration of the real crate (compiled to wasm32) on a virtual JS host'
N = ('Every sequence of operations and host behaviours within the stated bound is run on the real, unmodified crate and compared with a reference model; '
     'nothing is sampled. Trusted: rustc and wasm-bindgen, the virtual host (HTML/node timer semantics), the reference model. Values outside the alphabets and longer histories are not covered.')
CLAIMED = {}
exec(open(here + '/tools/claimed.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': f'./check {i} quick', 'thorough_cmd': f'./check {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': c.get('technique', T), 'level': 'model_checking', 'level_note': c.get('note', N)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': './build.sh prod testutil && ./build_conc.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harness uses the public API only. See DESIGN.md.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
