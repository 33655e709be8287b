"""writes MANIFEST.json: a check per vp/checks/cNN.py listed below, everything else not applicable with a reason"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
AI = 'static analysis: abstract interpretation (gated value-flow summaries) of the LLVM IR, obligations decided by algebraic normalisation over finite fields'
TECH = {'C05': 'static analysis: who-may-call / effect rules over the resolved call graph of the LLVM IR, with throw-only paths removed',
        'C06': 'static analysis: effect (write-set) analysis over the resolved call graph plus points-to from abstract interpretation of the LLVM IR',
        'C07': 'static analysis: points-to and per-object effect analysis by abstract interpretation of the LLVM IR',
        'C24': 'static analysis: abstract interpretation of the LLVM IR with bounds, initialisation, lifetime and overflow checks at every access',
        'C26': 'static analysis: differential abstract interpretation of two compilations (with and without exceptions), plus a compiler acceptance check without exception support',
        'C29': 'static analysis: type-level encodings and compile-fail witnesses checked by the compiler front end',
        'C31': 'static analysis: differential abstract interpretation of several compilations (assertions, language standard, optimisation)',
        }
NOTE = {'C29': 'decided by the compiler for every listed class, topology and sample type; template orders are enumerated'}
NA = json.load(open(os.path.join(V, 'tools', 'na.json'))) if os.path.exists(os.path.join(V, 'tools', 'na.json')) else {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    f = os.path.join(V, 'vp', 'checks', pid.lower() + '.py')
    if os.path.exists(f) and pid not in NA:
        mod = importlib.import_module('vp.checks.' + pid.lower())
        c = 'python3-vt check.py ' + pid
        checks.append(dict(property=pid, quick_cmd=c, thorough_cmd="VERIF_TIER=thorough " + c, technique=TECH.get(pid, AI), level='other',
                           level_note=NOTE.get(pid, getattr(mod, 'NOTE', 'sound for the analysed instances over all inputs, in exact real arithmetic; template parameters are enumerated'))))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "from vp.model import ensure_tool; ensure_tool()"', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
