"""Writes MANIFEST.json from fv/props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from fv.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import fv.check" && clang --version >/dev/null && mkdir -p evidence/replay',
         checks=[], not_applicable=[],
         notes='One verifier (package fv): the functions of /repo are extracted by clang on every run, executed symbolically for all inputs, and the obligations of their contracts are discharged by z3/cvc5. Replay drivers (replay/*.cpp) run the real code and turn failed obligations into failing inputs.')
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3-vt -m fv.check {i}', thorough_cmd=f'python3-vt -m fv.check {i}',
                                technique=p.get('technique', 'contract-based deductive verification of the real C++ functions (symbolic execution of the clang AST, closed-form and inductive loop summaries, z3/cvc5)'),
                                level=p.get('level', 'proof'), level_note=p.get('note', '')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')))
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
