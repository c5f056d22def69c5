#!/opt/veriftools/pyvenv/bin/python3
"""Writes properties.jsonl and MANIFEST.json from the property descriptions below (one place for the texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA, HOW = [], {}, {}


def prop(id, title, statement, over, qtext, why, files, mech, state=(), level='proof', tech='contract-based deductive verification of the real code (VCs from LLVM IR, z3/cvc5); bounded native replay', note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                   **({'state': [dict(name=a, meaning=b, where=w) for a, b, w in state]} if state else {}))))
    PROPS[-1]['_'] = (level, tech, note)
    assert len(title) <= 80, title


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    NA[id] = reason


exec(open(os.path.join(V, 'engine', 'texts.py')).read())

if __name__ == '__main__':
    PROPS.sort(key=lambda p: p['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k != '_'}) + '\n')
    m = {'version': 1, 'setup_cmd': "/opt/veriftools/pyvenv/bin/python3 -c \"import sys; sys.path.insert(0, 'engine'); import ir; ir.tool()\"", 'checks': [], 'not_applicable': []}
    for p in PROPS:
        i = p['id']
        if i in NA:
            m['not_applicable'].append({'property': i, 'reason': NA[i]})
            continue
        level, tech, note = p['_']
        m['checks'].append({'property': i, 'quick_cmd': f'./check {i} --tier quick', 'thorough_cmd': f'./check {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
                            'technique': tech, 'level': level, 'level_note': note})
    m['notes'] = 'Level proof: every obligation counted as discharged was accepted by an SMT solver for all inputs; native runs are labelled bounded in the evidence and never counted as proved.'
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), sch)
    print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
