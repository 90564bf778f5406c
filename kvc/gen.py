import json, sys
sys.path.insert(0, '/verif')
from kvc import texts, props
HOOKS = {'guard': 'KANON_VERIF', 'enable': 'no hooks are needed: the checks compile the unmodified sources (access control is switched off by a compiler flag)', 'source_commits': []}
def main():
    with open('/verif/properties.jsonl', 'w') as f:
        for i in sorted(texts.T):
            t = texts.T[i]
            assert len(t['title']) <= 80, (i, len(t['title']))
            a = {'files': t['files'], 'mechanism': [{'name': n, 'where': w} for n, w in t['mech']]}
            if t['state']: a['state'] = [{'name': n, 'meaning': w} for n, w in t['state']]
            if t['observe']: a['observe_at'] = t['observe']
            a['hook_needed'] = None
            f.write(json.dumps({'id': i, 'title': t['title'], 'statement': t['statement'], 'quantifier': {'over': t['over'], 'text': t['qtext']},
                                'why_tests_cant': t['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt -m kvc.setup', 'hooks': HOOKS, 'checks': [], 'not_applicable': []}
    for i in sorted(texts.T):
        if i in texts.NA:
            m['not_applicable'].append({'property': i, 'reason': texts.NA[i]})
            continue
        if i not in props.PROPS: raise SystemExit('no check for ' + i)
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt -m kvc.check %s --tier quick' % i, 'thorough_cmd': 'python3-vt -m kvc.check %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i,
                            'technique': 'contract-based deductive verification: verification conditions generated from the LLVM IR of the real code, discharged by z3/cvc5',
                            'level': props.PROPS[i].get('level', 'proof'), 'level_note': texts.T[i]['note']})
    m['notes'] = 'See DESIGN.md. Known findings and repaired defects: known_findings.txt.'
    json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
    open('/verif/MANIFEST.json', 'a').write('\n')
main()
