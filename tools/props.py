"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
TECH = 'bounded symbolic execution of the library\'s LLVM IR (own executor, encoding regenerated from /repo on every run) with SMT queries to Z3; counterexamples replayed on the native build'
def prop(id, title, statement, over, text, why, files, mech, level_note, state=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=['public API of the library'], hook_needed=None)), note=level_note, na=na))

exec(open(os.path.join(ROOT, 'tools', 'proplist.py')).read())

def main():
    ids = [p['d']['id'] for p in P]; assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p['d']) + '\n')
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py',
        checks=[dict(property=p['d']['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['d']['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % p['d']['id'], technique=TECH, level='other', level_note=p['note']) for p in P if not p['na']],
        not_applicable=[dict(property=p['d']['id'], reason=p['na']) for p in P if p['na']],
        notes='No hooks: harnesses in /verif/harness are linked with the sources of /repo at IR level. See DESIGN.md.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
