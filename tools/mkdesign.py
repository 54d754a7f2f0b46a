"""Rewrite the generated sections of DESIGN.md (run with /opt/venv/bin/python from /verif)."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, '/repo']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
from pyvc import api                                                            # noqa
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    importlib.import_module('contracts.' + p['id'].lower())
out = []
for p in props:
    out.append('### %s %s\n' % (p['id'], p['title']))
    seen = set()
    out.append('| contract | kind | what it says | functions under contract |')
    out.append('|---|---|---|---|')
    for c in api.REGISTRY[p['id']]:
        if c.name in seen:
            continue
        seen.add(c.name)
        kind = 'B (%d)' % c.trials if not c.symbolic else 'Pt' if c.heavy else 'Pb: %s' % c.bound if c.bound else 'P'
        doc = ' '.join((c.fn.__doc__ or '').split())
        tg = ', '.join('`%s`' % t.replace('properties.', '', 1) for t in c.targets)
        out.append('| `%s` | %s | %s | %s |' % (c.name, kind, doc.replace('|', '/'), tg))
    out.append('')
table = '\n'.join(out)
rows = ['| planted bug | what it breaks | caught by |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), ' '.join(m['what_it_breaks'].split()),
                                      m.get('caught_by', m['property'])))
path = os.path.join(V, 'DESIGN.md')
s = open(path).read()
for tag, text in (('contracts', table), ('seeds', '\n'.join(rows))):
    a, b = '<!-- begin %s -->' % tag, '<!-- end %s -->' % tag
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + text + '\n' + s[j:]
open(path, 'w').write(s)
