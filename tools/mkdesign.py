"""rewrites the per-property sections of DESIGN.md and the table of seeded changes (run by hand)"""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, '/repo']
s = open(V + '/DESIGN.md').read()
WHY = {'C17': 'the tests load two shipped files; here every layout the old formats knew is generated and loaded in every way.',
       'C18': 'tests compare results only; the monitors look at the state of the inputs, the files and the memory afterwards.',
       'C19': 'tests read back what the same revision wrote, so a matched change of writer and reader passes them.',
       'C20': 'tests are single threaded and each runs in a short history; races need particular interleavings, which injected pauses make likely.'}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    m = importlib.import_module('checks.' + p['id'].lower())
    head = '### %s ' % p['id']
    a = s.index(head)
    b = min(i for i in (s.find('\n### ', a + 5), s.find('\n## ', a + 5)) if i > 0)
    old = s[a:b]
    why = WHY.get(p['id']) or re.search(r'\*Why beyond tests:\* (.*)', old).group(1).strip()
    new = '%s%s\n\n*Workload and oracle.* %s\n\n*Bounds.* quick %d cases, thorough %d.  *Why beyond tests:* %s\n' % (head, p['title'], m.RULE, m.NCASES['quick'], m.NCASES['thorough'], why)
    ass = getattr(m, 'ASSUMPTIONS', None)
    if ass:
        new = new.replace('\n\n*Bounds.*', '\n\n*Assumes.* %s.\n\n*Bounds.*' % '; '.join(ass))
    s = s[:a] + new + s[b:]
a = s.index('## Seeded changes')
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s |' % (d, m['what_it_breaks'], m['needs']))
caught = open(V + '/tools/caught.txt').read().split() if os.path.exists(V + '/tools/caught.txt') else []
rows = [r + ' %s |' % ('yes' if r.split('|')[1].strip() in caught else 'no') for r in rows]
s = s[:a] + '''## Seeded changes and the checks that catch them

Each is caught by the quick check of the property its name begins with, unless the last column says otherwise.

| change | what it breaks | what it needs | caught |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
