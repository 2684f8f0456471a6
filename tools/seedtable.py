"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for n in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, n)))
    rows.append('| %s | %s | %s |' % (n, m['property'], m['needs']))
t = open(root + '/DESIGN.md').read()
i = t.index('## 4.')
h = '| bug | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
t = t[:i] + re.sub(r'\| bug \|[^\n]*\n\|---[^\n]*\n(\|[^\n]*\n)+', lambda m: h, t[i:], count=1)
open(root + '/DESIGN.md', 'w').write(t)
print(len(rows))
