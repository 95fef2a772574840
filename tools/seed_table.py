"""rewrites the table of planted changes at the end of DESIGN.md"""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
HEAD = '### Which check catches which change\n'
s = open('DESIGN.md').read().split(HEAD)[0].rstrip() + '\n\n' + HEAD + '\n'
s += 'Each is caught by the check of its own property (`tools/trybugs.sh`).\n\n| change | check | what it needs to manifest | what it breaks |\n|---|---|---|---|\n'
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    s += '| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), m['what_it_breaks'].replace('|', '/').replace('\n', ' '))
open('DESIGN.md', 'w').write(s)
