'''Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.'''
import os, json, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for n in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(here + '/seeded/%s/meta.json' % n))
    by.setdefault(m['property'], []).append(n)
path = here + '/DESIGN.md'
text = open(path).read()
head = '| property | planted bugs |\n|---|---|\n'
at = text.index(head)
end = at + len(head)
while text[end:end + 1] == '|':
    end = text.find('\n', end) + 1 or len(text)
rows = ''.join('| %s | %s |\n' % (p, ', '.join('`%s`' % n for n in by[p])) for p in sorted(by))
open(path, 'w').write(text[:at] + head + rows + text[end:])
