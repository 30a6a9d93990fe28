"""Regenerates the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the list of misses."""
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(H + '/tools/missed.txt').read().split()) if os.path.exists(H + '/tools/missed.txt') else set()
rows = ['| change | property | what it breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f)); b = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], 'missed' if b in missed else m['property']))
p = H + '/DESIGN.md'; s = open(p).read()
mark = 'Detected by the quick check of their own property:\n'
i = s.index(mark) + len(mark)
j = s.find('\n## ', i)
tail = s[j:] if j > 0 else ''
open(p, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + tail)
