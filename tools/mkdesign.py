"""Fill the generated parts of DESIGN.md (between <!-- x --> and <!-- /x --> markers) from known_findings.json and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read()
def put(tag, text):
    global d
    d = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (tag, tag), lambda m: m.group(1) + text + m.group(2), d, flags=re.S)
fs = json.load(open(V + '/known_findings.json'))['findings']
put('findings', '| property | commit | what failed |\n|---|---|---|\n' + ''.join(
    '| %s | %s | %s |\n' % (f['property'], f['commit'], f['what'].replace('|', '\\|')) for f in sorted(fs, key=lambda f: f['property'])))
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        m = re.match(r'(\S+) (C\d\d) rc=(\d+) (\d+)s', l)
        if m:
            res[m.group(1)] = (m.group(3), m.group(4))
    json.dump(res, open(V + '/tools/plant/results.json', 'w'), indent=0, sort_keys=True)
else:
    res = json.load(open(V + '/tools/plant/results.json'))
rows = []
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    r = res.get(s)
    rows.append((m['property'], s, m['what_it_breaks'], m['needs'], '%s quick' % m['property'] if r and r[0] == '1' else ('missed' if r else '?')))
rows.sort()
put('seeds', '| property | change | breaks | needs | caught by |\n|---|---|---|---|---|\n' + ''.join(
    '| %s | %s | %s | %s | %s |\n' % tuple(x.replace('|', '\\|') for x in r) for r in rows))
open(V + '/DESIGN.md', 'w').write(d)
