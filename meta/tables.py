"""rewrites the tables of planted changes and repaired defects at the end of DESIGN.md."""
import json, pathlib, collections
root = pathlib.Path(__file__).resolve().parent.parent
MARK = '<!-- tables -->\n'
text = (root / 'DESIGN.md').read_text().split(MARK)[0]
out = []
known = [json.loads(l) for l in (root / 'known_findings.jsonl').read_text().splitlines() if l.strip()]
out.append('## Defects found\n\nAll but one were repaired (`fix:` commits in /repo); each is reported again by the named check when its repair is undone.\n\n'
           '| check | commit | what failed |\n| --- | --- | --- |\n')
for k in known:
    if k['status'] == 'fixed':
        out.append('| %s | %s | %s |\n' % (k['property'], k['commit'], k['what'].split(k['commit'], 1)[1].strip()))
out.append('\nRecorded, not repaired:\n\n')
for k in known:
    if k['status'] != 'fixed':
        out.append('* %s `%s`: %s\n' % (k['property'], k['key'], k['what'].replace('\n', ' ')))
plants = collections.defaultdict(list)
for d in sorted((root / 'seeded').iterdir()):
    if (d / 'meta.json').exists():
        m = json.loads((d / 'meta.json').read_text())
        plants[m['property']].append((d.name, m['what_it_breaks']))
out.append('\n## Planted changes and the checks that catch them\n\n%d changes; each is caught by the quick check of the property it is listed under '
           '(each was run against that check with `meta/plant.py`).\n\n| check | change | what it breaks |\n| --- | --- | --- |\n'
           % sum(map(len, plants.values())))
for p in sorted(plants):
    for name, what in plants[p]:
        out.append('| %s | %s | %s |\n' % (p, name, ' '.join(what.split()).replace('|', '/')))
(root / 'DESIGN.md').write_text(text.rstrip('\n') + '\n\n' + MARK + ''.join(out))
