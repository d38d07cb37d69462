"""Writes the table of planted bugs at the end of DESIGN.md.

tools/caught.json says which check reported each of them."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + '/tools/caught.json'))
rows = ['| bug | breaks | reported by |', '| --- | --- | --- |']
for i in sorted(os.listdir(root + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (root, i)))
    text = ' '.join(meta['what_it_breaks'].split()).replace('|', '\\|')
    rows.append('| %s | %s | %s %s |' % (i, text, meta['property'], caught.get(i, '(nothing)')))
path = root + '/DESIGN.md'
text = open(path).read()
mark = '<!-- table -->'
head = text.split(mark)[0]
open(path, 'w').write(head + mark + '\n\n' + '\n'.join(rows) + '\n')
