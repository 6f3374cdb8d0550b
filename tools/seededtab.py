"""Print the table of planted bugs for DESIGN.md."""
import json, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| planted bug | property | needs | caught by |')
print('|---|---|---|---|')
for d in sorted(glob.glob(root + '/*')):
    m = json.load(open(d + '/meta.json'))
    c = m.get('caught_by', m['property'])
    print('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('\n', ' '), c))
