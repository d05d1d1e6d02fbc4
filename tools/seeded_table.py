"""Prints the table of planted bugs for DESIGN.md."""
import glob, json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
print('| change | property | breaks | needs |\n|---|---|---|---|')
for f in sorted(glob.glob(H + '/*/meta.json')):
  m = json.load(open(f))
  print('|', os.path.basename(os.path.dirname(f)), '|', m['property'], '|',
        m['what_it_breaks'], '|', m['needs'], '|')
