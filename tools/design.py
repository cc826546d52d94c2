"""Regenerates DESIGN.md: tools/design_head.md plus tables from the evidence, the findings and the planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = [open(V + '/tools/design_head.md').read().rstrip(), '']
o += ['| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    o.append('| `%s` | %s | %s | %s | %s |' % (n, d['property'], d['what_it_breaks'], d['needs'], d.get('caught', d['property'])))
o += ['', '## 5. Genuine defects found and repaired (`known-findings.jsonl`)', '']
for l in open(V + '/known-findings.jsonl'):
    d = json.loads(l); o.append('* ' + d['what'])
o += ['', '## 6. Functions under contract and trusted base (from the last evidence)', '']
for f in sorted(glob.glob(V + '/evidence/P*.json')):
    d = json.load(open(f)); c = d['coverage']
    o += ['### %s: %d obligations (%s); %d replay cases' % (d['property'], c['obligations'], ', '.join('%s %d' % k for k in sorted(c['discharged_by'].items())), c['replay_cases_on_real_code']), '',
          'Under contract: ' + '; '.join('`%s`' % x.replace('trv::', '') for x in c['functions_under_contract']) + '.', '']
    if c.get('bounded_standins'):
        o += ['Bounded stand-ins: ' + '; '.join(map(str, c['bounded_standins'])) + '.', '']
    o += ['Assumed: ' + '; '.join(c['trusted_base']) + '.', '']
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
