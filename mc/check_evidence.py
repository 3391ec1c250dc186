import json, glob
need = dict(exploration=['evaluations', 'distinct_nontrivial', 'rule', 'samples'], model_checking=['states', 'transitions', 'traces_validated_against_impl', 'samples'])
for f in sorted(glob.glob('/verif/evidence/*.json')):
    e = json.load(open(f)); c = e['coverage']
    miss = [k for k in need[e['level']] if not c.get(k)]
    print(e['property'], e['tier'], e['wall_s'], 'exhaustive' if c['exhaustive'] else 'capped', 'MISSING %s' % miss if miss else 'ok', {k: c[k] for k in c if isinstance(c[k], int) and not isinstance(c[k], bool)}, c.get('notes', ''))
