"""Lists the fix commits of /repo as fixed findings (run by hand)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [('valid within their own tolerance', 'C06'), ('uminus', 'C17'), ('does not exceed the requested', 'C21'), ('eval_func', 'C25'), ('lr_divide_vec', 'C24'), ('ell_valign', 'C23'), ('orth_transl is', 'C22'), ('abs_rel_compare', 'C19'), ('Hyperplane.contains', 'C18'), ('dimension with ranks', 'C11'), ('sphere_part', 'C26'), ('try_treat_as_real', 'C21'), ('default ODE', 'C02'), ('get_logger', 'C31'), ('is_face', 'C28'), ('shrink_face_tri', 'C27'),
       ('sup_geom', 'C30'), ('dict_compare', 'C19'), ('from_expression', 'C25'), ('SymmetricMatVector', 'C24'), ('MatVector', 'C24'), ('products of arrays', 'C24'),
       ('minksum_ia', 'C16'), ('orth_transl', 'C22'), ('reg_pos_def_mat', 'C21'), ('sphere_tri_ext', 'C26'), ('boundary factors', 'C09'),
       ('get_boundary', 'C09'), ('is_internal', 'C12'), ('is_bigger', 'C13'), ('ell_sim_diag', 'C23'), ('shape matrices symmetric up to', 'C12'),
       ('support points', 'C08'), ('rho_mat', 'C08'), ('rho ', 'C08'), ('rank of', 'C11'), ('volume', 'C11'), ('projection', 'C10'),
       ('rep_mat', 'C07'), ('get_copy', 'C07'), ('is_equal', 'C06'), ('polar', 'C14'), ('Hyperplane.from_dict', 'C07'),
       ('hyperplanes through the origin', 'C06'), ('copies of a hyperplane', 'C07'), ('is_parallel', 'C18')]
out = []
for line in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'f0a33f3..HEAD'], text=True).splitlines():
    h, s = line.split(' ', 1)
    assert s.startswith('fix: '), s
    s = s[5:]
    pid = next(p for k, p in MAP if k in s)
    out.append({'property': pid, 'status': 'fixed', 'commit': h, 'what': 'fixed: property={} {} {}'.format(pid, h, s)})
path = os.path.join(HERE, 'known_findings.json')
old = json.load(open(path))['findings'] if os.path.exists(path) else []
out = [o for o in old if o['status'] == 'known'] + out
json.dump({'findings': out}, open(path, 'w'), indent=1)
for o in out: print(o['what'])
