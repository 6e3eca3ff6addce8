"""C05: operations never change their operands or the caller's inputs."""
import sympy

from . import gensession
from .c15 import basis_exprs
from .engine import Property, digest, fork_call
from .world import OPS, Lib, Raised, same_any, same_container, show

# objects the algebra itself owns and hands out (documented as its attributes)
OWNED = ('basis', 'blade', 'E', 'Ips', 'recip', 'f_basis', 'f_blade', 'f_recip')
KEEP = ('simp_profile',)         # the caller's list is the declared setting


def fingerprint(v):
    """cheap, side-effect free, comparable"""
    if isinstance(v, Raised):
        return None
    if isinstance(v, (list, tuple)):
        return tuple(fingerprint(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, fingerprint(x)) for k, x in v.items())
    if isinstance(v, sympy.MatrixBase):
        return ('matrix', v.shape, tuple(v))
    n = type(v).__name__
    if n == 'Mv':
        return ('Mv', v.obj, v.title)
    if n in ('Ga', 'Sm'):
        return ('Ga', tuple(v.g), tuple(v.basis), tuple(v.coords or ()), tuple(v.g_raw) if hasattr(v, 'g_raw') else 0,
                getattr(v, 'dot_mode', 0), getattr(v, 'connect_flg', 0))
    if n == 'Lt':
        return ('Lt', tuple(sorted(((str(k), x) for k, x in getattr(v, 'lt_dict', {}).items()), key=lambda t: t[0])))
    if n == 'Mlt':
        return ('Mlt', getattr(v, 'nargs', 0), getattr(v, 'fvalue', 0))
    if n == 'Dop':
        return ('Dop', tuple((c.obj, p) for c, p in getattr(v, 'terms', ())), getattr(v, 'cmpflg', 0))
    if n == 'Sdop':
        return ('Sdop', tuple(getattr(v, 'terms', ())))
    if n == 'Pdop':
        return ('Pdop', tuple(sorted(((str(k), x) for k, x in getattr(v, 'pdiffs', {}).items()))))
    if isinstance(v, sympy.Basic):
        return v
    return None


def portrait(lib, i, by):
    """everything a user can see of a value"""
    v = lib.val[i]
    if isinstance(v, Raised):
        return None
    n = type(v).__name__
    if n == 'Ga':
        return {'metric': str(list(v.g)), 'names': [str(x) for x in v.blades.flat]}
    if n not in ('Mv', 'Lt', 'Mlt', 'Dop', 'Sdop', 'Pdop', 'Sm'):
        return None
    from galgebra import printer
    out = {}
    # the printers simplify: texts of very large coefficients would take minutes
    large = n != 'Sm' and sum(sympy.sympify(x).count_ops() for x in basis_exprs(v)) > 150
    for k, f in (('str', str), ('repr', repr), ('latex', printer.latex), ('hash', hash)):
        if (n == 'Sm' or large) and k != 'hash':
            continue
        if k == 'hash' and n != 'Mv':
            continue
        try:
            out[k] = f(v)
        except Exception as e:
            out[k] = 'raised ' + type(e).__name__
    out['value'] = lib.canon(i, by)
    return out


def scribble(x):
    """the owner of a container changes it"""
    if isinstance(x, list):
        for y in x:
            if isinstance(y, (list, sympy.MatrixBase, dict)):
                scribble(y)
        if x:
            x[0] = x[-1] if len(x) > 1 else sympy.Integer(77)
            x.append(sympy.Integer(99))
        return True
    if isinstance(x, dict):
        for k in list(x):
            x[k] = x[k] + 1 if isinstance(x[k], int) else sympy.Integer(77)      # an int is an order of a derivative
        return True
    if isinstance(x, sympy.MutableDenseMatrix):
        for i in range(x.rows):
            for j in range(x.cols):
                x[i, j] = sympy.Integer(7 + i + 3 * j)
        return True
    if isinstance(x, tuple):
        return any([scribble(y) for y in x if isinstance(y, (list, dict, sympy.MutableDenseMatrix))])
    return False


def exec_watched(plan):
    steps = plan['steps']
    by = {s['id']: s for s in steps}
    audits, scrib = set(plan['audits']), set(plan['scribble'])
    lib = Lib()
    prints, seen, out = {}, {}, []
    nscr = 0
    npoke = [0]

    def check_prints(st, what):
        for j in list(prints):
            if j not in lib.val:
                continue
            f = fingerprint(lib.val[j])
            if f != prints[j]:
                out.append(('changed', st['op'], '%s step %d %s%s changed the object of step %d (%s%s): %s -> %s' % (
                    what, st['id'], st['op'], st['p'], j, by[j]['op'], by[j]['p'], prints[j], f)))
                prints[j] = f

    def audit(st, ids):
        for j in ids:
            if j not in lib.val:
                continue
            p = portrait(lib, j, by)
            if p is None:
                continue
            old = seen.get(j)
            if old is None:
                seen[j] = p
                continue
            for k in p:
                if k == 'value':
                    if not same_any(p[k], old[k]):
                        out.append(('value-changed', by[j]['op'], 'value of step %d (%s%s) at step %d: %s, before: %s' % (
                            j, by[j]['op'], by[j]['p'], st['id'], show(p[k]), show(old[k]))))
                elif p[k] != old[k]:
                    out.append((k + '-changed', by[j]['op'], '%s of step %d (%s%s) at step %d: %s, before: %s' % (
                        k, j, by[j]['op'], by[j]['p'], st['id'], p[k], old[k])))
            seen[j] = p

    for st in steps:
        if st['op'] in ('simp_profile',):
            # the profile is a declared part of how things print
            seen.clear()
        lib.one(st)
        check_prints(st, 'running')
        for (j, obj, copy) in lib.handed:
            if not same_container(obj, copy):
                out.append(('input-changed', st['op'], 'step %d %s%s changed the container handed over in step %d: %s -> %s' % (
                    st['id'], st['op'], st['p'], j, copy, obj)))
                lib.handed.remove((j, obj, copy))
        if st['id'] in lib.val:
            prints[st['id']] = fingerprint(lib.val[st['id']])
        if st['id'] in audits:
            audit(st, list(lib.val))
        if st['id'] in scrib and st['op'] not in KEEP:
            mine = [h for h in lib.handed if h[0] == st['id']]
            lib.handed = [h for h in lib.handed if h[0] != st['id']]
            v = lib.val.get(st['id'])
            did = any([scribble(h[1]) for h in mine])
            if isinstance(v, (list, dict, sympy.MutableDenseMatrix)):
                did = scribble(v) or did
                prints.pop(st['id'], None)
                seen.pop(st['id'], None)
                lib.val.pop(st['id'], None)
            if did:
                nscr += 1
                check_prints(st, 'the caller changing its own container after')
    audit(steps[-1] if steps else {'id': -1}, list(lib.val))
    # the in-place setter changes its own object only: assign to one value after the other
    last = {i: lib.canon(i, by) for i in by if i in lib.val}
    for j in plan.get('poke', []):
        v = lib.val.get(j)
        if type(v).__name__ != 'Mv' or by[j]['op'] in OWNED:
            continue
        g = j % (v.Ga.n + 1)
        v.set_coef(g, 0, sympy.Integer(1000003 + j))
        prints[j] = fingerprint(v)
        npoke[0] += 1
        check_prints({'id': j, 'op': by[j]['op'], 'p': by[j]['p']}, 'assigning a coefficient to the result of')
    canon = last
    return out, canon, nscr, len(seen), npoke[0]


class C05(Property):
    id = 'C05'
    lists = ['scribble', 'poke', 'audits', 'steps']
    runs = {'quick': 400, 'thorough': 12000}
    rule = ('one run = one seeded session; before and after every step every live object is compared with its '
            'fingerprint, and at seeded points its value, text, LaTeX and hash with those seen before; containers handed '
            'to the library are compared after every step, and after seeded steps the caller overwrites its own '
            'containers (and lists it got back). Values are also compared with a session that is not watched and not '
            'scribbled on. Non-trivial: at least 8 live objects audited twice.')
    measure = 'operations under watch'
    real = ['galgebra', 'sympy']
    stub = ['stdout (discarded)']
    assumptions = []

    def gen(self, rng, tier, i):
        cfg = {'algs': rng.choice([1, 1, 2]), 'clients': rng.choice([1, 2]), 'length': rng.choice([8, 14, 20]),
               'symbolic': rng.choice([0.0, 0.3]), 'modes': rng.choice([0, 0.05]), 'noise': rng.choice([0, 0.15]),
               'dup': rng.random() < 0.2}
        g, kind = gensession.any_session(rng, cfg)
        for s in g.steps:
            if s['op'] == 'm_expand':       # multiplies out in place, which is seen in the text
                s['p']['copy'] = True
        ids = [s['id'] for s in g.steps]
        k = rng.choice([1, 2, 4])
        return {'steps': g.steps, 'audits': sorted(rng.sample(ids, min(k, len(ids)))),
                'scribble': [j for j in ids if rng.random() < 0.3],
                'poke': rng.sample(ids, len(ids))}

    def run(self, plan, res):
        from .c01 import exec_session
        out, canon, nscr, seen, npoke = fork_call(exec_watched, plan)
        want = fork_call(exec_session, plan['steps'])
        res.inc('ops', len(canon))
        res.inc('fault:caller_overwrites_container', nscr)
        res.inc('fault:assignment_to_result', npoke)
        for s in plan['steps']:
            res.add('ops_watched', s['op'])
        for cls, sig, msg in out:
            res.violate(cls, msg, sig)
        by = {s['id']: s for s in plan['steps']}
        for i in canon:
            if not same_any(canon[i], want.get(i)):
                res.violate('aliased', 'step %d %s%s: %s, in a session whose inputs stay as they were %s' % (
                    i, by[i]['op'], by[i]['p'], show(canon[i]), show(want.get(i))), by[i]['op'])
        res.nontrivial = seen >= 8
        res.key = digest(plan)
        res.log = [out, [(i, show(canon[i])) for i in sorted(canon)]]
        if plan.get('run', 9) < 3:
            res.sample = {'steps': ['%d=%s%s%s' % (s['id'], s['op'], s['a'], s['p']) for s in plan['steps']],
                          'audits': plan['audits'], 'scribble': plan['scribble']}
