"""C12: string expressions evaluate with the declared operator precedence."""
import io
import re
import sys

from .engine import Property, digest, fork_call

ORDERS = ['<>|,^,*', '<>|,*,^', '^,<>|,*', '^,*,<>|', '*,^,<>|', '*,<>|,^']
BAD_ORDERS = ['', '<>|,^,*,', '^,*,|', '<>|,^,&', '<>|;^;*', '|<>,^,*', 'x', '<>|, ^, *', '+,-', '<>|,^,**']
NAMES = ['a', 'b', 'c', 'd', 'A1', 'x_2', '_u', 'ab']
TOK = re.compile(r'[A-Za-z_][A-Za-z0-9_]*|\d+(?:\.\d+)?|\*\*|.')


class Boom(Exception):
    pass


class T:
    """an operand that records how it was combined"""
    __hash__ = object.__hash__

    def __init__(self, t):
        self.t = t

    def __neg__(self):
        return T('(-%s)' % self.t)

    def __invert__(self):
        return T('(~%s)' % self.t)

    def __truediv__(self, n):
        return T('(%s/%s)' % (self.t, n))

    def __pow__(self, n):
        return T('(%s**%s)' % (self.t, n))

    def __getitem__(self, n):
        return T('%s[%s]' % (self.t, _txt(n)))

    def flip(self):
        return T('flip(%s)' % self.t)


def _txt(x):
    return x.t if isinstance(x, T) else str(x)


def _mk(op):
    def f(a, b):
        return T('(%s%s%s)' % (_txt(a), op, _txt(b)))
    return f


def _rmk(op):
    def f(b, a):
        return T('(%s%s%s)' % (_txt(a), op, _txt(b)))
    return f


for _op, _n in [('|', 'or'), ('^', 'xor'), ('*', 'mul'), ('+', 'add'), ('-', 'sub'), ('<', 'lt'), ('>', 'gt')]:
    setattr(T, '__%s__' % _n, _mk(_op))
    if _n not in ('lt', 'gt'):
        setattr(T, '__r%s__' % _n, _rmk(_op))


class Bomb(T):
    def _boom(self, *a):
        raise Boom('operand fails')
    __or__ = __ror__ = __xor__ = __rxor__ = __mul__ = __rmul__ = __add__ = __radd__ = __sub__ = __rsub__ = _boom
    __lt__ = __gt__ = __neg__ = _boom


def expected(s, order):
    """the fully parenthesised form: a plain recursive-descent parser, independent of the library's"""
    levels = [set(x) for x in reversed(order.split(','))]       # loosest first
    toks, pos = TOK.findall(s.replace(' ', '')), [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        pos[0] += 1
        return toks[pos[0] - 1]

    def summ():
        v = neg()
        while peek() in ('+', '-'):
            o = nxt()
            v = '(%s%s%s)' % (v, o, neg())
        return v

    def neg():
        if peek() == '-':
            nxt()
            return '(-%s)' % neg()
        return level(0)

    def level(i):
        if i == len(levels):
            return signed()
        v = level(i + 1)
        while peek() in levels[i]:
            o = nxt()
            v = '(%s%s%s)' % (v, o, level(i + 1))
        return v

    def signed():
        if peek() == '-':
            nxt()
            return '(-%s)' % signed()
        return atom()

    def atom():
        t = nxt()
        if t == '~':
            return '(~%s)' % atom()
        if t == '(':
            v = summ()
            assert nxt() == ')'
        elif t in ('rev', 'two'):
            assert nxt() == '('
            v = [summ()]
            while peek() == ',':
                nxt()
                v.append(summ())
            assert nxt() == ')'
            v = '%s(%s)' % (t, ','.join(v))
        else:
            v = t
        while peek() in ('.', '['):
            if nxt() == '.':
                assert nxt() == 'flip' and nxt() == '(' and nxt() == ')'
                v = 'flip(%s)' % v
            else:
                v = '%s[%s]' % (v, summ())
                assert nxt() == ']'
        if peek() == '**':
            nxt()
            v = '(%s**%d)' % (v, int(nxt()))
        while peek() == '/':
            nxt()
            v = '(%s/%d)' % (v, int(nxt()))
        return v
    v = summ()
    assert peek() is None, s
    return v


def expr(r, depth, names, rec=True):
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    out = []
    if r.random() < 0.1:
        out.append('-')
    ops = r.choice([['*', '^', '|', '<', '>', '+', '-'], ['*', '^', '|'], ['|', '<', '>', '^'], ['*', '^', '+'],
                    ['^', '|'], ['*', '+', '-']])
    for i in range(n):
        if i:
            out.append(r.choice(ops))
        x = r.random()
        if depth > 0 and x < 0.35:
            out.append('(' + expr(r, depth - 1, names, rec) + ')')
        elif depth > 0 and x < 0.41:
            out.append('rev(' + expr(r, depth - 1, names, rec) + ')')
        elif depth > 0 and x < 0.44:
            out.append('two(' + expr(r, depth - 1, names, rec) + ',' + expr(r, depth - 1, names, rec) + ')')
        elif x < 0.52 and (not i or out[-1] in '+-'):
            out.append(r.choice(['2', '3', '10', '2.5']) + '*' + r.choice(names))
        elif x < 0.56:
            out.append(r.choice(names) + '.flip()')
        else:
            out.append(r.choice(names))
            if rec and depth > 0 and x < 0.6:
                out[-1] += '[' + expr(r, depth - 1, names, rec) + ']'
        y = r.random()
        if y < 0.04 and not out[-1][0].isdigit():
            out[-1] = '~' + out[-1]
        elif y < 0.08 and i and out[-2] not in '+-':
            out[-1] = '-' + out[-1]
        if y > 0.96 and i and out[-2] in '^|<>' and out[-1][0] != '-':
            out[-1] += r.choice(['/2', '/3'])
        elif y > 0.94 and out[-1][0] not in '~-' and re.search(r'[a-z)\]]$', out[-1]):
            out[-1] += '**2'
    return ''.join(out)


def space(r, s):
    if r.random() < 0.4:
        s = re.sub(r'(\*\*|[-+*^|<>(),/~[\]])', lambda m: r.choice(['', ' ']) + m.group(1) + r.choice(['', ' ']), s)
    return s


GAS = {}


def make_env(k, kind):
    if kind == 'T':
        env = {n: T('%s%d' % (n, k)) for n in NAMES}
        env['bomb'] = Bomb('bomb%d' % k)
        env['rev'] = lambda x: T('rev(%s)' % x.t)
        env['two'] = lambda x, y: T('two(%s,%s)' % (x.t, y.t))
        return env
    from galgebra.ga import Ga
    if k % 5 not in GAS:
        GAS[k % 5] = Ga('e1 e2 e3', g=[1, -1, 1 + k % 5])
    ga = GAS[k % 5]
    env = {}
    for j, n in enumerate(NAMES):
        m = ga.mv(j + 2)
        for q, bl in enumerate(ga.blades.flat):
            if q:
                m = m + ((j * 7 + q * 5 + k) % 7 - 3) * ga.mv(bl)
        env[n] = m
    env['rev'] = lambda x: x.rev()
    env['two'] = lambda x, y: x * 2 - y
    return env


def direct(s, order, env, kind):
    """value of the fully parenthesised expression, by plain Python on the same operands"""
    e = dict(env)
    e['flip'] = (lambda x: x.flip()) if kind == 'T' else (lambda x: x.rev())
    e['__builtins__'] = {}
    return eval(expected(s, order), e)


def read(v, kind):
    if isinstance(v, T):
        return v.t
    return '%s:%s' % (type(v).__name__, v)


def exec_plan(plan, preempts=()):
    from galgebra.printer import GAeval, def_prec
    from . import faults
    kind = plan['kind']
    envs = {}
    out, trace = [], []
    for st in plan['steps']:
        k = st['k']
        if k in ('declare', 'refuse'):
            env = envs.setdefault(st['env'], make_env(st['env'], kind))
            try:
                if k == 'declare' and st.get('default'):
                    def_prec(env)
                else:
                    def_prec(env, st['order'])
                out.append(('ok',))
            except ValueError:
                out.append(('refused',))
            except Exception as e:
                out.append(('raised', type(e).__name__))
        elif k == 'set':
            env = envs.setdefault(st['env'], make_env(st['env'], kind))
            other = make_env(st['env'] + 5, kind)
            env[st['name']] = other[st['from']]
            out.append(('ok',))
        elif k == 'eval':
            keep = {e: dict(v) for e, v in envs.items()}
            texts = {e: {n: read(x, kind) for n, x in v.items() if n in NAMES} for e, v in envs.items()}
            txt = st['s'] if kind == 'T' else st['s'].replace('.flip', '.rev')
            f = st.get('fault')
            pt = None
            if f:
                pt = faults.choose(faults.survey(lambda: GAeval(txt)), f)
            buf = io.StringIO()
            real = sys.stdout
            sys.stdout = buf
            err = None
            try:
                if pt:
                    with faults.Injector(pt[0], pt[1], f['exc']) as inj:
                        v = GAeval(txt, st['pstr'])
                else:
                    v = GAeval(txt, st['pstr'])
                r = ('val', read(v, kind))
            except BaseException as e:
                r = ('raised', type(e).__name__)
                err = e
            back = sys.stdout is buf
            sys.stdout = real
            if pt:
                trace.append((st['id'], f['exc'], '%s#%d' % pt, inj.fired))
                if inj.fired and err is not None:
                    r = ('injected',)
            printed = buf.getvalue()
            same = back and set(keep) == set(envs) and all(
                {n: x for n, x in v.items() if n != '__builtins__'} .keys() ==
                {n: x for n, x in envs[e].items() if n != '__builtins__'}.keys() and
                all(envs[e][n] is x for n, x in v.items() if n != '__builtins__') for e, v in keep.items()) and \
                texts == {e: {n: read(x, kind) for n, x in v.items() if n in NAMES} for e, v in envs.items()}
            out.append(r + ((printed, same),))
            if st['pstr'] and r[0] == 'val':
                # the printed, parenthesised text must denote the value without any precedence rule but python's
                lines = printed.splitlines()
                env = envs.get(st['cur'])
                try:
                    again = read(eval(lines[1], dict(env)), kind)
                except Exception as e:
                    again = repr(e)
                out[-1] += (len(lines) == 2 and lines[0] == txt, again)
        elif k == 'threads':
            from .sched import Scheduler
            res = {}

            def body(t, prog):
                def run():
                    for j, s in enumerate(prog):
                        try:
                            v = read(GAeval(s if kind == 'T' else s.replace('.flip', '.rev')), kind)
                        except Exception as e:
                            v = repr(e)
                        res[(t, j)] = v
                return run
            sch = Scheduler([body(t, p) for t, p in enumerate(st['progs'])], [q[1:] for q in preempts if q[0] == st['id']])
            sch.run()
            out.append(('threads', res, sch.counts, sch.switches, sch.stop, sch.errors))
    return out, trace


def exec_expected(plan):
    kind = plan['kind']
    envs, cur, order = {}, None, None
    out = []
    for st in plan['steps']:
        k = st['k']
        if k == 'declare':
            envs.setdefault(st['env'], make_env(st['env'], kind))
            cur, order = st['env'], ('<>|,^,*' if st.get('default') else st['order'])
            out.append(None)
        elif k == 'refuse':
            envs.setdefault(st['env'], make_env(st['env'], kind))
            out.append(None)
        elif k == 'set':
            env = envs.setdefault(st['env'], make_env(st['env'], kind))
            env[st['name']] = make_env(st['env'] + 5, kind)[st['from']]
            out.append(None)
        elif k == 'eval':
            if st['bad'] or cur is None:
                out.append(('raised',))
                continue
            try:
                out.append(('val', read(direct(st['s'], order, envs[cur], kind), kind)))
            except Boom:
                out.append(('raised',))
        else:
            out.append({(t, j): read(direct(s, order, envs[cur], kind), kind)
                        for t, p in enumerate(st['progs']) for j, s in enumerate(p)})
    return out


class C12(Property):
    id = 'C12'
    lists = ['steps']
    runs = {'quick': 1200, 'thorough': 40000}
    rule = ('one run = one seeded history of precedence declarations (all six orders, default, refused ones), variable '
            'reassignments and evaluations of random expressions (nested, chained, calls, numbers, spaces) over one or two '
            'dictionaries, with malformed texts, failing operands and injected interrupts in between, and a part of the '
            'runs evaluating from 2-3 threads under a seeded schedule; compared with an independent precedence parser. '
            'Non-trivial: at least 3 evaluations with 3 or more operators.')
    measure = 'pairs (order, operator-sequence shape) evaluated'
    real = ['galgebra.printer.GAeval, def_prec', 'galgebra._utils.parser', 'multivector operators (a third of the runs)']
    stub = ['operands that record how they were combined (two thirds of the runs)', 'stdout']
    assumptions = ['expressions are built from names, numbers, calls, the five declared operators, +, -, '
                   'signs, ~, division and powers by numbers, attributes and indices; '
                   'operators of one group associate to the left, + and - bind loosest']

    def gen(self, rng, tier, i):
        kind = 'mv' if rng.random() < 0.3 else 'T'
        names = NAMES if rng.random() < 0.5 else NAMES[:4]
        steps = []
        cur = None
        small = kind == 'mv'

        def emit(**kw):
            kw['id'] = len(steps)
            steps.append(kw)
        if rng.random() < 0.9:
            emit(k='declare', env=0, order=rng.choice(ORDERS), default=rng.random() < 0.2)
            cur = 0
        n = rng.choice([4, 8]) if small else rng.choice([6, 12, 20])
        for _ in range(n):
            x = rng.random()
            if x < 0.14:
                cur = rng.randrange(2)
                emit(k='declare', env=cur, order=rng.choice(ORDERS), default=rng.random() < 0.2)
            elif x < 0.2:
                emit(k='refuse', env=rng.randrange(2), order=rng.choice(BAD_ORDERS))
            elif x < 0.25:
                emit(k='set', env=rng.randrange(2), name=rng.choice(names), **{'from': rng.choice(NAMES)})
            elif x < 0.29 and cur is not None:
                emit(k='threads', progs=[[expr(rng, rng.choice([0, 1, 1, 2]), names, not small) for _ in range(rng.choice([1, 2]))]
                                         for _ in range(rng.choice([2, 3]))],
                     pre=[{'t': rng.randrange(3), 'loc': round(rng.random(), 6), 'hit': round(rng.random(), 6),
                           'to': rng.randrange(3), 'hot': rng.random() < 0.5} for _ in range(rng.choice([1, 2, 4, 8]))])
            else:
                s = expr(rng, rng.choice([0, 1, 1, 2]) if small else rng.choice([0, 1, 2, 2, 3]), names, not small)
                bad = None
                seen = [e for e in steps if e['k'] == 'eval' and not e['bad']]
                if seen and rng.random() < 0.3:
                    s = rng.choice(seen)['s'].replace(' ', '')      # the same text again, under whatever holds now
                y = rng.random()
                if y < 0.04:
                    bad, s = 'name', s.replace(names[0], 'nosuch') if names[0] in s else 'nosuch^' + s
                elif y < 0.1:
                    bad, s = 'paren', rng.choice([s + ')', '(' + s, s + '^', ')' + s + '(', s + ' (', s + '|)'])
                elif y < 0.14 and not small:
                    bad, s = 'bomb', s + rng.choice(['^', '*', '|']) + 'bomb'
                st = dict(k='eval', s=space(rng, s) if not bad else s, pstr=rng.random() < 0.3, bad=bad, cur=cur)
                if rng.random() < 0.1:
                    st['fault'] = {'exc': rng.choice(['KI', 'ME', 'RE']), 'loc': round(rng.random(), 6),
                                   'hit': round(rng.random(), 6)}
                emit(**st)
        return {'kind': kind, 'steps': steps}

    def simplify(self, plan):
        """shorter expressions"""
        for n, st in enumerate(plan['steps']):
            if st['k'] != 'eval':
                continue
            s = st['s']
            for size in (16, 8, 5, 4, 3, 2, 1):
                for i in range(0, len(s) - size + 1):
                    t = s[:i] + s[i + size:]
                    if not st['bad']:
                        try:
                            expected(t, ORDERS[0])
                        except Exception:
                            continue
                        if len(TOK.findall(t)) == 1 or not set(re.findall(r'[A-Za-z_]\w*', t)) <= set(NAMES) | {'rev', 'two', 'flip'}:
                            continue
                    yield dict(plan, steps=plan['steps'][:n] + [dict(st, s=t)] + plan['steps'][n + 1:])

    def run(self, plan, res):
        want = fork_call(exec_expected, plan)
        pre = []
        if any(s['k'] == 'threads' for s in plan['steps']):
            from .c04 import locate
            base, _ = fork_call(exec_plan, plan)
            for st, o in zip(plan['steps'], base):
                if st['k'] == 'threads':
                    pre += [(st['id'],) + q for q in locate(o[2], st['pre'])]
        got, trace = fork_call(exec_plan, plan, pre)
        evals = 0
        order = None
        for t in trace:
            if t[3]:
                res.inc('fault:' + t[1])
        for st, g, w in zip(plan['steps'], got, want):
            k = st['k']
            res.inc('ops')
            if k == 'declare':
                order = '<>|,^,*' if st.get('default') else st['order']
                if g != ('ok',):
                    res.violate('declaration', 'def_prec(%r): %s' % (order, g), 'declare')
            elif k == 'refuse':
                res.inc('fault:refused_declaration')
                if g != ('refused',):
                    res.violate('declaration', 'def_prec(%r) was not refused: %s' % (st['order'], g), 'refuse')
            elif k == 'eval':
                if g[0] == 'injected':
                    pass
                elif w[0] == 'raised':
                    res.inc('fault:failing_expression')
                    if g[0] != 'raised':
                        res.violate('accepted', 'GAeval(%r) under %s should fail: %s' % (st['s'], order, g), 'accepted')
                elif g[:2] != w:
                    res.violate('wrong-value', 'GAeval(%r) under %s: %s, fully parenthesised %s' % (
                        st['s'], order, g[:2], w), 'eval')
                elif st['pstr'] and (g[3] is not True or g[4] != w[1]):
                    res.violate('wrong-print', 'GAeval(%r, True) under %s printed %r which is %s, not %s' % (
                        st['s'], order, g[2][0], g[4], w[1]), 'pstr')
                meta = g[-1] if isinstance(g[-1], tuple) else g[2]
                if not st['pstr'] and meta[0]:
                    res.violate('wrong-print', 'GAeval(%r) printed %r' % (st['s'], meta[0]), 'print')
                if meta[1] is not True:
                    res.violate('changed', 'GAeval(%r) changed the variables or the standard output' % st['s'], 'changed')
                no = len(re.findall(r'[*^|<>+/~-]', st['s']))
                evals += no >= 3 and w[0] == 'val'
                res.add('shapes', (order, re.sub(r'[A-Za-z0-9_. ]+', 'x', st['s'])[:40]))
            elif k == 'threads':
                _, vals, _, switches, stop, errs = g
                res.inc('fault:preemption', sum(1 for s in switches if s[2] not in ('end', 'block')))
                if stop or errs:
                    res.violate('threads', 'threads evaluating %s: %s %s' % (st['progs'], stop, errs), 'threads')
                for key in sorted(w):
                    if vals.get(key) != w[key]:
                        res.violate('interleaving', 'thread %d GAeval(%r) under %s: %s, alone %s; schedule %s' % (
                            key[0], st['progs'][key[0]][key[1]], order, vals.get(key), w[key], switches), 'threads')
        res.nontrivial = evals >= (2 if plan['kind'] == 'mv' else 3)
        res.key = digest(plan)
        res.log = [trace, [x[:2] if x[0] != 'threads' else [sorted(x[1].items()), x[3]] for x in got]]
        if plan.get('run', 9) < 3:
            res.sample = {'steps': plan['steps'][:8]}
