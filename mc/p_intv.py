"""Sharing of improvements (P26)."""
from . import oracles as o
from .p_run import S1, S2, S3, SC, V, E, NAN, INF, P, T, core, sc, units


def w26(name, **kw):
    sc(name, spawn=kw.pop('spawn', ('n', 2)), share=kw.pop('share', True), watch=True, **kw)


w26('sh', opts=[dict(script=[E] * 3)], vals={1: [5, 3, 3], 2: [4, 2, 2]})
w26('shoff', opts=[dict(script=[E] * 3)], vals={1: [5, 3, 3], 2: [4, 2, 2]}, share=False)
w26('shzero', opts=[dict(script=[E] * 3)], vals={1: [1, 0, 0], 2: [2, -0.0, 1]})
w26('shnan', opts=[dict(script=[E] * 3)], vals={1: [NAN, INF, 4.0], 2: [NAN, 5.0, -INF]})
w26('shthree', opts=[dict(script=[E] * 2)], vals={1: [5, 3], 2: [4, 2], 3: [6, 1]}, spawn=('n', 3), max_jobs=3)
w26('shslow', opts=[dict(script=[E, ('z', 1.5), ('z', 1.5)] * 3)], vals={1: [5, 3.5, 2], 2: [4.5, 3, 1.5], 3: [4, 2.5, 1], 4: [6, 6, 0]},
    spawn=('n', 4), max_jobs=4)
w26('shrefill', opts=[dict(script=[E] * 2), dict(script=[E] * 4)], vals={1: [5, 3], 2: [4, 4, 2, 2], 3: [6, 1]},
    spawn=('n', 3))
w26('shhunt', opts=[dict(script=[E] * 3)], vals=V, spawn=('n', 3), hunter='RecHunter([(1,2),(3,1)])')
w26('shcrash', opts=[dict(script=[E, ('x',)]), dict(script=[E] * 3)], vals={1: [5, 3], 2: [4, 2, 1]})
w26('shfast', opts=[dict(script=[E] * 8)], vals={1: [9, 8, 7, 6, 5, 4, 3, 2], 2: [8.5, 7.5, 6.5, 5.5]})
w26('sheof', be=P, opts=[dict(script=[E] * 3)], vals={1: [5, 3, 3], 2: [4, 2, 2]}, eof=True)
w26('shkill', be=P, opts=[dict(script=[E] * 2)], vals={1: [5, 3], 2: [4, 2]}, faults=('kill',), eof=True)
w26('shend', opts=[dict(script=[E] * 3)], vals={1: [5, 3, 3], 2: [4, 2, 2]}, conv='MaxFuncCalls(3)')


def o_share(rec):
    for n, s in enumerate(rec.sessions):
        if s.result is not None:
            yield from shared_in(rec, s, s is rec.sessions[-1])


def shared_in(rec, s, last):
    """ Within one session. """
    w = rec.w
    a, z = s.first, getattr(s, 'last', None)
    z = len(w.log) if z is None or last else z
    log = [e if k >= a else ('',) for k, e in enumerate(w.log[:z])]
    base = getattr(s, 'base', None) or dict(fx=None, f=0, loaded={})
    pipe = w.data.get('pipe', {})
    sends = [(li, pipe.get(id(c.other)), m) for c, m, li in w.data.get('sent', ())
             if isinstance(m, tuple) and m and m[0] == 4 and a <= li < z]
    if not rec.cfg.get('share'):
        if sends or any(e[0] == 'inject' for e in log):
            yield 'share-off', f'solutions were shared although this is not configured: {sends[0]}'
        return
    acc = [(n, e[1], e[2], e[3]) for n, e in enumerate(log) if e[0] == 'accept']
    if [(a[1], a[2], a[3]) for a in acc if a[3] == a[3]] != [(q[1], q[2], q[3]) for q in s.L if q[3] == q[3] and q[0] > base['f']]:
        yield 'harness', f'moments of acceptance are not known: {acc} {s.L}'
        return
    best, imp = INF if base['fx'] is None else base['fx'], []
    for n, j, x, fx in acc:
        if fx < best:
            best = fx
            imp.append((n, j, x, fx))
    init = {**{i: a for i in base['loaded']}, **{e[1]: n for n, e in enumerate(log) if e[0] == 'opt_init'}}
    dead = {int(e[1][3:]): n for n, e in reversed(list(enumerate(log))) if e[0] == 'dead' and e[1].startswith('Opt')}
    kill = {h['victim']: h['li'] for h in reversed(s.hunts) if h['r']}
    end = s.checks[-1]['li'] if s.checks else 0
    got = {}
    for li, j, m in sends:
        x, fx = tuple(float(i) for i in m[1]), m[2]
        hit = [k for k, q in enumerate(imp) if (q[2], q[3]) == (x, fx)]
        if not hit or imp[hit[0]][0] >= li:
            yield 'share-phantom', f'optimizer {j} was sent {m[1:]}, which did not improve the best result'
            continue
        k = hit[0]
        if imp[k][1] == j:
            yield 'share-owner', f'optimizer {j} was sent its own solution {m[1:]}'
        if k in got.setdefault(j, []):
            yield 'share-twice', f'optimizer {j} was sent {m[1:]} twice'
        elif got[j] and k < got[j][-1]:
            yield 'share-order', f'optimizer {j} was sent {m[1:]} after a better one'
        got[j].append(k)
    for k, (n, own, x, fx) in enumerate(imp):
        later = [c['li'] for c in s.checks if c['li'] > n]
        if not later:  # the run ended in the same pass
            continue
        for j in init:
            if j != own and init[j] < n and dead.get(j, len(log)) > later[0] and kill.get(j, len(log)) > n \
                    and k not in got.get(j, ()):
                yield 'share-missing', f'optimizer {j} was not sent the solution {x}, {fx} of optimizer {own}'
    # what is sent is what is taken in
    left = {pipe[id(c.other)]: [m for m in c.other.q if isinstance(m, tuple) and m[0] == 4]
            for c in w.data.get('conns', ()) if id(c.other) in pipe}
    for j in init:
        sent = [(tuple(float(i) for i in m[1]), m[2]) for _, q, m in sends if q == j]
        taken = [(e[2], e[3]) for e in log if e[0] == 'inject' and e[1] == j]
        if sent[:len(taken)] != taken:
            yield 'share-taken', f'optimizer {j} was sent {sent} and took in {taken}'
        elif len(taken) + len(left.get(j, ())) != len(sent) and j not in dead:
            yield 'share-lost', f'optimizer {j} was sent {sent} and took in {taken}; {left.get(j)} is unread'


def resumed(tier):
    from . import p_chk, chk
    for be in (('threads', 'processes') if tier == 'thorough' else ('threads',)):
        sc('shresumed', be=(be,), opts=[dict(script=[E, ('z', 1.2)] * 3)], vals={1: [5, 3.5, 2], 2: [4.5, 3, 1.5], 3: [6, 1, 0]},
           spawn=('n', 3), share=True, watch=True, chk=p_chk.cc(checkpoint_iter_frequency=2))
    return p_chk.units(['shresumed'], core + [o_share], chk.resume_body, S1, S2)(tier)


PROPS = {
    'P26': dict(units=lambda tier: resumed(tier) + units([('sh', S2, S3), 'shoff', 'shzero', 'shnan', 'shthree', 'shslow', 'shrefill', 'shhunt', 'shcrash',
                             'shfast', 'sheof', 'shkill', 'shend'], [o_share], S1, S2)(tier)),
}
