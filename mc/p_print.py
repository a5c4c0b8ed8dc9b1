"""Where the output of the optimizers goes (P30)."""
import re
import threading

from . import chk, kernel, opts as O, oracles as o, scen
from .p_run import S1, S2, S3, SC, V, E, P, T, core, sc, units
from .scen import Unit

F1, S0, FS = dict(f=1), dict(s=0), dict(f=1, s=1)


def pr(*acts):
    """ Letters: e evaluate, p print, o print to stderr, z sleep, x raise, q leave, m message. """
    out = []
    for n, a in enumerate(acts):
        out.append({'p': ('p', f'<a.{n}>'), 'o': ('o', f'<e.{n}>'), 'z': ('z', 0.7), 'Z': ('z', 2.5), 'm': ('m', 'hi'), 'e': E}.get(a, (a,)))
    return out


def w30(name, **kw):
    kw.setdefault('spawn', ('n', 2))
    kw.setdefault('opts', [dict(script=pr(*'pep')), dict(script=pr(*'opeop'))])
    kw.setdefault('split', True)
    kw.setdefault('chatty', True)
    sc(name, **kw)


w30('pr')
w30('proff', split=False)
w30('prmany', spawn=('n', 4), opts=[dict(script=pr(*'pp')), dict(script=pr(*'opo')), dict(script=[E])])
w30('prdozen', spawn=('n', 12), max_jobs=4, opts=[dict(script=pr(*'pp')), dict(script=pr(*'opo')), dict(script=[E])])
w30('prthree', spawn=('n', 3), max_jobs=3, opts=[dict(script=pr(*'ppo'))], chatty=False)
w30('prslow', opts=[dict(script=pr(*'pzpeo')), dict(script=pr(*'ezoezp'))], spawn=('n', 3))
w30('prhunt', opts=[dict(script=pr(*'pepepep'))], vals=V, hunter='RecHunter([(1,2),(3,1)])', spawn=('n', 3))
w30('prcrash', opts=[dict(script=pr(*'pox')), dict(script=pr(*'poq'))], spawn=('n', 3))
w30('prconv', opts=[dict(script=pr(*'pepepepep'))], conv='MaxFuncCalls(3)')
w30('prnone', opts=[dict(script=[E])], chatty=False)
w30('profnone', split=False, opts=[dict(script=[])], chatty=False)
w30('prother', other=True, opts=[dict(script=pr(*'pzp')), dict(script=pr(*'ezo'))], spawn=('n', 3))
w30('prkill', faults=('kill',), opts=[dict(script=pr(*'pepo')), dict(script=pr(*'opeop'))])
w30('print', faults=('intmain',), fault_filter='intr', expect_crash=True, allow_survivors=1)
for _p in ('rel', 'relstr'):
    w30('prmove' + _p, be=T, paths=_p, opts=[dict(script=pr(*'pe') + [('c',)] + pr(*'zpo')), dict(script=pr(*'op'))], spawn=('n', 4))
w30('prfull', summary=1)
EZP = pr(*'poeZ') + pr(*'epZe') + pr(*'op')
EZQ = pr(*'opeZ') + pr(*'poZeop')
for _b in (P, T):
    w30('prres', be=_b, opts=[dict(script=pr(*'pe')), dict(script=EZP), dict(script=EZQ)], spawn=('n', 3), conv='MaxFuncCalls(3)',
        resume=dict(conv='MaxFuncCalls(50)'), chk=dict(checkpoint_at_conv=True, naming_format='c_%(count)'),
        which=[['c_000.tar.gz']], horizon=20000)


def talker(w):
    for n in range(4):
        t = threading.Thread(target=O.say, args=(0, f'<c8.{n}>', ('stdout', 'stderr')[n % 2]))
        t.start()
        t.join()
        w.sleep(0.6)


def body(rec):
    w = rec.w
    rec.talk = None
    if rec.cfg.get('other'):
        rec.talk = threading.Thread(target=talker, args=(w,), name='Other')
        rec.talk.start()
    O.say(0, '<c9.0>')
    (chk.resume_body if rec.cfg.get('chk') is not None else scen.default_body)(rec)
    O.say(0, '<c9.1>')
    O.say(0, '<c9.2>', 'stderr')
    if rec.talk:
        rec.talk.join()


def o_print(rec):
    cfg, log = rec.cfg, rec.w.log
    s = rec.sessions[-1]
    if s.result is None:
        return
    kills = {int(e[2][3:]) for e in log if e[0] == 'fault' and e[1] == 'kill'} | \
            {int(e[1][3:]) for e in log if e[0] == 'terminate' and not e[3]}
    if not cfg.get('faults'):
        began = {e[1] for e in log if e[0] == 'opt_start'}
        for e in log:
            if e[0] == 'dead' and e[1].startswith('Opt') and int(e[1][3:]) not in began:
                yield 'lost', f'{e[1]} died before it could begin'
    split = cfg['split']
    con = [''.join(f.text) for f in rec.console]
    for k, stream in enumerate(('stdout', 'stderr')):
        main = [e[3].strip() for e in log if e[0] == 'say' and e[2] == stream and e[1] == 0]
        opts = [e[3].strip() for e in log if e[0] == 'say' and e[2] == stream and e[1] != 0]
        seen = re.findall(r'<[a-z0-9.]+>', con[k])
        mine = [t for t in seen if t[1] == 'c']
        others = [t for t in seen if t[1] != 'c']
        if cfg.get('other'):
            for c in '089':
                if [t for t in main if t[2] == c] != [t for t in mine if t[2] == c]:
                    yield 'console', f'{stream}: {mine} instead of {main}'
        elif mine != main:
            yield 'console', f'{stream}: {mine} instead of {main}'
        if split and others:
            yield 'leak', f'{others} appeared on the console although output is split'
        if not split and sorted(others) != sorted(opts):
            yield 'console', f'{stream}: {others} of {opts}'
    if not split:
        if any(x.prints is not None for x in rec.sessions):
            yield 'dir', 'output is not split but there is a directory for it'
        return
    for x in rec.sessions:
        a, b = x.first, x.last
        if x.prints is None:
            yield 'dir', 'no directory for the split output'
            return
        ran = {e[1] for e in log[a:b] if e[0] == 'opt_start'}
        began = {int(c.name[3:]) for c in rec.w.data.get('children', ()) if c._task is not None and c.name.startswith('Opt')}
        names = {f'printstream_{i:04}.{q}' for i in ran for q in ('out', 'err')}
        may = {f'printstream_{i:04}.{q}' for i in began for q in ('out', 'err')}
        if not names <= set(x.prints) <= may:
            yield 'names', f'files {sorted(x.prints)} for optimizers {sorted(ran)}'
        for i in ran:
            for stream, q in (('stdout', 'out'), ('stderr', 'err')):
                want = ''.join(e[3] for e in log[a:b] if e[0] == 'say' and e[1] == i and e[2] == stream)
                got = x.prints.get(f'printstream_{i:04}.{q}', '')
                if i in kills or any(i == int(n[3:]) for n in x.survivors if n.startswith('Opt')):
                    ok = want.startswith(got) or got.startswith(want)
                elif q == 'err' and ('opt_crash', i) in log[a:b]:
                    ok = got.startswith(want) and f'script crash of {i}' in got[len(want):]
                elif q == 'out' and any(e[0] == 'fault' for e in log):
                    ok = got.startswith(want)
                else:
                    ok = got == want
                if not ok:
                    yield 'output', f'optimizer {i} wrote {want!r} to {stream}; its file contains {got!r}'


def _units(names, quick, thorough):
    def make(tier):
        out = []
        for n in names:
            b = (quick, thorough)
            if isinstance(n, tuple):
                n, b = n[0], n[1:]
            for be in ('processes', 'threads'):
                k = f'{n}-{be}'
                if k in SC:
                    out.append(Unit(k, SC[k], b[0] if tier == 'quick' else b[1], core + [o_print, o.o_place], body))
        return out
    return make


PROPS = {
    'P30': dict(units=_units([
        'pr', 'proff', 'prmany', ('prdozen', S0, S1), 'prthree', 'prslow', 'prhunt', 'prcrash', 'prconv', 'prnone', 'profnone', 'prother',
        'prmoverel', 'prmoverelstr', ('prkill', F1, FS), ('print', F1, FS), 'prfull', ('prres', S0, S1)], S1, S2)),
}
