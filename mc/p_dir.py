"""Directories: names and retention of checkpoints (P15), files of the user in the working directory (P28)."""
import os
import shutil
from datetime import datetime
from pathlib import Path

from .seq import SeqUnit, Stop
from . import opts as O  # noqa

from glompo.core.checkpointing import CheckpointingControl
from glompo.core.manager import GloMPOManager
from glompo.opt_selectors.baseselector import BaseSelector

LENS = {'date': 8, 'year': 4, 'yr': 2, 'month': 2, 'day': 2, 'time': 6, 'hour': 2, 'min': 2, 'sec': 2}


class NoOpts(BaseSelector):
    """ Starts nothing at all. """

    def __init__(self):
        super().__init__(O.ScriptOpt)

    def select_optimizer(self, manager, log, slots):
        return False


def task(x):
    return 0.0


# ---------------------------------------------------------------------------------------------------------------- P15
def tokens(fmt):
    out, i = [], 0
    while i < len(fmt):
        if fmt.startswith('%(', i) and ')' in fmt[i:]:
            key = fmt[i + 2:fmt.index(')', i)]
            if key in LENS or key == 'count':
                out.append(('k', key))
                i += len(key) + 3
                continue
        out.append(('c', fmt[i]))
        i += 1
    return out


DIG = set('0123456789')


def match(fmt, name):
    """ All indices with which `name` can be read as the format: {None} for a match without a counter. """
    found = set()

    def rec(toks, s, idx):
        if not toks:
            if s in ('', '.tar.gz'):
                found.add(idx)
            return
        (kind, v), rest = toks[0], toks[1:]
        if kind == 'c':
            if s.startswith(v):
                rec(rest, s[1:], idx)
        elif v != 'count':
            n = LENS[v]
            if len(s) >= n and set(s[:n]) <= DIG:
                rec(rest, s[n:], idx)
        elif idx is not None:
            if s.startswith(idx):
                rec(rest, s[len(idx):], idx)
        else:
            n = 3
            while n <= len(s) and set(s[:n]) <= DIG:
                rec(rest, s[n:], s[:n])
                n += 1

    rec(tokens(fmt), name, None)
    return found


def expand(fmt, when, idx):
    t = datetime.fromtimestamp(when)
    vals = dict(date=f'{t.year:04}{t.month:02}{t.day:02}', year=f'{t.year:04}', yr=f'{t.year % 100:02}',
                month=f'{t.month:02}', day=f'{t.day:02}', time=f'{t.hour:02}{t.minute:02}{t.second:02}',
                hour=f'{t.hour:02}', min=f'{t.minute:02}', sec=f'{t.second:02}', count=f'{idx:03}')
    return ''.join(v if k == 'c' else vals[v] for k, v in tokens(fmt))


FORMATS = ['chk_%(count)', '%(count)', 'glompo_checkpoint_%(date)_%(time)', 'a.b+c{1}[x](y)^$|?*\\_%(count)',
           '%(count)_%(count)', '%(year)-%(month)-%(day)T%(hour).%(min).%(sec)_%(count)_end', 'run%(yr)%(month)',
           '%(date)_%(count)', 'x_%(count).tar.gz_y', '100%_%(count)', 'run1_%(count)%(foo)']


def variants(fmt):
    """ Names of files which exist already: matches and near misses. """
    other = 1234567890.0
    v = [expand(fmt, other, i) + s for i, s in ((0, ''), (0, '.tar.gz'), (7, '.tar.gz'), (8, ''), (999, '.tar.gz'),
                                                (1000, ''), (12345, '.tar.gz'))]
    base = expand(fmt, other, 500)
    v += [base + '.bak', base + '.tar', base + '.tar.gz.bak', 'x' + base, base + 'x.tar.gz', base + '5.tar.gz',
          base.replace('500', '50'), base.replace('500', '5 0'), base.replace('500', 'abc'), base.replace('500', ''),
          base.replace('500', '0500'), base[:-1], base.upper() + '_', base + '_tar.gz', base.replace('_', '-'),
          base.replace('500', '600', 1), base.replace('.', 'Z'), '_' + base, base + '.tar.gz.tar.gz']
    return list(dict.fromkeys(n for n in v if n and '/' not in n and n not in ('.', '..')))


def names(formats, subset, make):
    def fn(ctx):
        fmt = ctx.pick(formats, 'format')
        vs = variants(fmt)
        there = []
        start = 0
        for _ in range(subset):
            k = ctx.pick(range(start, len(vs) + 1), '')
            if k == len(vs):
                break
            there.append(vs[k])
            start = k + 1
        isdir = ctx.flag('dirs') if make else False
        root = Path(ctx.dir)
        ctx.desc.append(('existing', there))
        missing = not there and ctx.flag('directory missing')
        d = root / 'chk'
        if not missing:
            d.mkdir()
        for n in there:
            if isdir:
                (d / n).mkdir()
            else:
                (d / n).write_text('mine')
        control = CheckpointingControl(naming_format=fmt, checkpointing_dir=d)
        counted = '%(count)' in fmt
        for n in vs:
            ctx.eq(control.matches_naming_format(n), bool(match(fmt, n)), 'match', f'format {fmt!r}, name {n!r}')
        taken = {int(i) for n in there for i in match(fmt, n) if i is not None}
        highest = max(taken, default=-1)
        for step in range(2):
            name = control.get_name()
            want = expand(fmt, ctx.w.wall() if hasattr(ctx.w, 'wall') else __import__('time').time(), highest + 1)
            ctx.eq(name, want, 'name', 'new name')
            ctx.true(bool(match(fmt, name)) and control.matches_naming_format(name) and
                     control.matches_naming_format(name + '.tar.gz'), 'own-name', f'{name!r} does not match {fmt!r}')
            if counted:
                ctx.true(name not in there and name + '.tar.gz' not in there, 'reuse', f'{name!r} exists already')
            highest += 1
            if counted:
                ctx.true(not {n for n in os.listdir(d)} & {name, name + '.tar.gz'} if d.exists() else True, 'reuse',
                         f'{name!r} exists already')
            d.mkdir(exist_ok=True)
            (d / (name + '.tar.gz')).write_text('x')
            ctx.w.sleep(ctx.pick((0.0, 1.0, 86399.0), 'wait') if make else 1.0)
            if not counted:
                highest = -1
        ctx.note(fmt, name)
        ctx.see(fmt, tuple(sorted(there)))
    return fn


FOREIGN = ['notes.txt', 'chk_001.tar.gz.bak', 'chk_1.tar.gz', 'xchk_001.tar.gz', 'chk_002', 'chk_003/inner.txt',
           'chk_004.tar.gz/inner.txt', 'chk_005.tar', 'other_000.tar.gz', 'chk_abc.tar.gz', 'sub/chk_000.tar.gz']


def listing(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in Path(d).rglob('*') if p.is_file()}


def keep(depth, formats=('chk_%(count)',), foreign=2, waits=(1.0,)):
    """ Sequences of checkpoints: exactly the newest ones survive and no other file changes. """
    def fn(ctx):
        fmt = ctx.pick(formats, 'format')
        k = ctx.pick((-1, 0, 1, 2), 'keep_past')
        d = Path(ctx.dir) / 'chk'
        d.mkdir()
        # what is there before: foreign files and earlier checkpoints
        f = ctx.pick(range(0, len(FOREIGN) + 1), 'foreign') if foreign else 0
        picked = FOREIGN if f == len(FOREIGN) else [FOREIGN[f]]
        for n in picked:
            (d / n).parent.mkdir(parents=True, exist_ok=True)
            (d / n).write_text('mine ' + n)
        earlier = ctx.pick(range(0, 4), 'earlier')
        t0 = __import__('time').time()
        alive = []  # oldest first
        # numbers of earlier checkpoints need not be in order of age
        order = ctx.flag('numbered against age') if earlier > 1 else False
        for i in range(earlier):
            n = expand(fmt, 1234567890.0 + 40 * 86400 * i, (earlier - i if order else i) + 10) + '.tar.gz'
            (d / n).write_text('earlier')
            os.utime(d / n, (t0 - 1000 + i, t0 - 1000 + i))
            alive.append(n)
        foreign_then = {n: c for n, c in listing(d).items() if n not in alive}
        root_then = listing(ctx.dir)
        control = CheckpointingControl(naming_format=fmt, checkpointing_dir=d, keep_past=k,
                                       raise_checkpoint_fail=True)
        m = GloMPOManager()
        m.setup(task, [(0, 1)], NoOpts(), ctx.dir, checkpoint_control=control, summary_files=0)
        for step in range(depth):
            content = dict(listing(d))
            ctx.w.sleep(ctx.pick(waits, 'wait') if len(waits) > 1 else waits[0])
            before = set(listing(d))
            m.checkpoint()
            now = listing(d)
            made = [n for n in now if n not in before or (n in content and now[n] != content[n])]
            if '%(count)' in fmt:
                ctx.true(len(made) == 1 and made[0] not in before, 'one', f'checkpoint {step} made {made}')
            if len(made) != 1:
                ctx.true(bool(made), 'none', f'checkpoint {step}: no new file in {sorted(now)}')
                return
            new = made[0]
            ctx.true(bool(match(fmt, new)) and new.endswith('.tar.gz'), 'name', f'checkpoint is called {new!r}')
            t = __import__('time').time()
            os.utime(d / new, (t, t))
            past = [a for a in alive if a != new]
            survivors = past + [new] if k < 0 else (past[len(past) - min(k, len(past)):] + [new])
            # foreign names which really are checkpoints of this format count by their age (now): they are the newest
            alive = survivors
            got = {n for n in now if n not in foreign_then}
            ctx.eq(sorted(got), sorted(alive), 'survivors', f'after checkpoint {step} (keep_past {k})')
            for n, c in foreign_then.items():
                ctx.true(now.get(n) == c, 'foreign', f'{n!r} was {"changed" if n in now else "deleted"}')
            ctx.see(k, len(alive), step)
        for n, c in root_then.items():
            if not n.startswith('chk' + os.sep):
                ctx.true(listing(ctx.dir).get(n) == c, 'foreign', f'{n!r} was harmed')
        left = [p for p in d.iterdir() if p.name not in {n.split('/')[0] for n in listing(d)}]
        ctx.true(not left, 'left', f'left behind: {[p.name for p in left]}')
        ctx.note(tuple(sorted(alive)))
    return fn


# ---------------------------------------------------------------------------------------------------------------- P28
RESULTS = ['glompo_manager_log.yml', 'trajectories.png', 'trajectories_log.png', 'opt1_parms.png', 'opt12_parms.png',
           'glompo_log.h5']
USER = ['glompo_manager_log.yml.bak', 'my_glompo_manager_log.yml', 'glompo_manager_log_old.yml', 'glompo_manager_log.yaml',
        'trajectories_mine.png', 'trajectories.pdf', 'my_trajectories.png', 'optimal_parms.png', 'opt1_parms.csv',
        'opt_fit_parms.png', 'glompo_log.h5.bak', 'glompo_log_old.h5', 'my_glompo_log.h5', 'data.h5', 'figure.png',
        'results.yml', 'sub/glompo_manager_log.yml', 'sub/glompo_log.h5', 'sub/trajectories.png', 'checkpoints/a.tar.gz',
        'glompo_optimizer_printstreams_old/printstream_0001.out', 'empty_dir/', 'printstream_0001.out']


def put(root, n):
    p = root / n
    if n.endswith('/'):
        p.mkdir(parents=True)
    else:
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text('content of ' + n)


def tree(root):
    out = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for f in files:
            out[os.path.normpath(os.path.join(rel, f))] = Path(base, f).read_bytes()
        if not dirs and not files:
            out[os.path.normpath(rel) + '/'] = b''
    return out


def purge(results, user, levels, one_user=True):
    def fn(ctx):
        over = ctx.flag('overwrite')
        level = ctx.pick(levels, 'summary')
        split = ctx.flag('split') if len(levels) > 1 else False
        there = [r for r in results if ctx.flag(r)] if len(results) > 1 else list(results)
        streams = ctx.flag('old printstreams') if there else False
        mine = [ctx.pick(user, 'user')] if one_user else list(user)
        root = Path(ctx.dir) / 'work'
        root.mkdir()
        outside = ['glompo_manager_log.yml', 'glompo_log.h5', 'trajectories.png']
        for n in outside:
            put(Path(ctx.dir), n)
        for n in there + mine:
            put(root, n)
        if streams:
            put(root, 'glompo_optimizer_printstreams/printstream_0001.out')
        before = tree(ctx.dir)
        m = GloMPOManager()
        m.setup(task, [(0, 1)], NoOpts(), root, overwrite_existing=over, summary_files=level, split_printstreams=split)
        try:
            m.start_manager()
        except FileExistsError:
            ctx.true(not over and there, 'refused', 'refused to start')
            after = tree(ctx.dir)
            ctx.true(after == before, 'touched', 'a refused run changed the directory: '
                     f'{sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}')
            ctx.note('refused')
            ctx.see(tuple(there), tuple(mine), over)
            return
        finally:
            f = getattr(m.opt_log, 'pytab_file', None)
            if f is not None and f.isopen:
                f.close()
        ctx.true(over or not there, 'accepted', f'started over earlier results {there} although not allowed to')
        after = tree(ctx.dir)
        for n in mine:
            key = os.path.normpath('work/' + n) + ('/' if n.endswith('/') else '')
            ctx.true(after.get(key) == before[key], 'harmed', f'{n!r} was {"changed" if key in after else "deleted"}')
        for n in outside:
            ctx.true(after.get(n) == before[n], 'outside', f'{n!r} outside the working directory was harmed')
        for n in there:
            key = os.path.normpath('work/' + n)
            ctx.true(after.get(key) != before[key], 'stale', f'the earlier {n!r} is still there after the run')
        if streams:
            key = 'work/glompo_optimizer_printstreams/printstream_0001.out'
            ctx.true(key not in after, 'stale', 'earlier print streams are still there')
        for lv, n in ((1, 'glompo_manager_log.yml'), (3, 'glompo_log.h5')):
            ctx.eq(os.path.exists(root / n), level >= lv, 'written', f'{n} at summary_files={level}')
        ctx.eq((root / 'glompo_optimizer_printstreams').is_dir(), split, 'written', 'directory of print streams')
        ctx.note('ran', sorted(after))
        ctx.see(tuple(there), tuple(mine), over)
    return fn


def p15(tier):
    u = [SeqUnit('names', names(FORMATS, 2, False)),
         SeqUnit('names-wait', names(FORMATS, 1, True)),
         SeqUnit('keep', keep(3)),
         SeqUnit('keep-formats', keep(3, formats=('glompo_checkpoint_%(date)_%(time)', '%(count)', 'a+(b)_%(count)',
                                                  '%(date)_%(count)', '%(yr)%(month)'), foreign=0,
                                      waits=(0.0, 90000.0) if tier == 'quick' else (0.0, 1.0, 90000.0)))]
    if tier == 'thorough':
        u += [SeqUnit('names-3', names(FORMATS, 3, False)),
              SeqUnit('keep-5', keep(5, waits=(0.0, 1.0)))]
    return u


def p28(tier):
    u = [SeqUnit('alone', purge([], USER, (0, 1, 2))),
         SeqUnit('with-log', purge(['glompo_manager_log.yml'], USER, (0, 1, 2))),
         SeqUnit('with-all', purge(RESULTS, USER, (1,), one_user=False)),
         SeqUnit('with-each', purge(RESULTS, USER, (0,))) if tier == 'thorough' else
         SeqUnit('with-h5', purge(['glompo_log.h5'], USER, (1,))),
         SeqUnit('file-log', purge(['glompo_manager_log.yml', 'trajectories.png', 'glompo_log.h5'], USER, (3,),
                                   one_user=False))]
    if tier == 'thorough':
        u += [SeqUnit('file-log-each', purge(['glompo_manager_log.yml', 'glompo_log.h5'], USER, (3,)))]
    return u


PROPS = {
    'P15': dict(units=p15),
    'P28': dict(units=p28),
}
