"""The force-field interface (P41). The ParAMS library it belongs to is not installed: small stand-ins take the place of
its parameter sets, data sets and job collections."""
import itertools
import json
import sys
import types
import warnings
from pathlib import Path

import numpy as np

from .seq import SeqUnit, Stop

INF = float('inf')


# ---- stand-ins ------------------------------------------------------------------------------------------------------
class ResultsError(Exception):
    pass


class DataSetEvaluationError(Exception):
    pass


class Par:
    def __init__(self, _id, name, value, range_, is_active=True, allowed=True):
        self._id, self.name, self.value, self.range = _id, name, value, tuple(range_)
        self.is_active, self.allowed = is_active, allowed

    @property
    def x(self):
        return self.value

    @x.setter
    def x(self, v):
        self.value = v


class View:
    def __init__(self, pars):
        object.__setattr__(self, 'pars', pars)

    def __iter__(self):
        return iter(self.pars)

    def __len__(self):
        return len(self.pars)

    names = property(lambda s: [p.name for p in s.pars])
    range = property(lambda s: [p.range for p in s.pars])

    @property
    def x(self):
        return [p.value for p in self.pars]

    @x.setter
    def x(self, v):
        assert len(v) == len(self.pars), f'{len(v)} values for {len(self.pars)} parameters'
        for p, i in zip(self.pars, v):
            p.value = float(i)


class Pars(View):
    """ A parameter set; `path` names a file written by `write`. """

    def __init__(self, path, bounds_scale=None):
        super().__init__([Par(i, *d) for i, d in enumerate(json.loads(Path(path).read_text()))])
        object.__setattr__(self, 'loaded', (str(path), bounds_scale))

    @classmethod
    def of(cls, *pars):
        self = cls.__new__(cls)
        View.__init__(self, [Par(i, *p) for i, p in enumerate(pars)])
        return self

    def __getitem__(self, i):
        if isinstance(i, str):
            return {p.name: p for p in self.pars}[i]
        return self.pars[i]

    @property
    def is_active(self):
        return [p.is_active for p in self.pars]

    @is_active.setter
    def is_active(self, v):
        assert len(v) == len(self.pars) and all(isinstance(i, (bool, np.bool_)) for i in v), v
        for p, i in zip(self.pars, v):
            p.is_active = bool(i)

    active = property(lambda s: View([p for p in s.pars if p.is_active]))
    _name_to_allidx = property(lambda s: {p.name: p._id for p in s.pars})

    def _get_active(self):
        return [p.allowed for p in self.pars]

    def get_engine(self, x):
        assert len(x) == len(self.active), f'{len(x)} values for {len(self.active)} active parameters'
        it = iter(x)
        eng = types.SimpleNamespace()
        eng.settings = [float(next(it)) if p.is_active else p.value for p in self.pars]
        return eng

    def text(self, x=None):
        it = iter(x) if x is not None else None
        return json.dumps([(p.name, float(next(it)) if it and p.is_active else p.value, p.range, p.is_active, p.allowed)
                           for p in self.pars])

    def write(self, path, parameters=None):
        p = Path(path)
        (p / 'xtb' if p.is_dir() else p).write_text(self.text(parameters))

    def pickle_dump(self, path):
        Path(path).write_text(self.text())

    @classmethod
    def pickle_load(cls, path):
        return cls(path)

    def read_paramsfile(self, path):
        for p, d in zip(self.pars, json.loads(Path(path).read_text())):
            p.is_active, p.range = d[0], tuple(d[1])


class XTBPars(Pars):
    def __init__(self, path):
        super().__init__(str(Path(path, 'xtb')))


class Entry:
    def __init__(self, key, ref, weight, sigma):
        self.key, self.ref, self.weight, self.sigma = key, ref, weight, sigma
        self.jobids = {'job_' + key}


class DataSet:
    def __init__(self, *entries):
        self.entries = [Entry(*e) for e in entries]
        self.fails = None
        self.loads = []

    def __len__(self):
        return len(self.entries)

    def __iter__(self):
        return iter(self.entries)

    def __getitem__(self, i):
        if isinstance(i, str):
            return {e.key: e for e in self.entries}[i]
        return self.entries[i]

    def __delitem__(self, ids):
        self.entries = [e for n, e in enumerate(self.entries) if n not in set(ids)]

    def get(self, what):
        return [getattr(e, what) for e in self.entries]

    def forces(self):
        return [e for e in self.entries if 'force' in e.key]

    def residuals(self, results):
        return [e.ref - (n + 1) * sum((k + 1) * v for k, v in enumerate(results)) for n, e in enumerate(self.entries)]

    def evaluate(self, results, loss, return_residuals):
        if self.fails:
            raise self.fails
        r = np.array([self.residuals(results)])
        w, s = np.array([self.get('weight')]), np.array([self.get('sigma')])
        c = w * (r / s) ** 2 * getattr(loss, 'factor', 1.0)
        return float(c.sum()), r, c

    def check_consistency(self, jobs):
        return [n for n, e in enumerate(self.entries) if e.key not in jobs.keys]

    def text(self):
        return json.dumps([(e.key, e.ref, e.weight, e.sigma) for e in self.entries])

    def _store(self, how, path):
        Path(path).write_text(json.dumps([how, self.text()]))

    def _load(self, how, path):
        kind, text = json.loads(Path(path).read_text())
        assert kind == how, f'{path} read as {how}'
        self.loads.append(Path(path).name)
        self.entries = [Entry(*e) for e in json.loads(text)]

    store = lambda s, p: s._store('yml', p)
    pickle_dump = lambda s, p: s._store('pkl', p)
    load = lambda s, p: s._load('yml', p)
    pickle_load = lambda s, p: s._load('pkl', p)


class Jobs:
    def __init__(self, *keys):
        self.keys = list(keys)
        self.fails = None
        self.ran = []
        self.loads = []

    def run(self, settings, parallel=None):
        self.ran.append((list(settings), parallel))
        if self.fails:
            raise self.fails
        return list(settings)

    def _store(self, how, path):
        Path(path).write_text(json.dumps([how, self.keys]))

    def _load(self, how, path):
        kind, keys = json.loads(Path(path).read_text())
        assert kind == how, f'{path} read as {how}'
        self.loads.append(Path(path).name)
        self.keys = keys

    store = lambda s, p: s._store('yml', p)
    pickle_dump = lambda s, p: s._store('pkl', p)
    load = lambda s, p: s._load('yml', p)
    pickle_load = lambda s, p: s._load('pkl', p)


class Levels:
    def __init__(self, **kw):
        self.kw = kw


class Step:
    def __init__(self, cbs=None):
        self.cbs, self.v, self.asked = cbs, True, []

    def __call__(self, x):
        self.asked.append(list(x))
        return sum(x)


class ParamsOpt:
    pass


class ParamsResult:
    def __init__(self):
        self.x, self.fx, self.success = None, INF, False


def _settings(path):
    s = types.SimpleNamespace(path=path)
    s.input = types.SimpleNamespace(ams=types.SimpleNamespace(properties=types.SimpleNamespace(gradients=False)))
    return s


def _trainset(path):
    ds = DataSet()
    ds.load(path)
    return ds


def _geo(path, settings):
    jc = Jobs(*json.loads(Path(path).read_text()))
    jc.settings = settings
    return jc


MODS = {
    'scm.params.common._version': dict(__version__='0.5.1'),
    'scm.params.common.parallellevels': dict(ParallelLevels=Levels),
    'scm.params.common.reaxff_converter': dict(geo_to_params=_geo, trainset_to_params=_trainset),
    'scm.params.core.dataset': dict(DataSet=DataSet, SSE=type('SSE', (), {}), DataSetEvaluationError=DataSetEvaluationError),
    'scm.params.core.jobcollection': dict(JobCollection=Jobs),
    'scm.params.core.opt_components': dict(_Step=Step),
    'scm.params.optimizers.base': dict(BaseOptimizer=ParamsOpt, MinimizeResult=ParamsResult),
    'scm.params.parameterinterfaces.base': dict(BaseParameters=Pars),
    'scm.params.parameterinterfaces.reaxff': dict(ReaxParams=Pars),
    'scm.params.parameterinterfaces.xtb': dict(XTBParams=XTBPars),
    'scm.plams.core.errors': dict(ResultsError=ResultsError),
    'scm.plams.interfaces.adfsuite.reaxff': dict(reaxff_control_to_settings=_settings),
}
_added = []
for _name, _attrs in MODS.items():
    _parts = _name.split('.')
    for _k in range(1, len(_parts) + 1):
        _m = '.'.join(_parts[:_k])
        if _m not in sys.modules:
            sys.modules[_m] = types.ModuleType(_m)
            sys.modules[_m].__path__ = []
            _added.append(_m)
    sys.modules[_name].__dict__.update(_attrs)
from glompo.interfaces import params as P  # noqa: E402
from glompo.common.namedtuples import Result  # noqa: E402
for _m in _added:
    del sys.modules[_m]

RANGES = ((0.0, 1.0), (-2.0, 3.0), (5.0, 5.5), (-4.0, -1.0))


def par_set(ctx, nmax, mask=True, allowed=False):
    n = ctx.pick(range(1, nmax + 1), 'parameters')
    k = ctx.pick(range(len(RANGES)), 'ranges')
    act = [ctx.flag('active') if mask else True for _ in range(n)]
    ok = [ctx.flag('allowed') if allowed else True for _ in range(n)]
    rs = [RANGES[(i + k) % len(RANGES)] for i in range(n)]
    return Pars.of(*[(f'p{i}', rs[i][0] + (rs[i][1] - rs[i][0]) / 4, rs[i], act[i], ok[i]) for i in range(n)])


def task(pars, ds=None, jc=None, cls=None, **kw):
    return (cls or P.BaseParamsError)(ds, jc, pars, **kw)


# ---- units ----------------------------------------------------------------------------------------------------------
def indices(nmax, lmax):
    def fn(ctx):
        pars = par_set(ctx, nmax)
        t = task(pars)
        act = [p._id for p in pars.pars if p.is_active]
        n = len(pars.pars)
        ctx.eq(t.n_parms, len(act), 'counts', 'active parameters')
        ctx.eq(t.n_all_parms, n, 'counts', 'all parameters')
        ctx.eq(list(t.active_abs_indices), act, 'indices', 'active indices')
        ctx.eq(list(t.active_names), [f'p{i}' for i in act], 'indices', 'active names')
        ctx.eq([tuple(b) for b in t.bounds], [(0, 1)] * len(act), 'bounds', 'bounds')
        m = ctx.pick(range(lmax + 1), 'asked')
        ask = [ctx.pick(range(n), 'index') for _ in range(m)]
        want = [act.index(i) if i in act else None for i in ask]
        rel = t.convert_indices_abs2rel(ask)
        ctx.eq(list(rel), want, 'indices', f'{ask} of active {act}')
        good = [i for i in ask if i in act]
        ctx.eq(list(t.convert_indices_rel2abs([act.index(i) for i in good])), good, 'indices', 'back to absolute')
        ctx.note(tuple(act), tuple(want))
    return fn


def scaling(nmax):
    def fn(ctx):
        pars = par_set(ctx, nmax)
        t = task(pars)
        n, act = len(pars.pars), [p for p in pars.pars if p.is_active]
        length = ctx.pick(range(1, n + 2), 'length')
        x = [ctx.pick((0.0, 0.25, 1.0, 1.5), 'x') for _ in range(length)]
        if length == len(act):
            over = act
        elif length == n:
            over = pars.pars
        else:
            for f in (t.convert_parms_real2scaled, t.convert_parms_scaled2real):
                ctx.raises(ValueError, lambda: f(x), 'length', f'{length} values')
            return
        before = [p.value for p in pars.pars]
        want = [p.range[0] + (p.range[1] - p.range[0]) * v for p, v in zip(over, x)]
        real = t.convert_parms_scaled2real(x)
        ctx.true(len(real) == length and np.allclose(real, want, 0, 1e-12), 'scaling', f'{x} became {real}, not {want}')
        back = t.convert_parms_real2scaled(real)
        ctx.true(len(back) == length and np.allclose(back, x, 0, 1e-9), 'scaling', f'{x} became {back} there and back')
        ctx.eq([p.value for p in pars.pars], before, 'changed', 'parameters after a conversion')
        ctx.note(tuple(want))
    return fn


def setting(nmax):
    def fn(ctx):
        pars = par_set(ctx, nmax)
        t = task(pars)
        act = [p for p in pars.pars if p.is_active]
        if not act:
            raise Stop
        full = ctx.flag('full')
        over = pars.pars if full else act
        space = ctx.pick(('real', 'scaled', 'reel'), 'space')
        x = [ctx.pick((0.25, 0.5, 0.75), 'x') for _ in over]
        want = {p.name: p.value for p in pars.pars}
        before = dict(want)
        real = [p.range[0] + (p.range[1] - p.range[0]) * v for p, v in zip(over, x)]
        want.update({p.name: v for p, v in zip(over, real)})
        if space == 'reel':
            ctx.raises(ValueError, lambda: t.set_parameters(x, space, full), 'space', 'unknown space')
            want = before
        else:
            t.set_parameters(x if space == 'scaled' else real, space, full)
        got = {p.name: p.value for p in pars.pars}
        ctx.true(all(abs(got[k] - want[k]) < 1e-9 for k in want), 'stored', f'stored {got}, expected {want}')
        ctx.note(tuple(got.values()))
    return fn


def toggles(cls, nmax, lmax):
    def fn(ctx):
        reax = cls == 'reax'
        pars = par_set(ctx, nmax, allowed=reax)
        t = task(pars, cls=P.ReaxFFError if reax else P.XTBError)
        n = len(pars.pars)
        names = ctx.flag('names')
        toggle = ctx.pick(('on', 'off', True, False, None, 'maybe'), 'toggle')
        on = toggle in ('on', True)
        m = ctx.pick(range(1, lmax + 1), 'asked')
        unknown = names and not (reax and on)
        ask = [ctx.pick(range(n + unknown), 'parameter') for _ in range(m)]
        args = [f'p{i}' if i < n else 'nobody' for i in ask] if names else ask
        kw = {}
        if reax and ctx.flag('force'):
            kw['force'] = True
        want = [p.is_active for p in pars.pars]
        bad = sorted({i for i in ask if i < n and reax and on and not pars.pars[i].allowed})
        for i in ask:
            if i < n and toggle in ('on', 'off', True, False) and (i not in bad or kw):
                want[i] = on
        if toggle in (None, 'maybe'):
            ctx.raises(ValueError, lambda: t.toggle_parameter(args, toggle, **kw), 'toggle', f'toggle {toggle!r}')
        else:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                t.toggle_parameter(args, toggle, **kw)
            if bad and not kw:
                ctx.true(any('never be activated' in str(w.message) for w in ws), 'warning', f'{bad} ignored silently')
            if any(i == n for i in ask):
                ctx.true(any('not recognised' in str(w.message) for w in ws), 'warning', 'unknown name ignored silently')
            if not bad and n not in ask:
                ctx.eq(len(ws), 0, 'warning', f'{[str(w.message) for w in ws]}')
        ctx.eq(list(pars.is_active), want, 'toggle', f'active after toggling {args} {toggle!r}')
        ctx.note(tuple(want))
    return fn


def history(cls, n, depth):
    """ Whatever was done before, every question is answered for the parameters as they are now. """
    def fn(ctx):
        reax = cls == 'reax'
        pars = Pars.of(*[(f'p{i}', RANGES[i][0] + 0.125, RANGES[i], i < 2, True) for i in range(n)])
        t = task(pars, cls=P.ReaxFFError if reax else P.XTBError)

        def ask(when):
            act = [p for p in pars.pars if p.is_active]
            ids = [p._id for p in act]
            ctx.eq((t.n_parms, t.n_all_parms), (len(act), n), 'counts', f'parameters {when}')
            ctx.eq(list(t.active_abs_indices), ids, 'indices', f'active {when}')
            ctx.eq(list(t.active_names), [p.name for p in act], 'indices', f'active names {when}')
            ctx.eq(len(t.bounds), len(ids), 'bounds', f'bounds {when}')
            ctx.eq(list(t.convert_indices_abs2rel(range(n))), [ids.index(i) if i in ids else None for i in range(n)],
                   'indices', f'relative {when}')
            ctx.eq(list(t.convert_indices_rel2abs(range(len(ids)))), ids, 'indices', f'absolute {when}')
            for over in (act, pars.pars):
                if over:
                    x = [0.25 + 0.5 * (k % 2) for k in range(len(over))]
                    want = [p.range[0] + (p.range[1] - p.range[0]) * v for p, v in zip(over, x)]
                    real = t.convert_parms_scaled2real(x)
                    ctx.true(len(real) == len(x) and np.allclose(real, want, 0, 1e-12), 'scaling',
                             f'{x} became {real} and not {want} {when}')
                    back = t.convert_parms_real2scaled(real)
                    ctx.true(len(back) == len(x) and np.allclose(back, x, 0, 1e-9), 'scaling',
                             f'{x} became {back} there and back {when}')

        if ctx.flag('asked first'):
            ask('at first')
        for k in range(depth):
            op = ctx.pick(('on', 'off', 'value', 'range', 'mask', 'end') if k else ('on', 'off', 'value', 'range', 'mask'), 'op')
            if op == 'end':
                break
            if op in ('on', 'off'):
                i = ctx.pick(range(n), 'which')
                want = [p.is_active for p in pars.pars]
                want[i] = op == 'on'
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    t.toggle_parameter([i], op)
                ctx.eq(list(pars.is_active), want, 'toggle', f'active after turning {i} {op}')
            elif op == 'range':
                pars.pars[0].range = (pars.pars[0].range[0] - 1, pars.pars[0].range[1] + 3)
            elif op == 'mask':  # by the user, on the parameters themselves
                a = [p.is_active for p in pars.pars]
                pars.is_active = a[-1:] + a[:-1]
            else:
                act = [p for p in pars.pars if p.is_active]
                if act:
                    t.set_parameters([0.75] * len(act), 'scaled', False)
                    for p in act:
                        ctx.true(abs(p.value - (p.range[0] + 0.75 * (p.range[1] - p.range[0]))) < 1e-9, 'stored', p.name)
            if ctx.flag('asked'):
                ask(f'after {op} ({k})')
        ask('in the end')
        ctx.note(tuple(pars.is_active))
    return fn


def data(n, base=0.0):
    return DataSet(*[(f'd{i}', base + i, (1.0, 0.5, 2.0)[i % 3], (0.1, 1.0, 2.0)[i % 3]) for i in range(n)])


def weights(nmax, lmax):
    def fn(ctx):
        n = ctx.pick(range(1, nmax + 1), 'entries')
        ds = data(n)
        t = task(Pars.of(('p', 0.0, (0, 1))), ds, Jobs(), scale_residuals=True)
        how = ctx.pick(('list', 'dict', 'none'), 'how')
        names = ctx.flag('names')
        ask = [ctx.pick(range(n), 'entry') for _ in range(ctx.pick(range(lmax + 1), 'asked'))]
        key = (lambda i: f'd{i}') if names else (lambda i: i)
        want = [e.weight for e in ds]
        if how == 'dict':
            new = {key(i): ctx.pick((0, 3.5), 'weight') for i in ask}
            t.reweigh_residuals(new, ctx.pick((None, 9.0), 'extra'))
            for i in ask:
                want[i] = new[key(i)]
        elif how == 'list':
            w = ctx.pick((0, 3.5), 'weight')
            t.reweigh_residuals([key(i) for i in ask], w)
            for i in ask:
                want[i] = w
        else:
            ctx.raises(ValueError, lambda: t.reweigh_residuals([key(i) for i in ask]), 'weights', 'no weight')
        ctx.eq([e.weight for e in ds], want, 'weights', f'after {ask}')
        if how != 'none':
            r = np.ravel(t.detailed_call([0.5])[1])
            ref = ds.residuals([0.5])
            ctx.true(np.allclose(r, [w * (a / e.sigma) ** 2 for w, a, e in zip(want, ref, ds)]), 'residuals', f'{r}')
        ctx.note(tuple(want))
    return fn


def evaluation(nmax, fails):
    def fn(ctx):
        pars = par_set(ctx, nmax)
        act = [p for p in pars.pars if p.is_active]
        if not act:
            raise Stop
        val = ctx.pick((None, 0, 2) if not fails else (None, 2), 'validation')
        ts, vs = data(ctx.pick((1, 3), 'entries')), None if val is None else data(val, 10.0)
        jc = Jobs('a')
        scale = ctx.flag('scale')
        cls = ctx.pick((P.ReaxFFError, P.XTBError), 'engine')
        t = cls(ts, jc, pars, vs, scale) if vs is not None else cls(ts, jc, pars, scale_residuals=scale)
        factor = 1.0
        if not fails and ctx.flag('own loss'):
            factor = 3.0
            t.loss = types.SimpleNamespace(factor=factor)
        x = [ctx.pick((0.0, 0.75, 1.0) if len(act) < 3 else (0.25, 1.0), 'x') for _ in act]
        given = list(x)
        real = iter([p.range[0] + (p.range[1] - p.range[0]) * v for p, v in zip(act, x)])
        full = [next(real) if p.is_active else p.value for p in pars.pars]
        broken = other = False
        if fails:
            where = ctx.pick(('jobs', 'training', 'validation') if vs else ('jobs', 'training'), 'fails in')
            exc = ctx.pick((ResultsError, DataSetEvaluationError, ZeroDivisionError), 'error')
            {'jobs': jc, 'training': ts, 'validation': vs}[where].fails = exc('broken')
            broken, other = exc is not ZeroDivisionError, exc is ZeroDivisionError
        if other:
            for f in (t, t.detailed_call, t.resids):
                ctx.raises(ZeroDivisionError, lambda: f(x), 'swallowed', 'an error of another kind')
            return
        fx, res, det = t(x), t.resids(x), t.detailed_call(x)
        ctx.eq(len(det), 2 if vs is None else 4, 'detailed', f'length of {det}')
        ctx.eq(x, given, 'changed', 'the point asked for')
        ran = [r for r, _ in jc.ran]
        ctx.true(len(ran) == 3 and all(np.allclose(r, full, 0, 1e-9) for r in ran), 'evaluated', f'{ran} instead of {full}')
        sets = [ts] if vs is None else [ts, vs]
        for k, ds in enumerate(sets):
            f, r = det[2 * k], np.ravel(det[2 * k + 1])
            if broken:
                ctx.true(f == INF and not np.isfinite(r).any(), 'failed', f'failed evaluation gives {det}')
                continue
            raw = np.array(ds.residuals(full))
            scaled = np.array([e.weight * (v / e.sigma) ** 2 for e, v in zip(ds, raw)])
            total = factor * scaled.sum()
            ctx.true(abs(f - total) <= 1e-9 * (1 + abs(f)), 'error', f'error {f} instead of {total}')
            want = scaled if scale else raw
            ctx.true(r.shape == want.shape and np.allclose(r, want), 'residuals', f'residuals {r} instead of {want}')
        ctx.eq(fx, det[0], 'differs', 'error by itself and in detail')
        ctx.true(np.array_equal(np.ravel(res), np.ravel(det[1]), equal_nan=True) if False else
                 repr(np.ravel(res).tolist()) == repr(np.ravel(det[1]).tolist()), 'differs', 'residuals alone and in detail')
        if not fails and val != 0:
            heads = sorted(t.headers().items(), key=lambda h: h[1]._v_pos)
            ctx.eq([h for h, _ in heads], ['fx', 'resids_ts', 'fx_vs', 'resids_vs'][:len(det)], 'headers', 'columns')
            ctx.eq([int(np.prod(c.shape)) for _, c in heads], [np.size(d) for d in det], 'headers', 'sizes')
        ctx.note(fx, len(det))
    return fn


FILES = {'ds': 'data_set.yml', 'jc': 'job_collection.yml', 'ff': 'ffield'}


def saving(ctx):
    d = Path(ctx.dir)
    pars = Pars.of(('p0', 0.25, (0, 1)), ('p1', 0.5, (-1, 1), False), ('p2', 2.0, (0, 4)))
    reax = ctx.flag('reax')
    t = task(pars, data(2), Jobs('a', 'b'), cls=P.ReaxFFError if reax else P.XTBError)
    names = {k: ctx.pick((None, 'other_' + k), k) for k in FILES}
    given = {k: v for k, v in names.items() if v}
    x = ctx.pick((None, [0.75, 3.0]), 'values')
    t.save(str(d) if ctx.flag('text') else d, given or ctx.pick((None, {}), 'none'), x)
    real = {k: names[k] or FILES[k] for k in FILES}
    ctx.eq(sorted(p.name for p in d.iterdir()), sorted(real.values()), 'files', 'files written')
    ds, jc = DataSet(), Jobs()
    ds.load(d / real['ds'])
    jc.load(d / real['jc'])
    ctx.eq(ds.text(), t.dat_set.text(), 'content', 'data set')
    ctx.eq(jc.keys, t.job_col.keys, 'content', 'jobs')
    ctx.eq(Pars(d / real['ff']).x, [0.25, 0.5, 2.0] if x is None else [0.75, 0.5, 3.0], 'content', 'parameters')
    ctx.eq(pars.x, [0.25, 0.5, 2.0], 'changed', 'parameters after saving')
    ctx.raises(FileNotFoundError, lambda: t.save(d / 'nowhere'), 'files', 'missing directory')


def loading(ctx):
    """ Stored by checkpoint_save or as text, or both with different contents: the pickle has priority. """
    d = Path(ctx.dir)
    reax = ctx.flag('reax')
    cls = P.ReaxFFError if reax else P.XTBError
    pars = Pars.of(('p0', 0.25, (0, 1)), ('p1', 0.5, (-1, 1), False))
    old = task(pars, data(2), Jobs('a'), cls=cls)
    new = task(pars, data(3, 5.0), Jobs('a', 'b'), cls=cls)
    have = {k: ctx.pick(('pkl', 'yml', 'both', 'none'), k) for k in ('ds', 'jc')}
    new.checkpoint_save(d)
    if not reax:
        ctx.true((d / 'xtb').exists(), 'files', 'no parameters in the checkpoint')
    for k, stem, o in (('ds', 'data_set', old.dat_set), ('jc', 'job_collection', old.job_col)):
        if have[k] in ('yml', 'both'):
            o.store(d / f'{stem}.yml')
        if have[k] in ('yml', 'none'):
            (d / f'{stem}.pkl').unlink()
    scale = ctx.flag('scale')
    load = lambda: cls.from_params_files(d, scale_residuals=scale)
    if 'none' in have.values():
        ctx.raises(FileNotFoundError, load, 'missing', f'{have}')
        return
    t = load()
    ctx.eq(type(t), cls, 'content', 'class')
    ctx.eq(t.scale_residuals, scale, 'content', 'scale_residuals')
    ctx.eq(t.dat_set.text(), (old if have['ds'] == 'yml' else new).dat_set.text(), 'content', 'data set')
    ctx.eq(t.job_col.keys, (old if have['jc'] == 'yml' else new).job_col.keys, 'content', 'jobs')
    ctx.eq(json.loads(t.par_eng.text()), json.loads(pars.text()), 'content', 'parameters')


def classic(ctx):
    d = Path(ctx.dir)
    mk = lambda vals: json.dumps([(f'p{i}', v, (-1.0, 1.0), True) for i, v in enumerate(vals)])
    start = [ctx.pick((0.5, 3.0, 0.0, 1.0)[:4 - 2 * i], 'start') for i in range(2)]
    (d / 'ffield').write_text(mk(start))
    keys = ['e0', ctx.pick(('e1', 'force1'), 'entry')]
    ds = DataSet(*[(k, 1.0, 1.0, 1.0) for k in keys])
    ds.store(d / 'trainset.in')
    jobs = [k for k in keys if ctx.flag('job')]
    (d / 'geo').write_text(json.dumps(jobs))
    (d / 'control').write_text('')
    want = [(True, (-1.0, 1.0))] * 2
    extra = [f for f in ('bool', 'min', 'max') if ctx.flag('has')]
    lo, hi = [0.0, 0.0], [1.0, ctx.pick((4.0, -1.0, 0.0), 'max')]
    act = [ctx.flag('act') for _ in range(2)] if len(extra) == 3 else [True, False]
    for f, v in (('bool', [float(a) for a in act]), ('min', lo), ('max', hi)):
        if f in extra:
            (d / f'ffield_{f}').write_text(mk(v))
    has_params = ctx.flag('params')
    version = ctx.pick(((0, 5, 0), (0, 5, 1)), 'version')
    if has_params:
        (d / 'params').write_text(json.dumps([(True, (0.0, 0.75)), (False, (2.0, 4.0))]))
    if has_params and version > (0, 5, 0):
        want = [(True, (0.0, 0.75)), (False, (2.0, 4.0))]
    elif len(extra) == 3:
        want = [(a and l < h, (l, h)) for a, l, h in zip(act, lo, hi)]
    saved = P.PARAMS_VERSION_INFO
    P.PARAMS_VERSION_INFO = version
    try:
        t = P.ReaxFFError.from_classic_files(str(d))
    finally:
        P.PARAMS_VERSION_INFO = saved
    for p, (a, r), s in zip(t.par_eng, want, start):
        ctx.eq(p.is_active, a, 'active', p.name)
        if a:
            ctx.eq(p.range, r, 'range', p.name)
            ctx.eq(p.value, s if r[0] < s < r[1] else (r[0] + r[1]) / 2, 'start', p.name)
        elif len(extra) < 3 or (has_params and version > (0, 5, 0)):
            ctx.eq(p.value, s, 'start', f'{p.name}, which is not active')
    ctx.eq([e.key for e in t.dat_set], jobs, 'entries', f'entries with jobs {jobs}')
    ctx.eq(t.job_col.settings.input.ams.properties.gradients, 'force1' in keys, 'gradients', 'gradients')


class FakeManager:
    def __init__(self, result, converged):
        self.result, self.converged, self.got = result, converged, None

    def setup(self, **kw):
        self.got = kw

    def start_manager(self):
        return self.result


def wrapper(ctx):
    x, conv = ctx.pick(([], [0.5, 1.0]), 'x'), ctx.flag('converged')
    fx = 2.0 if x else INF
    kw = {k: v for k, v in dict(task='mine', bounds='mine', max_jobs=5, summary_files=2).items() if ctx.flag(k)}
    cbs = ctx.pick((None, print), 'callbacks')
    step, sel = Step(cbs), object()
    w = P.GlompoParamsWrapper(sel, **kw)
    w.manager = m = FakeManager(Result(x, fx, {}, {}), conv)
    workers = ctx.pick((None, 3), 'workers')
    r = w.minimize(step, [0, 0], [(0, 1), (0, 2)], *([] if workers is None else [workers]))
    want = {k: v for k, v in kw.items() if k not in ('task', 'bounds')}
    want.setdefault('max_jobs', workers or 1)
    got = dict(m.got)
    f = got.pop('task')
    ctx.eq(got.pop('bounds'), [(0, 1), (0, 2)], 'bounds', 'bounds')
    ctx.true(got.pop('opt_selector') is sel, 'selector', 'selector')
    ctx.eq(got, want, 'settings', 'settings of the manager')
    ctx.eq(f([1.0, 2.0]), 3.0, 'function', 'value')
    ctx.eq(step.asked, [[1.0, 2.0]], 'function', 'calls')
    ctx.eq((step.v, step.cbs), (False, None), 'function', 'printing and callbacks')
    ctx.eq((r.x, r.fx, bool(r.success)), (x, fx, bool(conv and x)), 'result', 'result')
    ctx.true(isinstance(r, ParamsResult), 'result', 'type of the result')


def u41(tier):
    t = tier == 'thorough'
    return [
        SeqUnit('indices', indices(4 if t else 3, 3)),
        SeqUnit('scaling', scaling(4 if t else 3)),
        SeqUnit('setting', setting(4 if t else 3)),
        SeqUnit('toggles', toggles('plain', 4 if t else 3, 3 if t else 2)),
        SeqUnit('toggles-reax', toggles('reax', 3 if t else 2, 3 if t else 2)),
        SeqUnit('history', history('plain', 3, 4 if t else 3)),
        SeqUnit('history-reax', history('reax', 3, 3 if t else 2)),
        SeqUnit('weights', weights(3, 3 if t else 2)),
        SeqUnit('evaluation', evaluation(3 if t else 2, False)),
        SeqUnit('failing', evaluation(2, True)),
        SeqUnit('saving', saving),
        SeqUnit('loading', loading),
        SeqUnit('classic', classic),
        SeqUnit('wrapper', wrapper),
    ]


PROPS = {
    'P41': dict(units=u41),
}
