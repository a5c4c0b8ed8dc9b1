"""P17: the caching queue under every interleaving of its users, at every lock operation and every access of the shared
attributes."""
import queue
import sys
import threading

from . import kernel
from .explore import Outcome
from .kernel import World
from .seq import Sink

from glompo.core._backends import ChunkingQueue


class AttrQueue(ChunkingQueue):
    """ Offers a preemption at every access of the state shared by the users of the queue. """
    def __getattribute__(self, name):
        if name in ('cache', 'fast_func'):
            w = kernel.WORLD
            if w is not None and w.current is not None and w.data.get('attr'):
                w.point('get ' + name)
        return super().__getattribute__(name)

    def __setattr__(self, name, value):
        if name in ('cache', 'fast_func'):
            w = kernel.WORLD
            if w is not None and w.current is not None and w.data.get('attr'):
                w.point('set ' + name)
        super().__setattr__(name, value)


OPS = {
    'put': lambda q, i: q.put(i),
    'now': lambda q, i: q.put_nowait(i),
    'in': lambda q, i: q.put_incache(i),
    'try': lambda q, i: q.put(i, False),
    'wait': lambda q, i: q.put(i, True, 0.5),
    'flush': lambda q, i: q.flush(),
    'tryflush': lambda q, i: q.flush(False),
    'cache?': lambda q, i: q.has_cache(),
    'nap': lambda q, i: kernel.WORLD.point('pause', kernel._never, 0.31),  # the reader has just waited in vain
}
NO_ITEM = ('flush', 'tryflush', 'cache?', 'nap')


class QueueUnit:
    """ programs: list of lists of ops, one per producer; `consumer` says how the reading side behaves. """

    def __init__(self, name, programs, budget, sizes=((1, 2),), attr=False, lag=(0,), reads=('get',), started=(False,)):
        self.name, self.programs, self.budget, self.attr = name, programs, budget, attr
        self.sizes, self.lag, self.reads, self.started = sizes, lag, reads, started

    def run(self, prefix):
        w = World(prefix, fine=True, horizon=4000)
        w.data['attr'] = False
        st = dict(chunks=[], done={}, full=set(), over=0)
        saved = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = Sink()
        try:
            w.run(lambda: self.main(w, st))
        finally:
            sys.stdout, sys.stderr = saved
        t = w.tasks[0]
        if isinstance(t.exc, kernel.Divergence):
            raise t.exc
        viol = [(k, m + self.text(st)) for k, m in w.problems]
        for t in w.tasks:
            if t.exc is not None:
                viol.append(('exception', f'{t.name} raised {t.exc!r}' + self.text(st)))
        if not viol and 'prog' in st:
            viol = [(k, m + self.text(st)) for k, m in self.judge(st)]
        return Outcome(w.trace, viol, w.steps, w.states | {hash(repr(st['chunks']))},
                       sample=None if prefix else dict(unit=self.name, case=self.text(st)),
                       stats={'outcomes': {hash(repr((st['chunks'], st.get('prog'))))}})

    def text(self, st):
        return f" [programs {st.get('prog')}, size {st.get('size')}, lag {st.get('lagging')}, read by " \
               f"{st.get('read')}, chunks {st['chunks']}, full {sorted(st['full'])}]"

    def main(self, w, st):
        st['prog'] = prog = self.programs[w.choose_value(len(self.programs), 'program')]
        st['size'] = size = self.sizes[w.choose_value(len(self.sizes), 'size')]
        st['lagging'] = lag = self.lag[w.choose_value(len(self.lag), 'lag')]
        st['read'] = read = self.reads[w.choose_value(len(self.reads), 'reads')]
        started = self.started[w.choose_value(len(self.started), 'started')]
        q = AttrQueue(*size)
        st['q'] = q
        if started:  # caching already on
            q.put_incache(-1)
            q.flush()
            st['chunks'].append(list(q.get()))

        def producer(k, ops):
            for n, op in enumerate(ops):
                item = (k, n)
                try:
                    OPS[op](q, item)
                    st['done'].setdefault(k, []).append((n, op))
                except queue.Full:
                    st['full'].add(item)
                    if op not in NO_ITEM and not q.cache:
                        st.setdefault('rejected', set()).add(item)

        def hook(_):
            if 0 < size[0] < len(q.queue):
                st['over'] = max(st['over'], len(q.queue))

        w.hook = hook
        w.data['attr'] = self.attr
        ths = [threading.Thread(target=producer, args=(k, ops), name=f'P{k}') for k, ops in enumerate(prog)]
        for t in ths:
            t.start()
        if lag:
            w.sleep(lag)
        got = st['chunks']
        while any(t.is_alive() for t in ths) or not q.empty():
            try:
                if read == 'get':
                    got.append(list(q.get(True, 0.3)))
                elif read == 'nowait':
                    got.append(list(q.get_nowait()))
                else:
                    if not q.empty():
                        got.append(list(q.get()))
                    else:
                        w.sleep(0.05)
            except queue.Empty:
                if read == 'nowait':
                    w.sleep(0.05)
        w.data['attr'] = False
        if read == 'get':  # nothing is being put any more: waiting in vain must bring what is left
            try:
                while True:
                    got.append(list(q.get(True, 0.3)))
            except queue.Empty:
                if q.cache:
                    w.problems.append(('held-back', f'{len(q.cache)} items stay in the cache of an idle queue'))
        if q.has_cache():
            q.flush()
        n = 0
        while not q.empty():
            got.append(list(q.get_nowait()))
            n += 1
        if q.has_cache() or not q.empty():
            w.problems.append(('leftover', f'still {len(q.cache)} items cached and {q.qsize()} chunks queued after a '
                                           f'flush and reading everything'))
        st['end'] = True

    def judge(self, st):
        prog = st['prog']
        flat = [tuple(i) for c in st['chunks'] for i in c if i != -1]
        for k, ops in enumerate(prog):
            mine = [n for p, n in flat if p == k]
            put = [n for n, op in enumerate(ops) if op not in NO_ITEM]
            if len(set(mine)) != len(mine):
                yield 'duplicate', f'producer {k} put {put}, {mine} came out'
            for n in put:
                if n not in mine and (k, n) not in st['full']:
                    yield 'lost', f'item {n} of producer {k} never came out'
            if set(mine) - set(put):
                yield 'invented', f'producer {k} put {put}, {mine} came out'
            if mine != sorted(mine):
                yield 'order', f'the items of producer {k} came out as {mine}'
        if st['over']:
            yield 'overfull', f"{st['over']} chunks were queued, the limit is {st['size'][0]}"
        if not any(op == 'in' for ops in prog for op in ops):
            big = [c for c in st['chunks'] if len(c) > st['size'][1]]
            # (`put` and `flush` empty the cache: at most one group)
            if big and not any(op in ('put', 'try', 'wait') for ops in prog for op in ops):
                yield 'chunk-size', f"a chunk of {len(big[0])} items"
        if not st.get('end'):
            yield 'stuck', 'the reader did not get to the end'


def progs(ops, lens, sym=True):
    import itertools
    seqs = [[list(p) for p in itertools.product(ops, repeat=n)] for n in lens]
    out = []
    for combo in itertools.product(*seqs):
        if sym and list(combo) != sorted(combo) and len(set(lens)) == 1:
            continue
        out.append(list(combo))
    return out


def u17(tier):
    t = tier == 'thorough'
    real = ('now', 'put')
    allops = ('now', 'put', 'in', 'try', 'wait', 'flush')
    us = [
        # alone, every mix
        QueueUnit('alone', progs(allops, (4 if t else 3,)), dict(s=1), sizes=((1, 2), (2, 3)), lag=(0, 1.0),
                  reads=('get', 'nowait', 'poll'), started=(False, True)),
        # what optimizers do: results without waiting, then the end marker
        QueueUnit('optimizers', [[['now'] * 3 + ['put'], ['now'] * 2 + ['put']], [['now'] * 4, ['put']],
                                 [['now'] * 3, ['now'] * 3]],
                  dict(s=3 if t else 2), sizes=((1, 2), (2, 2)), lag=(0, 1.0), started=(False, True)),
        QueueUnit('optimizers-fine', [[['now'] * 2 + ['put'], ['now'] * 2 + ['put']]],
                  dict(s=3 if t else 2), sizes=((1, 2),), attr=True, lag=(0, 1.0), started=(False, True)),
        # two producers, every mix of two operations each
        QueueUnit('pairs', progs(allops, (2, 2)), dict(s=2 if t else 1), sizes=((1, 2),), lag=(0, 1.0),
                  started=(False, True)),
        QueueUnit('pairs-fine', progs(('now', 'put', 'in', 'flush'), (2, 2)), dict(s=2 if t else 1), sizes=((1, 2),),
                  attr=True, started=(False, True)),
        QueueUnit('flusher', [[['now'] * 3, ['flush', 'tryflush', 'flush']], [['now', 'put', 'now'], ['flush', 'flush']],
                              [['in', 'in'], ['flush', 'now']]], dict(s=2), sizes=((1, 2), (2, 2)), lag=(0, 1.0)),
        QueueUnit('three', [[['now', 'now'], ['now', 'put'], ['now', 'put']]], dict(s=2 if t else 1), sizes=((1, 2),),
                  lag=(0, 1.0)),
        QueueUnit('unlimited', [[['now'] * 3, ['now', 'put']]], dict(s=2), sizes=((0, 2), (3, 1)), lag=(0, 1.0)),
        # a producer goes on in the very moment in which the reader has waited in vain
        QueueUnit('naps', [[['nap'] + ['now'] * 3], [['now'] * 3 + ['nap', 'now', 'now', 'now']], [['now', 'nap', 'now', 'now', 'put']],
                           [['nap', 'now', 'now'], ['nap', 'now', 'nap', 'now']]], dict(s=3 if t else 2), sizes=((1, 2), (2, 2)),
                  started=(False, True)),
        QueueUnit('naps-fine', [[['nap'] + ['now'] * 3]], dict(s=3 if t else 2), sizes=((1, 2),), started=(True,), attr=True),
    ]
    return us


PROPS = {
    'P17': dict(units=u17),
}
