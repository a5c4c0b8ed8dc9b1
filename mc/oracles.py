"""Oracles over one observed execution (scen.Rec).  Each yields (key, message) pairs; the key identifies the kind of
failure, so that a listed known finding does not hide a different one."""
import math

INF = float('inf')


def lt(a, b):
    return a < b


def ended(rec):
    """ Sessions which returned a result. """
    return [s for s in rec.sessions if s.result is not None]


def is_crash(s):
    return s.result is not None and s.result.stats.get('end_cond') == 'GloMPO Crash'


def interrupted(rec, how=('interrupt', 'intmain')):
    return any(e[0] == 'fault' and e[1] in how for e in rec.w.log)


def boomed(rec):
    return any(e[0] == 'boom' for e in rec.w.log)


def o_nocrash(rec):
    """ The run must not end in an internal error which nobody injected. """
    if rec.exc is not None and not rec.cfg.get('expect_exc'):
        import traceback
        tb = ''.join(traceback.format_exception(type(rec.exc), rec.exc, rec.exc.__traceback__)[-3:])
        yield 'exception', f'the run raised {rec.exc!r}: {tb}'
    for s in ended(rec):
        if is_crash(s) and not rec.cfg.get('expect_crash'):
            w = [m for m in rec.warnings if 'Caught exception' in m]
            last = w[-1].strip().splitlines()[-1] if w else '?'
            yield 'crash', f'the run ended in an internal error: {last}'


# ---- P01 --------------------------------------------------------------------------------------------------------------
def best_of(L):
    b = INF
    for _, _, _, f in L:
        if f < b:
            b = f
    return b


def _check_best(L, fx, x, origin, where):
    b = best_of(L)
    if b == INF:
        if fx is not None and fx != INF:
            yield 'result-phantom', f'{where}: reports {fx} although nothing finite was recorded'
        return
    if fx is None or not fx == b:
        yield 'result-not-best', f'{where}: reports {fx}, but the best recorded evaluation is {b}'
        return
    cand = [(o, xx) for _, o, xx, f in L if f == b]
    if not origin or (origin.get('opt_id'), tuple(float(i) for i in x)) not in cand:
        yield 'result-mismatch', f'{where}: {fx} at {x} from {origin} is not one of the evaluations {cand}'


def o_result(rec):
    types = {}
    spec = rec.cfg['opts']
    for s in rec.sessions:
        if not s.hist_available:
            L = None
        else:
            L = s.L
        prev = INF
        for n, c in enumerate(s.checks):
            if c['fx'] is not None:
                if c['fx'] > prev:
                    yield 'result-worse', f"the incumbent went from {prev} to {c['fx']}"
                prev = c['fx']
            if L is not None:
                yield from _check_best(L[:c['nlog']], c['fx'], c['x'] or (), c['origin'], f'pass {n}')
        if s.result is not None:
            r = s.result
            if r.fx is not None and r.fx > prev:
                yield 'result-worse', f'the returned value {r.fx} is worse than the incumbent {prev}'
            if L is not None:
                yield from _check_best(L, r.fx, r.x or (), r.origin, 'returned result')
            # against what the task really computed
            if r.fx is not None and r.fx != INF:
                ev = {(e[1], e[2]): e[3] for e in rec.w.log if e[0] == 'eval'}
                k = tuple(int(i) for i in r.x)
                if ev.get(k) != r.fx or k[0] != r.origin.get('opt_id'):
                    yield 'result-untrue', f'{r.x} was never evaluated to {r.fx} by {r.origin}: {ev.get(k)}'
                want = spec_of(rec, k[0])
                if want and r.origin.get('type') != want.get('cls', 'ScriptOpt'):
                    yield 'result-type', f'type {r.origin} but optimizer {k[0]} is a {want}'
        if prev != INF and s is not rec.sessions[0]:
            pass


def spec_of(rec, i):
    """ The configuration entry optimizer i was made from (cycle selector). """
    for s in rec.sessions:
        m = getattr(s, 'spec_map', None)
        if m and i in m:
            return m[i]
    if rec.cfg.get('selector', 'cycle') != 'cycle' or rec.cfg.get('nospec'):
        return None
    if any(sp.get('workers', 1) > 1 for sp in rec.cfg['opts']):
        return None
    sp = rec.cfg['opts']
    return sp[(i - 1) % len(sp)]


# ---- P02 --------------------------------------------------------------------------------------------------------------
def normal_end(rec, s):
    """ The run ended because nothing was left to do. """
    return s.result is not None and s.checks and not s.checks[-1]['r'] and not is_crash(s) and \
        s.result.stats.get('end_cond') not in ('GloMPO Crash', 'User Interrupt')


def o_place(rec):
    """ However the directories were named, and wherever the process has gone since: everything is where it was asked for. """
    if not rec.cfg.get('paths'):
        return
    for p in sorted(rec.root.iterdir()):
        if p.name not in ('wd', 'chk', 'away', 'other', *rec.cfg.get('places', ())) and not p.name.startswith('crash_'):
            yield 'elsewhere', f'{p.name} turned up beside the working directory'
    for p in sorted((rec.root / 'away').iterdir()):
        yield 'elsewhere', f'{p.name} turned up in the current directory of the process'


def o_account(rec):
    evs = {}
    rets = {}
    multi = len(rec.sessions) > 1
    for e in rec.w.log:
        if e[0] == 'eval':
            evs.setdefault(e[1], []).append((e[2], e[3]))
        elif e[0] == 'ret':
            rets.setdefault(e[1], []).append(e[2])
    if multi:
        return
    for s in rec.sessions:
        if not s.hist_available or s.result is None:
            continue
        L = s.L
        ids = [c for c, _, _, _ in L]
        if ids != list(range(1, len(L) + 1)):
            yield 'call-ids', f'evaluation numbers are {ids}'
        if s.mgr.f_counter != len(L) or len(s.mgr.opt_log) != len(L):
            yield 'f-counter', f'{len(L)} evaluations recorded, counter {s.mgr.f_counter}, log {len(s.mgr.opt_log)}'
        r = s.result
        if L and r.stats.get('f_evals') != len(L):
            yield 'f-evals', f'result says {r.stats.get("f_evals")} evaluations, {len(L)} were recorded'
        vict = dict(s.mgr.hunt_victims)
        per = {}
        for _, o, x, f in L:
            if int(x[0]) != o:
                yield 'attribution', f'evaluation {x} of optimizer {int(x[0])} is recorded for optimizer {o}'
            per.setdefault(o, []).append((int(x[1]), f))
        for o, seq in per.items():
            e = evs.get(o, [])
            if not same(seq, e[:len(seq)]):
                yield 'order', f'optimizer {o} evaluated {e}, recorded {seq}'
        for c, cs in zip(s.checks, s.checks[1:]):
            for v in c['victims']:
                late = [i for i, o, _, _ in L if o == v and i > c['nlog']]
                if late:
                    yield 'after-kill', f'evaluations {late} of optimizer {v} recorded after it was killed'
        for h in s.hunts:
            if h['r']:
                late = [i for i, o, _, _ in L if o == h['victim'] and i > h['n']]
                if late:
                    yield 'after-kill', f"evaluations {late} of optimizer {h['victim']} recorded after its kill at " \
                                        f"{h['n']}"
        if normal_end(rec, s):
            for o, nums in rets.items():
                if o not in vict and len(per.get(o, ())) < len(nums):
                    yield 'lost', f'optimizer {o} finished {len(nums)} evaluations, only {len(per.get(o, ()))} are ' \
                                  f'recorded although the run ended by itself'


def same(a, b):
    if len(a) != len(b):
        return False
    for (i, f), (j, g) in zip(a, b):
        if i != j or not (f == g or (f != f and g != g)):
            return False
    return True


# ---- P03 --------------------------------------------------------------------------------------------------------------
def o_term(rec):
    for k, t in rec.w.problems:
        yield k, t
    if not rec.w.problems:
        for s in rec.sessions:
            if s.result is None and rec.exc is None:
                yield 'no-result', 'the run did not return'
            if s.result is not None and getattr(s, 'survivors', None) and not rec.cfg.get('allow_survivors'):
                yield 'survivor', f'still running after the run returned: {s.survivors}'


# ---- P04 --------------------------------------------------------------------------------------------------------------
def o_slots(rec):
    for tot, lim, ids, step in rec.over[:1]:
        yield 'over-limit', f'{tot} slots in use by optimizers {ids} with a limit of {lim} (step {step})'
    for s in rec.sessions:
        lim = s.limit
        sl = s.slots or rec.w.data['slots']
        # optimizers which may have been believed alive at a selection: alive at the last pass or started since
        passes = s.checks
        prev_alive = set(s.chk_start or ())
        k = 0
        for n, c in enumerate(passes):
            sels = s.selects[k:c['nsel']]
            k = c['nsel']
            started = set()
            base = prev_alive
            off = any(q['r'] is False for q in s.selects[:k]) or not s.spawning0
            for q in sels:
                lo = lim - sum(sl.get(i, 0) for i in base | started)
                hi = lim - q['alive'][0]
                if not lo <= q['slots'] <= hi:
                    yield 'slots-offered', f"selector offered {q['slots']} slots, between {lo} and {hi} were free"
                if q['r']:
                    started |= {e[1] for e in rec.w.log[q['li']:] if e[0] == 'opt_init'} and \
                        {next(e[1] for e in rec.w.log[q['li']:] if e[0] == 'opt_init')}
                    w_ = q['r'][1].get('workers', 1)
                    if w_ > q['slots']:
                        yield 'too-big', f"an optimizer needing {w_} slots was chosen for {q['slots']}"
            asked_out = sels and not sels[-1]['r']
            full = sum(sl.get(i, 0) for i in base | started) >= lim
            if not off and not asked_out and not full:
                yield 'idle-slots', f'pass {n}: {lim} slots allowed, at most {sorted(base | started)} running, nothing ' \
                                    f'asked of the selector'
            prev_alive = set(c['alive'])


# ---- P05 --------------------------------------------------------------------------------------------------------------
def o_hunt_sees(rec):
    """ A condition is shown the complete history of both optimizers, whatever is kept in memory. """
    log = rec.w.log
    for s in rec.sessions:
        for h in s.hunts:
            for i, got in (h['seen'] or {}).items():
                want = tuple(e[3] for e in log[:h['li']] if e[0] == 'accept' and e[1] == i)
                if repr(got) != repr(want):
                    yield 'hunt-blind', f"in the hunt at {h['f']} the history of optimizer {i} is {got}, it was {want}"
        if s.result is not None and s.hunts and s.result.stats.get('opts_killed') is not None and \
                not {h['victim'] for h in s.hunts if h['r']} <= set(s.mgr.hunt_victims):
            yield 'not-killed', f'condemned {[h["victim"] for h in s.hunts if h["r"]]}, killed {sorted(s.mgr.hunt_victims)}'


def o_hunt(rec):
    cfg = rec.cfg
    if len(rec.sessions) != 1:
        return
    s = rec.sessions[0]
    if not s.hist_available or s.result is None:
        return
    L = s.L
    kills = {h['victim']: h for h in s.hunts if h['r']}
    if not cfg.get('hunter'):
        if s.hunts or s.mgr.hunt_counter:
            yield 'hunt-off', 'hunting took place although no hunting was configured'
        return
    freq = cfg.get('hunt_frequency', 1)
    last = 0
    best, bo = INF, 0
    due = {}
    for c, o, x, f in L:
        if f < best:
            best, bo = f, o
        if bo and c - last >= freq:
            due[c] = bo
            last = c
    if s.mgr.hunt_counter != len(due):
        yield 'hunt-count', f'{len(due)} hunts were due at {sorted(due)}, {s.mgr.hunt_counter} took place'
    asked = {}
    kill_at = {}
    for h in s.hunts:
        if h['f'] not in due:
            yield 'hunt-time', f"a hunt took place at evaluation {h['f']}, due were {sorted(due)}"
            continue
        if h['hunter'] != due[h['f']]:
            yield 'hunter', f"hunt at {h['f']}: hunter {h['hunter']}, incumbent belongs to {due[h['f']]}"
        if h['victim'] == h['hunter']:
            yield 'self-hunt', f"optimizer {h['victim']} was hunted by itself"
        if not any(o == h['victim'] and c <= h['f'] for c, o, _, _ in L):
            yield 'no-points', f"optimizer {h['victim']} was hunted before its first evaluation"
        if h['victim'] in kill_at:
            yield 'hunt-dead', f"optimizer {h['victim']} was hunted again at {h['f']}, killed at " \
                               f"{kill_at[h['victim']]}"
        if h['victim'] in asked.get(h['f'], ()):
            yield 'hunt-twice', f"optimizer {h['victim']} was examined twice in one hunt"
        asked.setdefault(h['f'], set()).add(h['victim'])
        if h['r']:
            kill_at.setdefault(h['victim'], h['f'])
    # everybody eligible was examined
    ends = {}
    for n, e in enumerate(rec.w.log):
        if e[0] in ('opt_end', 'opt_exit', 'opt_crash', 'opt_fail'):
            ends.setdefault(e[1], n)
    for i, hunter in due.items():
        c = next((c for c in s.checks if c['nlog'] >= i), None)
        if c is None:
            continue
        for o in c['alive']:
            if o == hunter or o in c['victims'] or ends.get(o, 1 << 60) < c['li']:
                continue
            if not any(oo == o and cc <= i for cc, oo, _, _ in L):
                continue
            if o not in asked.get(i, ()):
                yield 'not-examined', f'optimizer {o} was running with results but was not examined in the hunt at {i}'
    user = {int(e[1].split('_')[1]) for e in rec.w.log if e[0] == 'user' and e[1].startswith('STOP_')}
    for v in s.mgr.hunt_victims:
        if v not in kill_at and v not in user:
            yield 'kill-unfounded', f'optimizer {v} was killed although no hunting condition condemned it'
    for v, at in kill_at.items():
        if v not in s.mgr.hunt_victims:
            yield 'kill-missing', f'optimizer {v} was condemned at {at} but not killed'
        h = next(h for h in s.hunts if h['victim'] == v and h['r'])
        sp = spec_of(rec, v)
        # the word reaches it a moment after the decision, and before the manager turns to anything else
        nxt = next((c['li'] for c in s.checks if c['li'] > h['li']), len(rec.w.log))
        pipe = rec.w.data.get('pipe', {})
        told = [li for c, m, li in rec.w.data.get('sent', ()) if (m == 1 or isinstance(m, tuple) and m and m[0] == 1)
                and pipe.get(id(c.other)) == v and h['li'] <= li <= nxt]
        told += [n for n, e in enumerate(rec.w.log) if e[0] == 'terminate' and e[1] == f'Opt{v}' and h['li'] <= n <= nxt]
        after = [e for e in rec.w.log[min(told, default=h['li']):] if e[0] == 'eval' and e[1] == v]
        lim = 0 if cfg.get('aggressive') and cfg.get('backend', 'processes') != 'threads' else \
            max([a[1] for a in sp['script'] if a[0] == 'B'], default=1) if sp else 1
        deaf = sp and sp.get('init', {}).get('deaf')
        if len(after) > lim and not deaf:
            yield 'kill-ignored', f'optimizer {v} made {len(after)} evaluations after it was killed'
        m = s.meta.get(v, {}).get('end_cond', '')
        if not rec.cfg.get('force', -1) > 0:
            if 'GloMPO Termination' not in m or f"Hunter: {h['hunter']}" not in m:
                yield 'kill-record', f'optimizer {v} was killed by {h["hunter"]}; recorded end condition: {m!r}'


# ---- P06 --------------------------------------------------------------------------------------------------------------
def o_life(rec):
    if len(rec.sessions) != 1:
        return
    s = rec.sessions[0]
    m = s.mgr
    if s.result is None:
        return
    log = rec.w.log
    inits = [e[1] for e in log if e[0] == 'opt_init']
    if inits != list(range(1, len(inits) + 1)):
        yield 'ids', f'optimizers were numbered {inits}'
    if not len(inits) <= m.o_counter <= len(inits) + (interrupted(rec) or boomed(rec)):
        yield 'o-counter', f'{len(inits)} optimizers were made, the counter says {m.o_counter}'
    own = {e[1] for e in log if e[0] == 'opt_end' and e[2] is None}
    silent = {e[1] for e in log if e[0] == 'opt_exit'}
    crashed = {e[1] for e in log if e[0] in ('opt_crash', 'opt_fail')} | \
              {int(e[2][3:]) for e in log if e[0] == 'fault' and e[1] == 'kill'}
    if interrupted(rec, ('interrupt',)):
        crashed |= set(inits)
    stopped = {e[1] for e in log if e[0] == 'opt_end' and e[2] is not None}
    if not s.hist_available:
        lo = 0
        if not 0 <= m.conv_counter <= len(own | silent):
            yield 'conv-counter', f'{m.conv_counter} counted as converged, {len(own | silent)} ended by themselves'
        return
    nconv = 0
    begun = {c.name for c in rec.w.data.get('children', ()) if c._task is not None}
    prevchk = s.checks[-2] if len(s.checks) > 1 else None
    reason = s.result.stats.get('end_cond')
    for i in inits:
        md = s.meta[i]
        ec = md.get('end_cond')
        if ec is None or md.get('t_stop') is None:
            if (interrupted(rec) or boomed(rec)) and f'Opt{i}' not in begun:
                continue  # the run was cut short while it was being set up
            yield 'no-end', f'optimizer {i} has no recorded end: {md}'
            continue
        if md['t_stop'] < md['t_start']:
            yield 'times', f'optimizer {i} ended before it started'
        v = i in m.hunt_victims
        if ec == f'done {i}':
            nconv += 1
            if i not in own or v:
                yield 'end-false', f'optimizer {i} is recorded as converged by itself; ended by itself: {i in own}, ' \
                                   f'killed: {v}'
        elif ec.startswith('stopped'):
            nconv += 1
            if i not in stopped:
                yield 'end-false', f'optimizer {i}: {ec!r}'
        elif 'GloMPO Termination' in ec and not ec.startswith('Forced'):
            if not v:
                yield 'end-false', f'optimizer {i} is recorded as killed but is not among the victims'
        elif 'Normal termination' in ec:
            nconv += 1
            sp = spec_of(rec, i) or {}
            if i not in silent and not sp.get('init', {}).get('silent_end') or v:
                yield 'end-false', f'optimizer {i} is recorded as ended without reason; silent: {i in silent}, ' \
                                   f'killed: {v}'
        elif 'Error termination' in ec:
            if i not in crashed or v:
                yield 'end-false', f'optimizer {i} is recorded as ended in error; crashed: {i in crashed}, killed: {v}'
        elif 'Forced GloMPO Termination' in ec:
            if not rec.cfg.get('force', -1) > 0:
                yield 'end-false', f'optimizer {i} was terminated by force, which is not allowed'
        elif ec == 'GloMPO Convergence':
            if v:
                yield 'end-false', f'optimizer {i} was killed but is recorded as ended by convergence'
            if prevchk is not None and i <= prevchk['o'] and i not in prevchk['alive']:
                yield 'end-false', f'optimizer {i} had ended a full pass before convergence but is recorded as ended ' \
                                   f'by convergence'
            if not s.checks or not (s.checks[-1]['r'] or not s.checks[-1]['alive']):
                yield 'end-false', f'optimizer {i} is recorded as ended by convergence, which did not happen'
        elif ec in ('User Interrupt', 'GloMPO Crash'):
            if reason != ec:
                yield 'end-false', f'optimizer {i}: {ec!r}, but the run ended with {reason!r}'
        else:
            yield 'end-unknown', f'optimizer {i}: {ec!r}'
        if v and 'GloMPO Termination' not in ec and not (ec == 'User Interrupt' and interrupted(rec)):
            yield 'end-false', f'optimizer {i} was killed; its recorded end is {ec!r}'
    if nconv != m.conv_counter:
        yield 'conv-counter', f'{nconv} optimizers are recorded as converged, the counter says {m.conv_counter}'
    both = [i for i in m.hunt_victims if s.meta.get(i, {}).get('end_cond') == f'done {i}']
    if both:
        yield 'end-double', f'optimizers {both} count as killed and as converged'
    st = s.result.stats
    if s.L:
        for k, want in (('opts_started', m.o_counter), ('opts_killed', len(m.hunt_victims)),
                        ('opts_conv', m.conv_counter)):
            if st.get(k) != want:
                yield 'stats-' + k, f'the result says {k} = {st.get(k)}, it was {want}'


# ---- P07 --------------------------------------------------------------------------------------------------------------
def o_fail(rec):
    yield from o_nocrash(rec)
    if len(rec.sessions) != 1:
        return
    s = rec.sessions[0]
    if s.result is None or not s.hist_available:
        return
    log = rec.w.log
    crashed = {e[1]: n for n, e in enumerate(log) if e[0] == 'opt_crash'}
    lastli = s.checks[-1]['li'] if s.checks else 0
    for i in crashed:
        ec = s.meta[i].get('end_cond') or ''
        sp = spec_of(rec, i) or {}
        if 'Error termination' in ec:
            if not any('script crash of' in t and 'Traceback' in t for t in s.msgs[i] or ()):
                yield 'crash-report', f'optimizer {i} ended in error; its error report was lost: {s.msgs[i]}'
        elif crashed[i] < (s.checks[-2]['li'] if len(s.checks) > 1 else 0) and i not in s.checks[-2]['alive'] \
                and i not in s.mgr.hunt_victims:
            yield 'crash-unseen', f'optimizer {i} crashed, its recorded end is {ec!r}'
    # general messages arrive
    for i in range(1, s.mgr.o_counter + 1):
        sp = spec_of(rec, i)
        if sp is None:
            continue
        want = [a[1] for a in sp['script'] if a[0] == 'm']
        ec = s.meta[i].get('end_cond')
        if want and ec == f'done {i}':
            got = [t for t in s.msgs[i] or () if t in want]
            if got != want:
                yield 'messages', f'optimizer {i} sent {want}, recorded {got}'


def o_hopeless(rec):
    """ Optimizers which crash at once without a single evaluation are not started for ever: the run says so and ends. """
    if not rec.cfg.get('hopeless'):
        return
    for s in ended(rec):
        n = s.mgr.o_counter
        if not is_crash(s):
            yield 'not-noticed', f'{n} optimizers which all crash at once were started, the run ended with ' \
                                 f'{s.result.stats.get("end_cond")!r}'
        else:
            w = [m for m in rec.warnings if 'Caught exception' in m]
            if not any('RuntimeError' in m and 'crashing' in m for m in w):
                yield 'crash', f'the run ended in an internal error: {w[-1:]}'
            elif n > 30:
                yield 'not-noticed', f'{n} optimizers which all crash at once were started before the run ended'


# ---- P08 --------------------------------------------------------------------------------------------------------------
def o_force_resumed(rec):
    """ A resumed session: only what this session saw counts, however long the run has rested. """
    limit, slack = rec.cfg.get('force', -1), 10
    for s in rec.sessions[1:]:
        if s.result is None or not s.checks or interrupted(rec):
            continue
        end_li, t_end = s.checks[-1]['li'], s.checks[-1]['t']
        signs, over, term = {}, {}, {}
        killed = set(s.base.get('victim_why', ())) | {h['victim'] for h in s.hunts if h['r']}
        for n, (e, t) in enumerate(zip(rec.w.log, rec.w.log.times)):
            if not s.first <= n < end_li:
                continue
            k = e[0]
            if k in ('opt_init', 'opt_load', 'opt_start', 'ret', 'msg', 'opt_end'):
                signs.setdefault(e[1], [s.t0]).append(t)
            if k in ('opt_end', 'opt_exit', 'opt_crash', 'opt_fail'):
                over.setdefault(e[1], t)
            if k == 'terminate' and e[1].startswith('Opt'):
                term.setdefault(int(e[1][3:]), t)
        for i, t in term.items():
            if i in killed:
                continue
            sg = [q for q in signs.get(i, [s.t0]) if q <= t] + [t]
            if not any(b - a > limit - 3 for a, b in zip(sg, sg[1:]) if b >= t - 3):
                yield 'force-early', f'after a restart optimizer {i} was terminated although it last gave a sign of ' \
                                     f'life {t - sg[-2]:.1f} s before'
            if s.meta[i].get('end_cond') != 'Forced GloMPO Termination':
                yield 'force-record', f"optimizer {i} was terminated by force; recorded is {s.meta[i].get('end_cond')!r}"
        for i in s.chk_start:
            sg = signs.get(i, [s.t0])
            if i in killed:
                continue
            stop = min([t_end] + [d[i] for d in (over, term) if i in d])
            q = [a for a in sg if a < stop] + [stop]
            gap = max([b - a for a, b in zip(q, q[1:])] or [0])
            if gap > limit + slack:
                yield 'hang-spared', f'after a restart optimizer {i} was silent for {gap:.1f} s and not terminated'


def o_force(rec):
    """ Silence as it really was against what was terminated.  The manager looks at its children about once a second;
    `slack` is what a few passes may take. """
    if len(rec.sessions) != 1:
        return
    s = rec.sessions[0]
    if s.result is None or not s.checks or not s.hist_available:
        return
    cfg = rec.cfg
    limit, slack = cfg.get('force', -1), 10
    proc = cfg.get('backend', 'processes').startswith('processes')
    allowed = limit > 0 and proc
    end_li, t_end = s.checks[-1]['li'], s.checks[-1]['t']
    signs, over, term, late = {}, {}, {}, {}
    for n, (e, t) in enumerate(zip(rec.w.log, rec.w.log.times)):
        k = e[0]
        if k in ('opt_init', 'opt_start', 'ret', 'msg', 'opt_end'):
            signs.setdefault(e[1], []).append(t)
        if k in ('opt_end', 'opt_exit', 'opt_crash', 'opt_fail'):
            over.setdefault(e[1], t)
        if k == 'terminate' and e[1].startswith('Opt'):
            (term if n < end_li else late).setdefault(int(e[1][3:]), (n, t))
    kill = {}
    for h in s.hunts:
        if h['r']:
            kill.setdefault(h['victim'], (h['li'], h['t']))
    for i, (n, t) in term.items():
        if i in kill and kill[i][0] <= n and cfg.get('aggressive') and proc:
            continue
        if not allowed:
            yield 'force-off', f'optimizer {i} was terminated by force although this is not allowed'
            continue
        if i in kill and kill[i][0] <= n:
            if not t - kill[i][1] > limit - 0.01:
                yield 'force-early', f'optimizer {i} was terminated {t - kill[i][1]:.1f} s after it was killed'
        else:
            sg = [q for q in signs[i] if q <= t] + [t]
            if not any(b - a > limit - 3 for a, b in zip(sg, sg[1:]) if b >= t - 3):
                yield 'force-early', f'optimizer {i} was terminated although it last gave a sign of life ' \
                                     f'{t - sg[-2]:.1f} s before'
        if s.meta[i].get('end_cond') != 'Forced GloMPO Termination':
            yield 'force-record', f"optimizer {i} was terminated by force; recorded is {s.meta[i].get('end_cond')!r}"
    for i, md in s.meta.items():
        if md.get('end_cond') == 'Forced GloMPO Termination' and i not in term:
            yield 'force-record', f'optimizer {i} is recorded as terminated by force, which did not happen'
    if allowed and not interrupted(rec):
        for i, sg in signs.items():
            stop = min([t_end] + [d[i] for d in (over,) if i in d] + [term[i][1] for _ in (1,) if i in term])
            if i in kill:
                if stop - kill[i][1] > limit + slack and not cfg.get('aggressive'):
                    yield 'zombie-spared', f'optimizer {i} was still running {stop - kill[i][1]:.1f} s after it was killed'
                stop = min(stop, kill[i][1])
            q = [a for a in sg if a < stop] + [stop]
            gap = max([b - a for a, b in zip(q, q[1:])] or [0])
            if gap > limit + slack:
                yield 'hang-spared', f'optimizer {i} was silent for {gap:.1f} s and not terminated'
    if not is_crash(s) and not interrupted(rec):
        wait = cfg.get('end_timeout') or 10
        for i, (n, t) in late.items():
            if not proc:
                yield 'force-off', f'thread {i} was terminated at the end'
            elif t - t_end < wait - 0.01:
                yield 'end-early', f'optimizer {i} was terminated {t - t_end:.1f} s after the end of the run, ' \
                                   f'allowed are {wait} s'


# ---- P09 / P10 --------------------------------------------------------------------------------------------------------
def o_conv(rec):
    for s in rec.sessions:
        if s.result is None:
            continue
        ec = s.result.stats.get('end_cond')
        for n, c in enumerate(s.checks[:-1]):
            if c['r']:
                yield 'conv-ignored', f'the convergence criterion was met in pass {n} but the run went on'
        if not s.checks or ec in ('GloMPO Crash', 'User Interrupt'):
            continue
        slow = rec.cfg.get('pass_time')
        if slow:  # a pass takes no longer than this here
            for a, b in zip(s.checks, s.checks[1:]):
                if b['t'] - a['t'] > slow:
                    yield 'not-evaluated', f'the criterion was not evaluated for {b["t"] - a["t"]:.1f} s'
                    break
        c = s.checks[-1]
        if s is rec.sessions[-1]:
            later = [e for e in rec.w.log[c['li']:s.last] if e[0] in ('opt_init', 'opt_start')
                     and not (e[0] == 'opt_start' and e[1] <= c['o'])]
            if later:
                yield 'start-after-conv', f'optimizers were started after convergence: {later[0][1]}'
        if c['r']:
            if ec != c['text']:
                yield 'conv-reason', f'the run ended by {c["text"]!r} but reports {ec!r}'
        else:
            off = any(q['r'] is False for q in s.selects) or not s.mgr.spawning_opts
            if c['alive'] or not off:
                yield 'ended-early', f'the run ended with optimizers {c["alive"]} running, spawning stopped: {off}, ' \
                                     f'criterion {c["r"]}, reason {ec!r}'
            if 'No optimizers alive' not in ec:
                yield 'conv-reason', f'nothing was left to run but the run reports {ec!r}'
        if s.mgr.converged is not True:
            yield 'conv-flag', 'the run ended by convergence but is not marked as converged'


def o_spawn(rec):
    for s in rec.sessions:
        off = None
        for n, q in enumerate(s.selects):
            if off is not None:
                yield 'select-after-stop', 'the selector was asked again after it had stopped the spawning'
                break
            if q['r'] is False:
                off = n
        # what was started is what was selected
        want = [q['r'] for q in s.selects if q['r']]
        got = [e for e in rec.w.log[s.first:getattr(s, 'last', None)] if e[0] == 'opt_init']
        if len(want) != len(got) and s.result is not None and not is_crash(s):
            yield 'start-count', f'{len(want)} optimizers were selected, {len(got)} were made'
        be_default = 'processes' if rec.cfg.get('backend') == 'processes_forced' else 'threads'
        starts = {e[1]: e for e in rec.w.log[s.first:] if e[0] == 'opt_start' and not e[6]}
        gens = [e for e in rec.w.log[s.first:] if e[0] == 'gen']
        for (cls, init, call), e in zip(want, got):
            i, workers, backend, det, cfg = e[1:]
            if workers != init['workers']:
                yield 'start-config', f'optimizer {i}: workers {workers}, selected {init["workers"]}'
            if cfg['script'] != [tuple(a) for a in init['script']] or cfg['marker'] != init.get('marker'):
                yield 'start-config', f'optimizer {i} was not made with the selected settings'
            own = {k: v for k, v in init.items() if k in cfg['kw']}
            if cfg['kw'] != own:
                yield 'start-config', f'optimizer {i} was made with {cfg["kw"]}, selected {own}'
            if backend != init.get('backend', be_default):
                yield 'start-backend', f'optimizer {i}: backend {backend}, configured ' \
                                       f'{init.get("backend", be_default)}'
            if bool(det) != bool(rec.cfg.get('detailed', False)):
                yield 'start-config', f'optimizer {i}: detailed logging {det}'
            st = starts.get(i)
            if st is not None:
                if {k: v for k, v in st[5].items()} != (call or {}):
                    yield 'start-call', f'optimizer {i} was called with {st[5]}, selected {call}'
                if st[3] != [[0.0, 100.0], [0.0, 100.0]]:
                    yield 'start-bounds', f'optimizer {i} was given bounds {st[3]}'
        xs = [g[2] for g in gens]
        order = sorted(starts)
        if len(gens) >= len(order):
            for i in order:
                k = i - (got[0][1] if got else 1)
                if 0 <= k < len(xs) and starts[i][2] != xs[k]:
                    yield 'start-point', f'optimizer {i} started at {starts[i][2]}, generated was {xs[k]}'


def configured_backend(rec):
    """ The selector must hand out the same configuration every time (it belongs to the user). """
    for s in rec.sessions:
        seen = {}
        for q in s.selects:
            if q['r']:
                k = (q['r'][0], str(q['r'][1].get('marker')))
                v = (q['r'][1], q['r'][2])
                if k in seen and seen[k] != v:
                    yield 'config-changed', f'the configuration of {k} changed from {seen[k]} to {v}'
                seen.setdefault(k, v)


# ---- helpers for resumed sessions ---------------------------------------------------------------------------------------
def same_rows(a, b):
    return len(a) == len(b) and all(p[:3] == q[:3] and (p[3] == q[3] or p[3] != p[3] and q[3] != q[3])
                                    for p, q in zip(a, b))


def ended_count(s):
    """ Optimizers recorded as having ended by themselves. """
    n = 0
    for i, md in s.meta.items():
        ec = md.get('end_cond') or ''
        n += ec == f'done {i}' or ec.startswith('stopped') or 'Normal termination' in ec
    return n
