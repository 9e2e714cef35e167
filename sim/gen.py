"""Scenario generators.  A scenario is plain JSON data; `make(profile, seed)` is a pure function."""
import random


def pick(r, *pairs):
    """ pick(r, (value, weight), ...) """
    tot = sum(w for _, w in pairs)
    u = r.random() * tot
    for v, w in pairs:
        u -= w
        if u < 0:
            return v
    return pairs[-1][0]


def maybe(r, p):
    return r.random() < p


DUR = [(1e-5, 2), (1e-4, 2), (1e-3, 3), (1e-2, 3), (0.1, 2), (0.7, 1), (2.5, 1)]


def opt_script(r, f):
    """ Behaviour of one scripted optimizer; f: feature probabilities. """
    s = {'n': r.choice([1, 2, 3, 5, 8, 13, 21]), 'dur': f.get('dur') or pick(r, *DUR)}
    if s['dur'] >= 0.5:
        s['n'] = min(s['n'], 8)
    if maybe(r, .25):
        s['check_every'] = r.choice([2, 3, 5])
    if maybe(r, .2):
        s['pause_first'] = True
    if maybe(r, f.get('fail', 0)):
        s['fail'] = pick(r, ('raise', 4), ('kbd', 1), ('exit', 1), ('die', 2), ('silent', 1))
        s['fail_at'] = r.randrange(0, s['n'] + 1)
        if s['fail'] == 'exit':
            s['code'] = r.choice([0, 1, 3])
    elif maybe(r, f.get('fail', 0) / 2):
        s['end'] = r.choice(['raise', 'silent', 'dieafter'])
    if maybe(r, f.get('hang', 0)):
        s['fail'], s['fail_at'] = 'hang', r.randrange(0, s['n'])
        s.pop('end', None)
    if maybe(r, f.get('hang_for', 0)) and 'fail' not in s:
        s['fail'], s['fail_at'], s['hang_for'] = 'hang', r.randrange(0, s['n']), r.choice([0.5, 3.0, 12.0])
    if maybe(r, f.get('linger', .1)):
        s['linger'] = r.choice([0.001, 0.3, 1.5])
    if maybe(r, f.get('linger', .1)):
        s['linger2'] = r.choice([0.001, 0.3, 1.5])
    if maybe(r, .25):
        s['no_last_check'] = True
    if maybe(r, f.get('ignore_stop', 0)):
        s['ignore_stop'] = True
    if maybe(r, f.get('msg', .1)):
        s['msg_at'] = r.randrange(0, s['n'])
    if maybe(r, f.get('nan', 0)):
        s['nan_every'] = r.choice([2, 3])
    if maybe(r, .1):
        s['burst'] = r.choice([5, 20, 40])
    if maybe(r, .1):
        s['pre_conv_delay'] = r.choice([0.01, 1.0])
    if maybe(r, f.get('print', 0)):
        s['print'] = r.choice(['out', 'out', 'err'])
    if maybe(r, f.get('log', 0)):
        s['log'] = True
    if maybe(r, f.get('save_slow', .05)):
        s['save_slow'] = r.choice([0.1, 2.0])
    if maybe(r, f.get('save_fail', 0)):
        s['save_fail'] = r.choice(['raise', 'die'])
    return s


def base(r, f=None):
    f = dict(f or {})
    nscripts = f.get('nscripts') or r.randint(1, 6)
    if 'dur' not in f and maybe(r, .5):
        f['dur'] = pick(r, *DUR)
    sc = {'jitter': r.choice([0, 1, 1, 2, 2, 3]), 'dims': 2, 'opts': [opt_script(r, f) for _ in range(nscripts)],
          'task': {'vals': {'mode': pick(r, ('rand', 4), ('pos', 2), ('ties', 2), ('zero', 1), ('neg', 2), ('inf', 1),
                                         ('desc', 2), ('flat', 1)), 'seed': r.randrange(1000)}},
          'base_cost': r.choice([2e-5, 2e-5, 2e-5, 5e-4, 2e-6]),
          'fd': pick(r, ('refcount', 3), ('gc', 1)), 'ident_reuse': maybe(r, .5), 'shuffle_dirs': maybe(r, .5)}
    if maybe(r, .5):
        sc['opt_speed'] = [r.choice([0.1, 1.0, 1.0, 5.0, 50.0]) for _ in range(r.randint(1, 4))]
    if maybe(r, .3):
        sc['mng_speed'] = r.choice([0.2, 5.0, 50.0])
    if sc['base_cost'] > 1e-4:
        sc['jitter'] = min(sc['jitter'], 2)
        if 'mng_speed' in sc:
            sc['mng_speed'] = min(sc['mng_speed'], 5.0)
        if 'opt_speed' in sc:
            sc['opt_speed'] = [min(v, 5.0) for v in sc['opt_speed']]
    sc['sessions'] = [session(r, f)]
    return sc


def session(r, f):
    be = f.get('backend') or pick(r, ('threads', 5), ('processes', 5), ('processes_forced', 1))
    mj = f.get('max_jobs') or pick(r, (1, 1), (2, 2), (3, 3), (5, 3), (8, 1), (12, 1))
    s = {'backend': be, 'max_jobs': mj, 'selector': selector(r, f, mj), 'checker': checker(r, f)}
    guarantee_end(r, s, f)
    if maybe(r, f.get('gen', .3)):
        s['generator'] = ['seq']
    if maybe(r, f.get('hunt', .3)):
        add_hunting(r, s)
    if maybe(r, f.get('share', .25)):
        s['share'] = True
    s['sf'] = pick(r, *f.get('sf', [(0, 8), (1, 3), (3, 1)]))
    if maybe(r, .3):
        s['end_timeout'] = r.choice([0.5, 5, 20])
    if maybe(r, .2):
        s['aggressive'] = True
    if maybe(r, .1):
        s['status_freq'] = r.choice([0.0001, 1, 5])
    ev = []
    if maybe(r, f.get('stop_files', .15)):
        for _ in range(r.randint(1, 3)):
            ev.append(stop_event(r))
    if maybe(r, f.get('sigkill', 0)):
        for _ in range(r.randint(1, 2)):
            ev.append({'act': 'sigkill_any', 'k': r.randrange(5), 'on': r.choice(['eval', 'eval', 'tx', 'log_iter',
                                                                                     'send', 'opt_begin']),
                       'count': r.randint(1, 25), 'delay': r.choice([0, 0, 1e-4, 1e-2])})
    if maybe(r, f.get('stall', .1)):
        ev.append({'act': 'stall', 'on': 'eval', 'count': r.randint(1, 25), 'k': r.randrange(4),
                   'target': r.choice(['manager', 'opt']), 'factor': r.choice([100., 3000.]), 'for': r.choice([.1, 2.])})
    if maybe(r, f.get('clock', 0)):
        ev.append({'act': 'clock', 'on': 'eval', 'count': r.randint(1, 20), 'by': r.choice([-3600., -1.5, 2., 3600.])})
    if maybe(r, f.get('interrupt', 0)):
        ev.append({'act': 'interrupt', 'on': r.choice(['eval', 'log_iter', 'tx', 'opt_end', 'log_opt', 'send', 'rx_stop',
                                                       'ckpt_begin', 'opt_save']),
                   'count': r.randint(1, 12), 'delay': r.choice([0, 0, 1e-5, 1e-3, .5])})
    if maybe(r, f.get('user_error', 0)):
        k = r.choice(['checker', 'hunter', 'generator', 'selector'])
        if k == 'checker':
            s['checker'] = ['or', ['Raising', r.randint(1, 30)], s['checker']]
        elif k == 'hunter':
            s['hunter'], s['hunt_freq'] = ['RaisingHunter', r.randint(1, 20)], r.choice([1, 5])
        elif k == 'generator':
            s['generator'] = ['seq', r.randint(1, 6)]
        else:
            s['selector']['raise_at'] = r.randint(1, 5)
    if maybe(r, f.get('ckpt', .15)):
        add_ckpt(r, s, ev)
    s['events'] = ev
    return s


def stop_event(r):
    return {'act': 'stop_file', 'target': r.randint(1, 5), 'on': r.choice(['eval', 'eval', 'log_iter', 'opt_begin', 'tx']),
            'count': r.randint(1, 25), 'delay': r.choice([0, 0, 1e-3, 1.0])}


def add_hunting(r, s):
    s['hunt_freq'] = r.choice([1, 2, 5, 10, 20])
    s['hunter'] = pick(r, (['ScriptHunter', [r.choice([0, 1, 2, 3, 5, 8]) for _ in range(r.randint(1, 4))]], 5),
                       (['MinFuncCalls', r.randint(1, 6)], 2), (['LastPointsInvalid', r.randint(1, 3)], 1),
                       (['EvaluationsUnmoving', r.choice([2, 4]), r.choice([0, 0.1])], 1),
                       (['or', ['MinFuncCalls', 6], ['ScriptHunter', [0, 2]]], 1),
                       (['and', ['MinFuncCalls', 2], ['ScriptHunter', [1, 4, 0]]], 1))


def hunter(r, depth=0):
    if depth < 2 and maybe(r, .3):
        return [r.choice(['or', 'and']), hunter(r, depth + 1), hunter(r, depth + 1)]
    return pick(r, (['ScriptHunter', [r.choice([0, 1, 2, 3, 5, 8]) for _ in range(r.randint(1, 4))]], 3),
                (['MinFuncCalls', r.randint(1, 8)], 2), (['LastPointsInvalid', r.randint(1, 3)], 1),
                (['EvaluationsUnmoving', r.choice([2, 3, 5]), r.choice([0, 0.05, 0.3])], 2),
                (['BestUnmoving', r.choice([1, 2, 4]), r.choice([0, 0.05, 0.3])], 3),
                (['TypeHunter', r.choice('ABC')], 1), (['StepSize', r.choice([2, 3, 5]), r.choice([.003, .01, .02])], 2),
                (['ParameterDistance', r.choice([.01, .03, .1]), maybe(r, .5)], 2),
                (['TimeAnnealing', r.choice([.5, 1, 3])], 1), (['ValueAnnealing', r.choice([.2, .5, .9])], 1))


def p_c08(r):
    f = {'fail': r.choice([0, 0, .2]), 'hunt': 0, 'nan': r.choice([0, 0, .2]), 'stop_files': .1, 'ckpt': r.choice([0, .2]),
         'sf': [(0, 10), (3, 1)], 'linger': .15, 'ignore_stop': r.choice([0, 0, .1]), 'share': .2,
         'max_jobs': r.choice([2, 3, 5, 8]), 'dur': pick(r, (1e-4, 2), (1e-3, 3), (1e-2, 2), (.1, 1))}
    sc = base(r, f)
    sc['task']['vals']['mode'] = pick(r, ('rand', 2), ('flat', 4), ('desc', 4), ('ties', 2), ('inf', 1), ('zero', 1), ('neg', 1))
    s = sc['sessions'][0]
    s['hunt_freq'] = r.choice([1, 1, 2, 3, 5, 10, 20])
    s['hunter'] = hunter(r)
    for o in sc['opts']:
        o['n'] = r.choice([5, 8, 13, 21, 40])
        o['step'] = r.choice([.1, .5, 1., 2.])
    if maybe(r, .15):       # nothing valid for a while
        for o in sc['opts']:
            o['nan_first'] = r.choice([1, 5, 20])
            o['n'] = r.choice([21, 40])
    s['checker'] = ['or', ['MaxFuncCalls', r.choice([40, 80, 150])], ['MaxKills', r.randint(2, 8)]]
    s['selector']['spawn'] = ['opts', r.randint(3, 12)]
    return resume_maybe(r, sc, .12)


def p_c09(r):
    f = {'fail': r.choice([0, 0, .3]), 'hunt': r.choice([0, .3]), 'stop_files': 0, 'ckpt': r.choice([0, 0, .3]),
         'sf': [(0, 10), (3, 1)], 'linger': .15, 'ignore_stop': r.choice([0, 0, .1]), 'share': .2, 'sigkill': r.choice([0, .2]),
         'max_jobs': r.choice([1, 2, 3, 5, 8]), 'stall': .15}
    sc = base(r, f)
    s = sc['sessions'][0]
    for o in sc['opts']:
        if maybe(r, .7):
            o['n'] = r.choice([8, 13, 21, 40]) if o['dur'] < .5 else 8
    s['checker'] = ['or', ['MaxFuncCalls', r.choice([40, 80, 150, 300])], ['MaxOptsStarted', r.randint(4, 12)]]
    if maybe(r, .3):
        s['aggressive'] = True
    for _ in range(r.randint(1, 6)):
        e = stop_event(r)
        e['target'] = r.randint(1, 8)
        e['count'] = r.choice([1, 2, 3, 5, 8, 13, 25, 40])
        e['on'] = r.choice(['eval', 'eval', 'log_iter', 'opt_begin', 'tx', 'opt_end', 'log_opt', 'log_meta', 'eval_start'])
        if maybe(r, .2):
            e['name'] = r.choice(['STOP_', 'STOP_x', 'STOP_1_2', 'STOP_99', 'STOP_-1', 'STOP_1.txt', 'STOP_1.0', 'STOP_None',
                                  'XSTOP_1', 'STOP1', 'stop_1', 'STOP_0'])
        s['events'].append(e)
        if maybe(r, .25):
            s['events'].append({'act': 'rm_file', 'name': e.get('name') or f"STOP_{e['target']}", 'on': 'file_put',
                                'count': 1, 'delay': r.choice([0, 1e-5, 1e-4, 1e-3, 1e-2])})
    return resume_maybe(r, sc, .1)


def p_c10(r):
    f = {'fail': r.choice([0, 0, .2]), 'hunt': r.choice([0, .5]), 'hang': r.choice([0, .3, .6]), 'hang_for': r.choice([0, .4]),
         'sf': [(0, 10), (3, 1)], 'linger': .2, 'ignore_stop': r.choice([0, .4]), 'stop_files': .3, 'share': .1,
         'backend': pick(r, ('processes', 5), ('processes_forced', 2), ('threads', 1)), 'ckpt': r.choice([0, 0, .4]),
         'dur': pick(r, (1e-4, 1), (1e-3, 1), (1e-2, 2), (.1, 4), (.7, 4)), 'stall': .3}
    if f['backend'] == 'threads':       # threads cannot be ended
        f['hang'] = 0
    sc = base(r, f)
    s = sc['sessions'][0]
    s['force_after'] = r.choice([1.5, 2.0, 3.0, 5.0, 10.0])
    sc['base_cost'] = min(sc['base_cost'], 2e-5)
    if 'opt_speed' in sc:
        sc['opt_speed'] = [min(v, 5.) for v in sc['opt_speed']]
    if 'mng_speed' in sc:
        sc['mng_speed'] = min(sc['mng_speed'], 5.)
    if maybe(r, .1) and not f['hang']:
        s['force_after'] = -1
    for o in sc['opts']:
        if o['dur'] >= .05 and maybe(r, .6):
            o['n'] = r.choice([8, 20, 40])
        if maybe(r, .1):
            o['slow_at'], o['slow_n'] = r.choice([2.5, 6.0, 15.0]), r.randint(0, 4)
        if maybe(r, .1):
            o['linger2'] = r.choice([4.0, 15.0])
    if maybe(r, .3):       # quick ones open the cache for slow ones
        q = r.choice(sc['opts'])
        q.update(dur=1e-5, n=60)
        q.pop('fail', None), q.pop('end', None)
    s['checker'] = ['or', ['MaxFuncCalls', r.choice([60, 120, 250])], ['MaxOptsStarted', r.randint(4, 12)]]
    if maybe(r, .3):
        s['events'].append({'act': 'stall', 'on': r.choice(['eval', 'ckpt_begin']), 'count': r.randint(1, 25),
                            'target': 'manager', 'factor': r.choice([1000., 30000.]), 'for': r.choice([2., 6.])})
    return resume_maybe(r, sc, .1)


def add_ckpt(r, s, ev, **kw):
    s['ckpt'] = c = {'naming_format': 'chk_%(count)'}
    how = pick(r, ('iter', 5), ('time', 2), ('both', 1), ('none', 1))
    if how in ('iter', 'both'):
        c['checkpoint_iter_frequency'] = r.choice([1, 3, 7, 12, 25])
    if how in ('time', 'both'):
        c['checkpoint_time_frequency'] = r.choice([0.05, 0.5, 2.0])
    if maybe(r, .3):
        c['checkpoint_at_conv'] = True
    if maybe(r, .2):
        c['checkpoint_at_init'] = True
    if maybe(r, .3) or how == 'none':
        ev.append({'act': 'file', 'name': 'CHKPT', 'on': r.choice(['eval', 'log_iter', 'tx']), 'count': r.randint(1, 25)})
    c.update(kw)


def selector(r, f, mj):
    n = r.randint(1, 3)
    entries = []
    for i in range(n):
        wk = f.get('workers', 1) if not maybe(r, .3) else r.randint(1, max(1, min(mj, 4)))
        init = None if wk == 1 and maybe(r, .3) else {'workers': wk}
        call = None
        entries.append(['ABC'[i], init, call] + (['bare'] if init is None else []))
    return {'type': pick(r, ('cycle', 4), ('random', 2)), 'entries': entries}


def checker(r, f):
    if 'checker' in f:
        return f['checker'](r)
    return pick(r, (['MaxFuncCalls', r.choice([5, 17, 40, 80, 150])], 4), (['MaxOptsStarted', r.randint(1, 9)], 2),
                (['KillsAfterConvergence', r.randint(0, 2), r.randint(1, 4)], 1), (['NOptConverged', r.randint(1, 6)], 1),
                (['MaxKills', r.randint(1, 3)], 1), (['TargetCost', r.choice([-90.0, -50.0, 0.0, 5.0])], 1))


def guarantee_end(r, s, f):
    """ Something which is always reached ends the run, whatever optimizers do. """
    k = r.randint(1, 10)
    how = f.get('end') or pick(r, ('spawn_opts', 4), ('max_opts', 3), ('spawn_evals', 1))
    if how == 'spawn_evals':
        s['selector']['spawn'] = ['evals', r.choice([3, 10, 30])]
        s['checker'] = ['or', s['checker'], ['MaxOptsStarted', 14]]
    elif how == 'spawn_opts':
        s['selector']['spawn'] = ['opts', k]
    else:
        s['checker'] = ['or', s['checker'], ['MaxOptsStarted', k]]


# ---------------------------------------------------------------------------------------------------- profiles

def p_mixed(r):
    f = {'fail': r.choice([0, 0, .2, .6]), 'sigkill': r.choice([0, .3]), 'hunt': .4, 'interrupt': r.choice([0, 0, .3]),
         'user_error': r.choice([0, 0, .2]), 'linger': r.choice([0, .2])}
    return base(r, f)


def p_c01(r):
    f = {'fail': r.choice([0, 0, .3, .6]), 'sigkill': r.choice([0, 0, .3]), 'interrupt': r.choice([0, 0, .25]),
         'user_error': r.choice([0, 0, .15]), 'ckpt': r.choice([0, .3]), 'hunt': .3,
         'dur': pick(r, (1e-5, 4), (1e-4, 3), (1e-3, 2), (None, 3)), 'linger': .15, 'sf': [(0, 20), (1, 3), (3, 1)]}
    if maybe(r, .4):
        f['max_jobs'] = r.randint(8, 16)
    if f['dur'] is None:
        del f['dur']
    sc = base(r, f)
    s = sc['sessions'][0]
    if maybe(r, .15) and s['backend'] != 'threads':
        sc['opts'][0].update(fail='hang', fail_at=1, n=max(2, sc['opts'][0]['n']))
        sc['opts'][0].pop('hang_for', None)
        s['force_after'] = r.choice([2.0, 5.0])
    return sc


def p_c02(r):
    f = {'fail': r.choice([.3, .6, .9]), 'sigkill': r.choice([0, .5]), 'hunt': .3, 'ckpt': r.choice([0, 0, .3]),
         'share': .3, 'linger': r.choice([0, .2]), 'sf': [(0, 12), (1, 3), (3, 2)]}
    sc = base(r, f)
    if maybe(r, .15):       # nothing but immediate failures
        for o in sc['opts']:
            o.update(fail=r.choice(['raise', 'die', 'silent']), fail_at=0)
    return sc


def p_c03(r):
    f = {'fail': r.choice([0, .3]), 'interrupt': r.choice([0, .6]), 'user_error': r.choice([0, .5]),
         'sf': [(0, 4), (1, 4), (3, 4)], 'ignore_stop': r.choice([0, .2]), 'hunt': .3, 'linger': .1,
         'ckpt': r.choice([0, .2])}
    if maybe(r, .3):
        f['max_jobs'] = r.randint(8, 14)
    sc = base(r, f)
    s = sc['sessions'][0]
    if maybe(r, .5):        # stop in the middle of everything
        s['checker'] = ['or', s['checker'], ['MaxFuncCalls', r.choice([3, 10, 25])]]
        for o in sc['opts']:
            o['n'] = r.choice([20, 40, 60]) if o['dur'] < .5 else 8
    if maybe(r, .1) and s['backend'] != 'threads':
        sc['opts'][0].update(fail='hang', fail_at=1)
        s['force_after'] = 3.0
    return sc


def p_c04(r):
    f = {'fail': r.choice([0, .3]), 'sigkill': r.choice([0, .2]), 'linger': .3, 'hunt': .3, 'sf': [(0, 1)],
         'interrupt': 0, 'ckpt': .05, 'workers': r.choice([1, 1, 2, 3])}
    sc = base(r, f)
    return resume_maybe(r, sc, .15)


def p_c05(r):
    f = {'fail': r.choice([0, 0, .2]), 'hunt': .3, 'nan': r.choice([0, .2]), 'interrupt': r.choice([0, .15]),
         'sf': [(0, 6), (1, 4), (3, 2)], 'ckpt': .1, 'stop_files': .1}
    sc = base(r, f)
    return resume_maybe(r, sc, .2)


def p_c06(r):
    f = {'fail': r.choice([0, .3]), 'sigkill': r.choice([0, .2]), 'hunt': r.choice([0, .4]),
         'sf': [(0, 8), (1, 1), (3, 3)], 'ckpt': r.choice([0, .3]), 'nan': r.choice([0, 0, .3]),
         'end': pick(r, ('spawn_opts', 4), ('max_opts', 2), ('spawn_evals', 1)), 'stall': .3, 'linger': .2}
    f['dur'] = pick(r, (1e-5, 3), (1e-4, 2), (1e-3, 2), (.01, 1), (.3, 1))
    sc = base(r, f)
    if maybe(r, .5):
        sc['sessions'][0]['checker'] = ['MaxFuncCalls', r.choice([200, 400])]
        sc['sessions'][0]['selector']['spawn'] = ['opts', r.randint(1, 8)]
    extras(r, sc, .4)
    return resume_maybe(r, sc, .15)


def p_c07(r):
    ops = r.choice([['put_nowait'], ['put_nowait', 'put_nowait', 'put'], ['put', 'put_nowait', 'put_incache', 'flush'],
                    ['put'], ['put_incache', 'flush'], ['put', 'put_nowait', 'put_nowait', 'put_nowait', 'flush']])
    pauses = r.choice([[0], [0, 0, 1e-4], [0, 1e-3, .1]])
    return {'kind': 'direct', 'what': 'queue', 'opts': [{}], 'sessions': [], 'jitter': r.choice([1, 2, 3]),
            'base_cost': r.choice([2e-5, 1e-4]), 'max': r.choice([1, 1, 2, 3, 10]), 'chunk': r.choice([1, 2, 3, 5, 10]),
            'producers': [[[r.choice(ops), r.choice(pauses)] for _ in range(r.choice([2, 5, 10, 25]))]
                          for _ in range(r.randint(1, 5))],
            'consumer': [[r.choice(['get', 'get', 'nowait']), r.choice([0, 0, 1e-4, .01, .2]), r.choice([.05, 1])]
                         for _ in range(r.randint(1, 4))],
            'speeds': [r.choice([1., 1., 5., .2, 30.]) for _ in range(3)], 'cons_speed': r.choice([1., 1., 10., .2])}


def p_c12(r):
    f = {'fail': r.choice([0, 0, .25]), 'hunt': r.choice([0, .6]), 'sf': [(0, 10), (3, 1)], 'linger': .2, 'nan': .1,
         'ignore_stop': r.choice([0, 0, .1]), 'stop_files': .25, 'share': .3, 'save_slow': r.choice([.05, .3]), 'ckpt': 1,
         'stall': .2, 'max_jobs': r.choice([1, 2, 3, 5, 8])}
    sc = base(r, f)
    s = sc['sessions'][0]
    if maybe(r, .5):
        for o in sc['opts']:
            if maybe(r, .6):
                o['n'] = r.choice([8, 13, 21, 40]) if o['dur'] < .5 else 8
    if maybe(r, .6):
        s['ckpt']['checkpoint_iter_frequency'] = r.choice([1, 2, 3, 5, 8, 13])
    for _ in range(r.choice([0, 0, 1, 3])):
        s['events'].append({'act': 'file', 'name': 'CHKPT', 'on': r.choice(['eval', 'log_iter', 'tx', 'opt_begin', 'opt_end']),
                            'count': r.randint(1, 40)})
    n = r.randint(2, 3)
    for k in range(n):
        L = load_session(r, sc)
        if k < n - 1 or maybe(r, .6):
            L['no_start'] = True
        else:
            L['events'] = []
        sc['sessions'].append(L)
    if maybe(r, .2):        # a checkpoint of a resumed run is as good as another
        M = load_session(r, sc)
        M['which'] = 'latest'
        N = dict(load_session(r, sc), which='latest', no_start=True)
        sc['sessions'] = sc['sessions'][:1] + [M, N]
    return sc


def disk_fault(r, **kw):
    return {'act': 'disk', 'k': r.choice([1, 1, 2, 3, 5, 8, 12, 20]), 'n': r.choice([1, 1, 2, 50]),
            'what': r.choice(['enospc', 'eio', 'short']), **kw}


def p_c13(r):
    f = {'fail': r.choice([0, 0, .2]), 'hunt': r.choice([0, .3]), 'sf': [(0, 10), (3, 1)], 'linger': .2,
         'ignore_stop': r.choice([0, 0, .1]), 'stop_files': r.choice([0, .2]), 'share': .2, 'save_slow': r.choice([.05, .3]),
         'save_fail': r.choice([0, .3, .6]), 'ckpt': 1, 'stall': .2}
    sc = base(r, f)
    s = sc['sessions'][0]
    if maybe(r, .6):
        s['ckpt']['checkpoint_iter_frequency'] = r.choice([1, 2, 3, 5, 8, 13])
    s['ckpt']['raise_checkpoint_fail'] = maybe(r, .25)
    if maybe(r, .3):
        s['ckpt']['keep_past'] = r.choice([0, 1, 2])
    s['on_ckpt'] = []
    if maybe(r, .6):
        for _ in range(r.randint(1, 3)):
            s['on_ckpt'].append(disk_fault(r, n_ckpt=r.randint(0, 5)))
    if maybe(r, .2):
        s['on_ckpt'].append({'act': 'interrupt', 'n_ckpt': r.randint(0, 3), 'delay': r.choice([0, 1e-4, 1e-3, .01])})
    return sc


def p_c14(r):
    f = {'fail': r.choice([0, 0, .2]), 'hunt': 0, 'sf': [(0, 1)], 'linger': .1, 'stop_files': 0, 'share': .1,
         'save_fail': r.choice([0, 0, .2]), 'ckpt': 1, 'max_jobs': r.choice([1, 2, 3]), 'nscripts': r.randint(1, 3)}
    sc = base(r, f)
    s = sc['sessions'][0]
    c = s['ckpt']
    c['naming_format'] = pick(r, ('chk_%(count)', 4), ('fixed', 2), ('%(date)_%(time)', 2), ('%(count)', 1), ('a.b+c_%(count)', 1), ('w?_%(count)', 1), ('(x|y)*[z]^$_%(count)', 1),
                              ('x_%(year)-%(month)-%(day)_%(hour)%(min)%(sec)', 1), ('m_%(min)', 1), ('%(yr)_%(count)_z', 1))
    c['keep_past'] = r.choice([-1, -1, 0, 1, 2, 3])
    c['checkpoint_iter_frequency'] = r.choice([1, 2, 3, 5, 8])
    for o in sc['opts']:
        o['n'] = r.choice([5, 8, 13]) if o['dur'] >= .1 else r.choice([8, 13, 21])
    s['checker'] = ['or', ['MaxFuncCalls', r.choice([10, 20, 40])], ['MaxOptsStarted', r.randint(1, 4)]]
    if maybe(r, .5):
        pre = {'ckpts/notes.txt': 'my notes', 'ckpts/other_001.tar.gz': 'foreign', 'ckpts/chk_001.txt': 'no',
               'ckpts/chk_abc.tar.gz': 'no', 'ckpts/chk_001.tar.gz.bak': 'b', 'ckpts/aXb+c_001.tar.gz': 'n',
               'ckpts/fixed_old.tar.gz': 'mine', 'ckpts/xfixed.tar.gz': 'mine', 'ckpts/my_chk_004.tar.gz': 'mine',
               'ckpts/dir_001.tar.gz/readme': 'a directory', 'ckpts/chk_01.tar.gz': 'two digits'}
        s['pre_files'] = {k: pre[k] for k in r.sample(sorted(pre), r.randint(1, 5))}
    s['on_ckpt'] = []
    how = pick(r, ('none', 2), ('disk', 3), ('crash', 4), ('crash_disk', 1))
    if 'disk' in how:
        for _ in range(r.randint(1, 2)):
            s['on_ckpt'].append(disk_fault(r, n_ckpt=r.randint(0, 5)))
    if 'crash' in how:
        s['on_ckpt'].append({'act': 'disk', 'n_ckpt': r.randint(0, 5), 'k': r.randint(1, 60), 'n': 1, 'what': 'crash'})
    ov = {'convergence_checker': ['or', ['MaxFuncCalls', r.choice([20, 40, 80])], ['MaxOptsStarted', r.randint(3, 8)]]}
    for k in range(r.randint(1, 2)):
        L = load_session(r, sc, **ov)
        L['which'] = r.choice(['latest', 'latest', r.randrange(20)])
        L['on_ckpt'] = []
        if maybe(r, .3):
            L['on_ckpt'].append({'act': 'disk', 'n_ckpt': r.randint(0, 3), 'k': r.randint(1, 60), 'n': 1, 'what': 'crash'})
        sc['sessions'].append(L)
    if maybe(r, .8):
        sc['sessions'].append(dict(load_session(r, sc), which='latest', no_start=True))
    return sc


def p_c15(r):
    f = {'fail': r.choice([0, 0, .2]), 'hunt': r.choice([0, .5]), 'sf': [(0, 5), (1, 1), (3, 3)], 'linger': .15, 'ckpt': 1,
         'stop_files': r.choice([0, .2]), 'share': .3, 'nan': r.choice([0, .1]), 'max_jobs': r.choice([1, 2, 3, 5, 8])}
    sc = base(r, f)
    s = sc['sessions'][0]
    s['ckpt']['checkpoint_iter_frequency'] = r.choice([1, 3, 5, 8, 13])
    s['split'] = maybe(r, .3)
    extras(r, sc, .15)
    if maybe(r, .25):
        s['events'].append({'act': 'crash', 'on': r.choice(['eval', 'log_iter', 'tx', 'ckpt_begin', 'ckpt_end', 'opt_save']),
                            'count': r.randint(1, 30), 'delay': r.choice([0, 1e-4, 1e-3])})
    if maybe(r, .15):
        s['events'].append({'act': 'interrupt', 'on': 'eval', 'count': r.randint(5, 30)})
    for k in range(r.choice([1, 1, 2, 3])):
        ov = {}
        if maybe(r, .6):
            if maybe(r, .4):
                ov['max_jobs'] = r.randint(max(1, s['max_jobs'] - 1), s['max_jobs'] + 3)
            if maybe(r, .2):
                ov['backend'] = r.choice(['threads', 'processes', 'processes_forced'])
            if maybe(r, .2):
                ov['hunt_frequency'] = r.choice([1, 4, 9])
            if maybe(r, .2):
                ov['status_frequency'] = r.choice([1, 60])
            if maybe(r, .2):
                ov['end_timeout'] = r.choice([3, 8])
            if maybe(r, .2):
                ov['aggressive_kill'] = maybe(r, .5)
            if maybe(r, .2) and s['sf'] > 0:
                ov['summary_files'] = r.choice([0, 1, 3])
            if maybe(r, .2):
                ov['share_best_solutions'] = maybe(r, .5)
            if maybe(r, .2):
                ov['working_dir'] = f'work{k + 2}'
        L = load_session(r, sc, **ov)
        L['sf'] = ov.get('summary_files', L['sf'])
        L['which'] = r.choice(['latest', r.randrange(20), r.randrange(20)])
        if maybe(r, .2):
            L['fresh_work'] = True
        if maybe(r, .15):
            L['overrides'].pop('overwrite_existing', None)
        if maybe(r, .2):
            L['events'] = [{'act': 'crash', 'on': 'eval', 'count': r.randint(1, 30)}]
        sc['sessions'].append(L)
    return sc


def p_c16(r):
    f = {'fail': r.choice([0, 0, .2]), 'hunt': r.choice([0, .2]), 'sf': [(0, 12), (3, 1)], 'linger': .1,
         'stop_files': r.choice([0, .1]), 'share': .1, 'ckpt': 0, 'max_jobs': r.choice([1, 2, 3, 5, 8]),
         'clock': r.choice([0, 0, 0, .6]), 'save_fail': r.choice([0, 0, 0, .2]), 'interrupt': r.choice([0, 0, .2]),
         'nscripts': r.randint(1, 3)}
    sc = base(r, f)
    s = sc['sessions'][0]
    ev = s['events']
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        ev.append({'act': 'file', 'name': 'CHKPT', 'on': r.choice(['eval', 'log_iter', 'tx', 'opt_begin', 'opt_end', 'ckpt_begin',
                   'ckpt_end', 'removed', 'opt_save']), 'count': r.choice([1, 1, 2, 3, 5, 8, 13, 25]),
                   'delay': r.choice([0, 0, 1e-3, .5])})
        if maybe(r, .15):
            ev.append({'act': 'rm_file', 'name': 'CHKPT', 'on': 'file_put', 'count': 1,
                       'delay': r.choice([0, 1e-5, 1e-4, 1e-3, 1e-2])})
    if maybe(r, .85):
        add_ckpt(r, s, [])
        c = s['ckpt']
        c['naming_format'] = pick(r, ('chk_%(count)', 5), ('%(date)_%(time)', 2), ('%(count)', 1), ('a.b+c_%(count)', 1), ('fixed', 1),
                                  ('x_%(year)-%(month)-%(day)_%(hour)%(min)%(sec)', 1), ('m_%(min)_%(sec)', 1), ('%(yr)_%(count)_z', 1))
        if 'checkpoint_time_frequency' in c:
            c['checkpoint_time_frequency'] = r.choice([.001, .02, .2, .5, 2., 5., 20.])
        if 'checkpoint_iter_frequency' in c:
            c['checkpoint_iter_frequency'] = r.choice([0, 1, 2, 3, 7, 12, 25, 60])
        c['keep_past'] = r.choice([-1, -1, -1, 2])
        c['raise_checkpoint_fail'] = maybe(r, .1)
        if maybe(r, .3):
            pre = {'ckpts/chk_009.tar.gz': 'x', 'ckpts/chk_999.tar.gz': 'x', 'ckpts/chk_1000.tar.gz': 'x', 'ckpts/chk_12.tar.gz': 'x',
                   'ckpts/chk_050': 'a file', 'ckpts/chk_070/x': 'directory', 'ckpts/old_chk_500.tar.gz': 'x', 'ckpts/chk_600.tar': 'x',
                   'ckpts/chk_700.tar.gz.bak': 'x', 'ckpts/005.tar.gz': 'x', 'ckpts/26_003_z.tar.gz': 'x', 'ckpts/20_777_z.tar.gz': 'x'}
            s['pre_files'] = {k: pre[k] for k in r.sample(sorted(pre), r.randint(1, 4))}
    if maybe(r, .08):
        s.setdefault('pre_files', {})['work/CHKPT'] = ''
    for o in sc['opts']:
        o['n'] = r.choice([5, 8, 13]) if o['dur'] >= .1 else r.choice([8, 13, 21])
    s['checker'] = ['or', ['MaxFuncCalls', r.choice([10, 25, 50, 80])], ['MaxOptsStarted', r.randint(1, 6)]]
    if 'ckpt' in s:
        for _ in range(r.choice([0, 0, 1, 2])):
            ov = {}
            if maybe(r, .5):
                ov['checkpoint_control'] = {'naming_format': 'new_%(count)', 'checkpoint_iter_frequency': r.choice([2, 5, 15]),
                                            'checkpoint_at_conv': maybe(r, .5), 'checkpoint_at_init': maybe(r, .5)}
            if maybe(r, .1):
                ov['checkpoint_control'] = None
            L = load_session(r, sc, **ov)
            L['which'] = r.choice(['latest', r.randrange(20)])
            if maybe(r, .4):
                L['events'] = [{'act': 'file', 'name': 'CHKPT', 'on': 'eval', 'count': r.randint(1, 10)}]
            sc['sessions'].append(L)
    return sc


def p_c17(r):
    f = {'fail': r.choice([0, .2, .4]), 'sigkill': r.choice([0, 0, .2]), 'hunt': r.choice([0, .5]), 'msg': .4,
         'sf': [(0, 1), (1, 3), (2, 1), (3, 10)], 'linger': .15, 'nan': r.choice([0, 0, .2]), 'stop_files': .2, 'share': .1,
         'ckpt': r.choice([0, .4]), 'interrupt': r.choice([0, 0, .2]), 'user_error': r.choice([0, 0, 0, .2]),
         'clock': r.choice([0, 0, 0, .3]), 'max_jobs': r.choice([1, 2, 3, 5, 8])}
    sc = base(r, f)
    s = sc['sessions'][0]
    s['checker'] = ['or', ['MaxFuncCalls', r.choice([10, 25, 50, 100])], s['checker']]
    extras(r, sc, .35)
    if maybe(r, .05):       # nothing at all to report
        for o in sc['opts']:
            o.update(fail=r.choice(['raise', 'die', 'silent']), fail_at=0)
    resume_maybe(r, sc, .5)
    for L in sc['sessions'][1:]:
        L['dump'] = maybe(r, .3)
        if maybe(r, .2):
            L['fresh_work'] = True
        elif maybe(r, .2):
            L['overrides']['working_dir'] = 'work3'
        if maybe(r, .15):
            L['sf'] = L['overrides']['summary_files'] = r.choice([0, 1, 3, 3])
        L['overrides']['convergence_checker'][1][1] = r.choice([20, 40, 80, 120])
    if len(sc['sessions']) == 2 and maybe(r, .3):
        sc['sessions'].append(dict(load_session(r, sc), which=r.choice(['latest', 0, 1, 3]), dump=maybe(r, .3)))
    return sc


RESULTS = {'work/glompo_manager_log.yml': 'a: 1', 'work/trajectories_log_best.png': 'p', 'work/trajectories.png': 'p',
           'work/trajectories_7.png': '', 'work/opt1_parms.png': 'p', 'work/opt12_parms.png': 'p', 'work/glompo_log.h5': 'h5'}
DECOYS = {'work/glompo_manager_log.yml.bak': 'a', 'work/my_trajectories.png': 'b', 'work/trajectories.pdf': 'c',
          'work/opt1_parms.csv': 'd', 'work/sub/glompo_manager_log.yml': 'e', 'work/sub/glompo_log.h5': 'f', 'work/data.txt': 'g',
          'work/glompo_log.h5.old': 'h', 'work/parms.png': 'i', 'other/glompo_log.h5': 'j', 'work/log.h5': 'k',
          'work/glompo_manager_log.yaml': 'l', 'work/sub/trajectories_x.png': 'm', 'glompo_manager_log.yml': 'n',
          'work/opt_log.yml': 'o', 'work/glompo_optimizer_printstreams.txt': 'p', 'cwd/trajectories.png': 'q', 'cwd/glompo_log.h5': 'r'}
STREAMS = {'work/glompo_optimizer_printstreams/printstream_0001.out': 'old', 'work/glompo_optimizer_printstreams/printstream_0043.out': 'old',
           'work/glompo_optimizer_printstreams/notes.txt': 'old'}


def p_c18(r):
    f = {'fail': r.choice([0, 0, .2]), 'hunt': r.choice([0, .2]), 'sf': [(0, 4), (1, 4), (2, 1), (3, 4)], 'linger': .05,
         'stop_files': .1, 'share': .1, 'ckpt': 0, 'max_jobs': r.choice([1, 2, 3, 5]), 'nscripts': r.randint(1, 3),
         'user_error': r.choice([0, 0, .2]), 'print': .3}
    sc = base(r, f)
    s = sc['sessions'][0]
    for o in sc['opts']:
        o['n'] = r.choice([3, 5, 8])
    s['checker'] = ['or', ['MaxFuncCalls', r.choice([5, 12, 25])], ['MaxOptsStarted', r.randint(1, 6)]]
    s['split'] = maybe(r, .4)
    s['overwrite'] = maybe(r, .5)

    def files(k):
        out = {}
        for src, p in ((RESULTS, .5), (DECOYS, .7), (STREAMS, .25)):
            if maybe(r, p):
                out.update({n: src[n] for n in r.sample(sorted(src), min(len(src), r.choice([1, 1, 2, 4, 9])))})
        if k:
            out.pop('work/glompo_log.h5', None)
            if maybe(r, .15):
                out = {n: v for n, v in out.items() if n not in RESULTS}
        return out

    s['pre_files'] = files(0)
    if maybe(r, .3):
        add_ckpt(r, s, s['events'])
        s['ckpt'].setdefault('checkpoint_iter_frequency', r.choice([3, 8]))
    for _ in range(r.choice([0, 1, 1, 2])):
        if 'ckpt' in s and maybe(r, .75):
            L = load_session(r, sc)
            L['overrides'].pop('overwrite_existing', None)
            if maybe(r, .6):
                L['overrides']['overwrite_existing'] = maybe(r, .75)
            if maybe(r, .2):
                L['overrides']['working_dir'] = r.choice(['work3', 'work/sub'])
            if maybe(r, .2):
                L['sf'] = L['overrides']['summary_files'] = r.choice([0, 1, 3])
        else:
            L = {**s, 'kind': 'new', 'overwrite': maybe(r, .6), 'sf': r.choice([0, 1, 3]), 'events': []}
        L['pre_files'] = files(1) if maybe(r, .4) else {}
        sc['sessions'].append(L)
    return sc


def p_c19(r):
    f = {'fail': r.choice([0, 0, .3]), 'sigkill': r.choice([0, 0, .3]), 'hunt': r.choice([0, .3]), 'sf': [(0, 12), (3, 1)],
         'linger': .2, 'nan': r.choice([0, 0, .3]), 'stop_files': .15, 'ckpt': r.choice([0, 0, .4]), 'share': 0,
         'max_jobs': r.choice([2, 3, 5, 8]), 'hang_for': r.choice([0, 0, .2]), 'clock': r.choice([0, 0, 0, .3])}
    sc = base(r, f)
    s = sc['sessions'][0]
    s['share'] = maybe(r, .9)
    sc['task']['vals']['mode'] = pick(r, ('rand', 4), ('pos', 2), ('ties', 2), ('zero', 3), ('neg', 3), ('inf', 2), ('desc', 4),
                                      ('allinf', 1), ('flat', 1))
    for o in sc['opts']:
        if maybe(r, .2):
            o['nan_first'] = r.randint(1, 3)
    if maybe(r, .15):
        sc['task']['vals'] = {'mode': 'sphere'}
        s['checker'] = ['or', ['MaxFuncCalls', r.choice([30, 80])], s['checker']]
        s['selector'] = {'type': 'cycle', 'entries': [['cma', {
            'workers': 1, 'injection_frequency': r.choice([1, 2, 5]), 'force_injects': maybe(r, .5)}, {'sigma0': r.choice([.5, 5.])}], ['A', {'workers': 1}, None]]}
    resume_maybe(r, sc, .3)
    for L in sc['sessions'][1:]:
        if maybe(r, .3):
            L['share'] = L['overrides']['share_best_solutions'] = maybe(r, .6)
    return sc


def p_c20(r):
    f = {'fail': r.choice([0, .2, .5]), 'sigkill': r.choice([0, 0, .3]), 'hunt': r.choice([0, .4]), 'sf': [(0, 12), (1, 1)],
         'linger': .2, 'stop_files': .2, 'ckpt': r.choice([0, 0, .3]), 'share': .1, 'print': .8, 'log': .7, 'msg': .2,
         'max_jobs': r.choice([1, 2, 3, 5, 8]), 'hang_for': r.choice([0, 0, .1]), 'interrupt': r.choice([0, 0, .1])}
    sc = base(r, f)
    s = sc['sessions'][0]
    s['split'] = maybe(r, .85)
    sc['mng_print'] = maybe(r, .6)
    if maybe(r, .4):
        s['split_logs'] = r.choice(['propagate', 'only', 'bare'])
    s['checker'] = ['or', ['MaxFuncCalls', r.choice([10, 25, 50, 100])], s['checker']]
    for _ in range(r.choice([0, 1, 2, 3])):
        s['events'].append({'act': 'user_thread', 'on': r.choice(['eval', 'opt_end', 'thread_exit', 'opt_begin', 'log_opt', 'print']),
                            'count': r.randint(1, 8), 'delay': r.choice([0, 1e-5, 1e-3, .3]), 'n': r.choice([1, 3, 8]),
                            'every': r.choice([1e-4, .01, .5]), 'err': maybe(r, .3)})
    resume_maybe(r, sc, .3)
    for L in sc['sessions'][1:]:
        L['same_proc'] = maybe(r, .6)
        L['split_logs'] = s.get('split_logs')
        if maybe(r, .2):
            L['split'] = L['overrides']['split_printstreams'] = maybe(r, .5)
        if maybe(r, .3):
            L['events'] = [{'act': 'user_thread', 'on': 'eval', 'count': r.randint(1, 8), 'delay': 0, 'n': 3, 'every': .01}]
    return sc


def extras(r, sc, p):
    if maybe(r, p):
        sc['task']['n_extra'] = r.randint(1, 3)
        sc['task']['headers'] = maybe(r, .5)
        sc['sessions'][0]['detailed'] = maybe(r, .85)


def leaf_checker(r):
    return pick(r, (['MaxFuncCalls', r.choice([1, 5, 10, 17, 30, 50, 90])], 3), (['MaxOptsStarted', r.randint(1, 7)], 2),
                (['KillsAfterConvergence', r.randint(0, 3), r.randint(1, 4)], 3), (['NOptConverged', r.randint(1, 6)], 3),
                (['MaxKills', r.randint(1, 5)], 3), (['TargetCost', r.choice([-90.0, -50.0, 0.0, 5.0])], 2),
                (['TargetCost', r.choice([-50.0, 0.0, 10.0]), r.choice([0.0, 1.0, 20.0])], 1),
                (['MaxSeconds', {r.choice(['session_max', 'overall_max']): r.choice([.001, .01, .1, 1., 10.])}], 3))


def tree_checker(r, depth=2):
    if depth == 0 or maybe(r, .35):
        return leaf_checker(r)
    k = r.choice(['or', 'and'])
    a, b = tree_checker(r, depth - 1), tree_checker(r, depth - 1)
    if k == 'and' and 'KillsAfterConvergence' in str(b):      # when its count begins depends on when it is looked at
        a, b = b, a
        if 'KillsAfterConvergence' in str(b):
            b = ['MaxFuncCalls', r.choice([5, 17, 40])]
    return [k, a, b]


def p_c21(r):
    f = {'fail': r.choice([0, 0, .3]), 'sigkill': r.choice([0, 0, .3]), 'hunt': .6, 'sf': [(0, 12), (1, 1)], 'linger': .2,
         'nan': r.choice([0, 0, .2]), 'stop_files': .3, 'ckpt': .15, 'share': .1, 'max_jobs': r.choice([1, 2, 3, 5]),
         'clock': r.choice([0, 0, 0, .4]), 'checker': lambda r: tree_checker(r)}
    f['dur'] = pick(r, (1e-5, 1), (1e-4, 2), (1e-3, 3), (.01, 3), (.1, 2), (.5, 1))
    sc = base(r, f)
    s = sc['sessions'][0]
    if maybe(r, .4):        # something which is always reached
        s['checker'] = tree_checker(r)
        s['selector']['spawn'] = pick(r, (['opts', r.randint(1, 8)], 3), (['evals', r.choice([1, 5, 20])], 1))
        if s['selector']['spawn'][0] == 'evals':
            s['checker'] = ['or', s['checker'], ['MaxOptsStarted', 14]]
    resume_maybe(r, sc, .5)
    for L in sc['sessions'][1:]:
        if maybe(r, .3):
            s['checker'] = ['or', ['MaxOptsStarted', 14], ['or', tree_checker(r), ['MaxFuncCalls', 150]]]
            L['overrides'].pop('convergence_checker')
        else:
            L['overrides']['convergence_checker'] = ['or', tree_checker(r), ['or', ['MaxFuncCalls', r.choice([10, 40, 100])],
                                                                              ['MaxOptsStarted', r.randint(3, 12)]]]
    if len(sc['sessions']) > 1 and maybe(r, .3):
        L = dict(sc['sessions'][1])
        L['overrides'] = {k: v for k, v in L['overrides'].items() if k != 'convergence_checker' or maybe(r, .5)}
        L['which'] = 'latest'
        sc['sessions'].append(L)
    return sc


def p_c22(r):
    f = {'fail': r.choice([0, 0, .3]), 'sigkill': r.choice([0, 0, .2]), 'hunt': .3, 'sf': [(0, 4), (1, 5), (2, 1), (3, 5)],
         'linger': .2, 'nan': r.choice([0, 0, .2]), 'stop_files': .1, 'ckpt': .25, 'share': .4,
         'max_jobs': r.choice([1, 2, 3, 5]), 'hang_for': r.choice([0, 0, .1]), 'ignore_stop': r.choice([0, 0, .1])}
    what = pick(r, ('interrupt', 5), ('error', 4), ('disk', 3))
    if what == 'error':
        f['user_error'] = 1
    sc = base(r, f)
    s = sc['sessions'][0]
    if maybe(r, .5):
        s['checker'] = ['or', s['checker'], ['MaxFuncCalls', r.choice([10, 25, 50])]]
    if what == 'error':
        s['events'] = [e for e in s['events'] if e['act'] != 'interrupt']
        if maybe(r, .25):
            sc['opts'][r.randrange(len(sc['opts']))]['init_raise'] = True
        if maybe(r, .3):
            k = r.choice(['hunter', 'gen'])
            if k == 'hunter' and s.get('hunter'):
                s['hunter'] = [r.choice(['or', 'and']), s['hunter'], ['RaisingHunter', r.randint(1, 20)]]
            elif k == 'gen':
                s['generator'] = ['seq', r.randint(1, 6)]
    elif what == 'interrupt':
        s['events'].append({'act': 'interrupt', 'wide': True, 'on': r.choice(
            ['eval', 'log_iter', 'log_iter', 'log_iter', 'tx', 'opt_end', 'log_opt', 'send', 'rx_stop', 'ckpt_begin', 'opt_save', 'proc_start',
             'opt_begin', 'log_meta', 'hunt_eval', 'thread_exit', 'proc_exit', 'start', 'file_put', 'fail']),
            'count': r.choice([1, 1, 2, 3, 5, 8, 13]), 'delay': r.choice([0, 0, 1e-5, 1e-4, 1e-3, .05, .5]),
            'group': maybe(r, .4)})
    else:
        s['sf'] = r.choice([1, 1, 2, 3])
        d = disk_fault(r, where='/work', kinds=['open_w', 'write', 'mkdir'], on=r.choice(['eval', 'log_iter', 'opt_end', 'rx_stop']),
                       count=r.choice([1, 3, 8, 15]))
        d['k'] = r.choice([1, 1, 2, 3, 5])
        s['events'].append(d)
    if maybe(r, .3) and what != 'disk':
        if 'ckpt' not in s:
            add_ckpt(r, s, s['events'])
        s['ckpt']['checkpoint_iter_frequency'] = r.choice([2, 5, 8])
        if maybe(r, .3):
            s['ckpt']['raise_checkpoint_fail'] = True
            s['on_ckpt'] = [disk_fault(r, n_ckpt=r.randint(0, 3))]
    if what != 'error':
        resume_maybe(r, sc, .25)
        if len(sc['sessions']) > 1:
            L = sc['sessions'][1]
            mine = [e for e in s['events'] if e['act'] in ('interrupt', 'disk')]
            L['events'] = [dict(e, count=r.choice([1, 2, 5])) for e in mine]
            if maybe(r, .6):
                s['events'] = [e for e in s['events'] if e not in mine]
    return sc


def resume_maybe(r, sc, p, **ov):
    """ Adds a checkpoint to the first session and a second session continuing from it. """
    if not maybe(r, p):
        return sc
    s = sc['sessions'][0]
    if 'ckpt' not in s:
        add_ckpt(r, s, s['events'])
    s['ckpt'].setdefault('checkpoint_iter_frequency', r.choice([3, 8, 15]))
    sc['sessions'].append(load_session(r, sc, **ov))
    return sc


def load_session(r, sc, **ov):
    s = sc['sessions'][0]
    lim = r.choice([30, 60, 120, 250])
    overrides = {'convergence_checker': ['or', ['MaxFuncCalls', lim], ['MaxOptsStarted', r.randint(8, 16)]]}
    if s.get('sf'):
        overrides['overwrite_existing'] = True
    overrides.update(ov)
    return {'kind': 'load', 'which': r.randrange(20), 'overrides': overrides, 'sf': s.get('sf', 0),
            'max_jobs': overrides.get('max_jobs', s['max_jobs']), 'backend': overrides.get('backend', s['backend']),
            'share': s.get('share'), 'selector': {**s['selector']}, 'hunt_freq': s.get('hunt_freq', 100),
            'hunter': s.get('hunter'), 'ckpt': s.get('ckpt'), 'end_timeout': s.get('end_timeout'),
            'aggressive': s.get('aggressive'), 'force_after': s.get('force_after', -1), 'split': s.get('split', False),
            'detailed': s.get('detailed'), 'generator': s.get('generator'),
            'task_from': 'both' if not sc['task'].get('picklable', True) else r.choice(['none', 'both'])}


PROFILES = {}


def make(profile, seed):
    fn = PROFILES.get(profile) or globals()['p_' + profile.lower()]
    r = random.Random(f'{profile}:{seed}')
    sc = fn(r)
    sc['seed'] = seed & 0x7fffffff
    sc['profile'] = profile
    return sc
