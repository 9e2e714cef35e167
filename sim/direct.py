"""Workloads on single shared objects, without a manager: the results queue under statement-level preemption."""
import gc
import os
import queue
import shutil
import tempfile

from . import osim, workload as wl
from .core import Sim, Stuck
from .session import boot, G


def run(sc, choice, base_tmp=None):
    boot()
    scratch = tempfile.mkdtemp(prefix='gd_', dir=base_tmp)
    gc.collect()
    gc.disable()
    w = wl.World(sc, choice, scratch)
    wl.set_world(w)
    sim = w.sim
    Sim.cur = sim
    w.direct = {'reach': {}, 'msgs': [], 'stuck': None}
    sim.main_proc = osim.SimProc(sim, 'main', wl_stream(), wl_stream())
    try:
        globals()['do_' + sc['what']](w, sc)
    except Stuck as e:
        w.direct['stuck'] = str(e)
    finally:
        sim.end()
        Sim.cur = None
        wl.set_world(None)
        shutil.rmtree(scratch, ignore_errors=True)
        gc.enable()
    return w


def wl_stream():
    from .session import RecStream
    return RecStream('out')


def do_queue(w, sc):
    sim = w.sim
    d = w.direct
    q = G['ChunkingQueue'](sc['max'], sc['chunk'])
    hist = d['hist'] = {'sent': {}, 'got': [], 'sizes': [], 'errors': []}
    state = {'left': len(sc['producers']), 'flushed': False, 'stop': False}
    rc = d['reach']

    def note(k):
        rc[k] = rc.get(k, 0) + 1

    def producer(i, ops):
        def body():
            sent = hist['sent'][i] = []
            try:
                for k, (op, pause) in enumerate(ops):
                    if pause:
                        sim.sleep(pause)
                    item = (i, len(sent))
                    full = q.full()
                    if op == 'flush':
                        w.rec('flush', i)
                        q.flush()
                    else:
                        w.rec('op', i, op, item)
                        sent.append(item)
                        getattr(q, op)(item)
                    note(op + ('_full' if full else ''))
                    w.rec('done', i, op)
                    sim.progress()
            except Exception as e:      # noqa
                hist['errors'].append(f'producer {i}: {op} raised {e!r}')
            state['left'] -= 1
            if not state['left']:
                try:
                    if q.has_cache():
                        note('final_flush')
                        q.flush()
                except Exception as e:      # noqa
                    hist['errors'].append(f'flush raised {e!r}')
                state['flushed'] = True
                w.rec('flushed')
        return body

    def consumer(j):
        def body():
            k = 0
            while True:
                plan = sc['consumer'][k % len(sc['consumer'])]
                k += 1
                if plan[1]:
                    sim.sleep(plan[1])
                hist['sizes'].append(q.qsize())
                if q.qsize() >= sc['max'] > 0:
                    note('queue_full')
                try:
                    if plan[0] == 'nowait':
                        chunk = q.get_nowait()
                    else:
                        chunk = q.get(True, plan[2])
                except queue.Empty:
                    if state['flushed'] and q.empty():
                        break
                    if plan[0] == 'nowait':
                        sim.sleep(0.01)
                    continue
                note('chunks')
                if len(chunk) > 1:
                    note('chunks_of_several')
                for it in list(chunk):
                    w.rec('got', it)
                    hist['got'].append(it)
                sim.progress()
        return body

    speeds = sc.get('speeds') or [1.0]
    tasks = [sim.spawn(producer(i, ops), f'producer{i}', proc=sim.main_proc, label=f'P{i}', delay=0.0,
                       speed=speeds[i % len(speeds)]) for i, ops in enumerate(sc['producers'])]
    tasks.append(sim.spawn(consumer(0), 'consumer', proc=sim.main_proc, label='C', speed=sc.get('cons_speed', 1.0), delay=0.0))
    sim.run(lambda: not any(t.alive for t in tasks))
    rc['items'] = len(hist['got'])
    rc['fast_mode'] = int(bool(q.fast_func))


def check_queue(w, sc):
    d = w.direct
    h = d.get('hist', {})
    if d['stuck']:
        yield f"queue operations block for ever: {d['stuck'][:300]}"
        return
    for e in h['errors']:
        yield e
    sent = [it for l in h['sent'].values() for it in l]
    got = h['got']
    cnt = {}
    for it in got:
        cnt[it] = cnt.get(it, 0) + 1
    lost = [it for it in sent if it not in cnt]
    dup = [it for it, n in cnt.items() if n > 1]
    if lost:
        yield f'{len(lost)} of {len(sent)} items were never delivered: {lost[:5]}'
    if dup:
        yield f'items were delivered more than once: {dup[:5]}'
    if any(it not in set(sent) for it in cnt):
        yield 'items were delivered which nobody sent'
    for i in h['sent']:
        mine = [k for p, k in got if p == i]
        if mine != sorted(mine):
            yield f'items of producer {i} were delivered out of order: {mine[:20]}'
    if sc['max'] > 0 and max(h['sizes'] or [0]) > sc['max']:
        yield f"{max(h['sizes'])} chunks waited in a queue of size {sc['max']}"
