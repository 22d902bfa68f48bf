"""Exploration of the path trees of all harnesses of a property on a pool of worker processes."""

import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

from . import core
from . import instr

PATH_SECONDS = 20
SLICE_SECONDS = 0.5


def _alarm(signum, frame):
    raise core.PathTimeout()


def run_path(harness, params, bs, item, stats):
    """Run one path. (status, message, ctx, children)"""
    inputs, bound, expect, hist, _ = item
    ctx = core.Ctx(inputs, params, stats, hist)
    core.CUR = ctx
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS)
    status, message = 'ok', None
    try:
        try:
            harness.fn(ctx, bs)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except core.Abandon:
        status = 'abandoned'
        stats['abandoned'] += 1
    except core.CheckFailed as e:
        status, message = 'cex', str(e.message)
    except core.PathTimeout:
        status, message = 'hang', f'no result within {PATH_SECONDS} s'
        stats['timeouts'] += 1
    except Exception as e:      # pylint: disable=broad-exception-caught
        status, message = 'exc', f'unexpected {type(e).__name__}: {e}'
        ctx.tb = traceback.format_exc()
    stats['paths'] += 1
    core.CUR = None
    children = ctx.expand(bound, expect, harness.strata) if status != 'hang' else []
    return status, message, ctx, children


def worker(conn, harnesses, params, bs, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(8000)
    rng = random.Random(seed)
    reported = {}
    while True:
        msg = conn.recv()
        if msg is None:
            break
        hix, items, seconds = msg
        stats = core.Stats()
        h = harnesses[hix]
        cexs = []
        samples = []
        reach = {}
        stop = time.monotonic() + seconds
        front = Front(h.order == 'random', rng)
        front.extend(items)
        while front.count and time.monotonic() < stop:
            item = front.pop()
            status, message, ctx, children = run_path(h, params[hix], bs, item, stats)
            front.extend(children)
            for r in ctx.reached:
                reach[r] = reach.get(r, 0) + 1
            if status in ('cex', 'hang', 'exc'):
                key = (hix, status, message[:60])
                reported[key] = reported.get(key, 0) + 1
                if reported[key] <= 6:
                    cexs.append((status, message, ctx.inputs, getattr(ctx, 'tb', None)))
            elif status == 'ok' and len(samples) < 1:
                samples.append(dict(ctx.inputs))
        conn.send((hix, front.all(), dict(stats), cexs, samples, set(instr.EXECUTED), reach))


class Front:
    """Unexplored items; random order draws a stratum (first choices) and then an item of it, newest first otherwise"""

    def __init__(self, randomised, rng):
        self.randomised = randomised
        self.rng = rng
        self.groups = {}
        self.keys = []
        self.count = 0

    def extend(self, items):
        for it in items:
            k = it[4]
            g = self.groups.get(k)
            if g is None:
                g = self.groups[k] = []
                self.keys.append(k)
            g.append(it)
        self.count += len(items)

    def pop(self, oldest=False):
        if not self.randomised:
            g = self.groups[self.keys[-1]]
            self.count -= 1
            r = g.pop()
            if not g:
                del self.groups[self.keys.pop()]
            return r
        i = self.rng.randrange(len(self.keys))
        k = self.keys[i]
        g = self.groups[k]
        j = self.rng.randrange(len(g))
        g[j], g[-1] = g[-1], g[j]
        r = g.pop()
        self.count -= 1
        if not g:
            del self.groups[k]
            self.keys[i] = self.keys[-1]
            self.keys.pop()
        return r

    def take(self, n):
        """n items to hand out (deepest last: the oldest, largest sub-trees first in dfs order)"""
        if self.randomised:
            return [self.pop() for _ in range(min(n, self.count))]
        k = self.keys[0]
        g = self.groups[k]
        r = g[:n]
        del g[:n]
        self.count -= len(r)
        if not g:
            del self.groups[k]
            self.keys.pop(0)
        return r

    def all(self):
        return [it for g in self.groups.values() for it in g]

    def truncate(self, n):
        dropped = 0
        while self.count > n:
            self.pop()
            dropped += 1
        return dropped


class Explorer:
    def __init__(self, prop, harnesses, params, bs, seed, seconds, nproc, on_cex, max_frontier=400000):
        self.prop = prop
        self.harnesses = harnesses
        self.params = params
        self.bs = bs
        self.seed = seed
        self.seconds = seconds
        self.nproc = nproc
        self.on_cex = on_cex
        self.max_frontier = max_frontier
        self.stats = [core.Stats() for _ in harnesses]
        self.front = []
        for h in harnesses:
            f = Front(h.order == 'random', random.Random(seed))
            f.extend([({}, 0, None, {}, ())])
            self.front.append(f)
        self.busy = [0] * len(harnesses)
        self.spent = [0.0] * len(harnesses)
        self.samples = [[] for _ in harnesses]
        self.reach = [{} for _ in harnesses]
        self.executed = set()
        self.dropped = [0] * len(harnesses)

    def run(self):
        ctxm = mp.get_context('fork')
        conns = []
        procs = []
        for i in range(self.nproc):
            a, b = ctxm.Pipe()
            p = ctxm.Process(target=worker, args=(b, self.harnesses, self.params, self.bs, self.seed * 1000 + i), daemon=True)
            p.start()
            b.close()
            conns.append(a)
            procs.append(p)
        start = time.monotonic()
        idle = list(range(self.nproc))
        running = {}
        stopped = False
        try:
            while True:
                now = time.monotonic()
                over = now - start > self.seconds or stopped
                if not over:
                    while idle:
                        hix = self.next_harness()
                        if hix is None:
                            break
                        front = self.front[hix]
                        items = front.take(max(1, min(200, front.count // (2 * self.nproc) or 1)))
                        w = idle.pop()
                        left = max(0.05, self.seconds - (now - start))
                        small = front.count < 4 * self.nproc
                        conns[w].send((hix, items, min(left, 0.05 if small else SLICE_SECONDS)))
                        self.busy[hix] += 1
                        running[w] = (hix, now)
                if not running:
                    break
                ready = mp.connection.wait([conns[w] for w in running], timeout=1.0)
                for c in ready:
                    w = conns.index(c)
                    hix, t0 = running.pop(w)
                    self.busy[hix] -= 1
                    try:
                        _, items, stats, cexs, samples, executed, reach = c.recv()
                    except EOFError:
                        # worker died (memory): its items are lost, counted as unexplored
                        self.dropped[hix] += 1
                        a, b = ctxm.Pipe()
                        p = ctxm.Process(target=worker, args=(b, self.harnesses, self.params, self.bs, self.seed * 1000 + w), daemon=True)
                        p.start()
                        b.close()
                        conns[w] = a
                        procs[w] = p
                        idle.append(w)
                        continue
                    idle.append(w)
                    self.spent[hix] += time.monotonic() - t0
                    self.stats[hix].merge(stats)
                    self.front[hix].extend(items)
                    self.executed |= executed
                    for k, v in reach.items():
                        self.reach[hix][k] = self.reach[hix].get(k, 0) + v
                    if len(self.samples[hix]) < 3:
                        self.samples[hix].extend(samples)
                    if self.front[hix].count > self.max_frontier:
                        self.dropped[hix] += self.front[hix].truncate(self.max_frontier)
                    for cex in cexs:
                        if not stopped and self.on_cex(hix, *cex):
                            stopped = True
                if time.monotonic() - start > self.seconds + 2 * PATH_SECONDS + 30:
                    break
        finally:
            for w, p in enumerate(procs):
                if w in running:
                    p.terminate()
                else:
                    try:
                        conns[w].send(None)
                    except OSError:
                        pass
            for p in procs:
                p.join(2)
                if p.is_alive():
                    p.kill()
        self.wall = time.monotonic() - start
        return stopped

    def next_harness(self):
        """Least served harness (by weight) that has work"""
        best = None
        for i, h in enumerate(self.harnesses):
            if not self.front[i].count:
                continue
            score = (self.spent[i] + 0.3 * self.busy[i]) / h.weight
            if best is None or score < best[0]:
                best = (score, i)
        return None if best is None else best[1]

    def complete(self, hix):
        return not self.front[hix].count and not self.busy[hix] and not self.dropped[hix]
