"""Shared frame of the checks: extraction of the resolved program from /repo's
working tree, obligations, violations, known findings, evidence."""
import fcntl
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IFC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
KNOWN = os.path.join(VERIF, 'known-findings.txt')


def env():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'RUSTC_WORKSPACE_WRAPPER',
              'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    root = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], env=e, text=True).strip()
    e['LD_LIBRARY_PATH'] = root + '/lib'
    return e


def driver(e):
    """path of the built rustc driver"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'driver.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = dict(e)
        e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'drv')
        r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '-q'], env=e,
                           cwd=os.path.join(VERIF, 'driver'), text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError('driver build failed:\n' + r.stdout)
    return os.path.join(BUILD, 'drv', 'release', 'ifc-facts')


class BuildFailed(Exception):
    pass


def extract():
    """facts of the current working tree of the repository; returns the path of the dump"""
    e = env()
    drv = driver(e)
    work = tempfile.mkdtemp(prefix='ifcfacts', dir=BUILD)
    out = os.path.join(work, 'facts.json')
    e['IFC_FACTS_CRATE'] = 'ifc_rs'
    e['IFC_FACTS_OUT'] = out
    e['RUSTC_WORKSPACE_WRAPPER'] = drv
    e['CARGO_TARGET_DIR'] = os.path.join(work, 'target')
    had_lock = os.path.exists(os.path.join(REPO, 'Cargo.lock'))
    if not had_lock:
        for c in ('/opt/vp/Cargo.lock',):
            if os.path.exists(c):
                shutil.copy(c, os.path.join(REPO, 'Cargo.lock'))
    r = subprocess.run(['cargo', '+nightly', 'check', '-p', 'ifc_rs', '--lib', '--features', 'bevy_math/std',
                        '--offline'], env=e, cwd=REPO, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(os.path.join(work, 'target'), ignore_errors=True)
    if r.returncode or not os.path.exists(out):
        shutil.rmtree(work, ignore_errors=True)
        raise BuildFailed(r.stdout[-4000:])
    return out, work


class Ctx:
    def __init__(self, pid, tier, F, build):
        self.pid = pid
        self.tier = tier
        self.F = F
        self.obl = {}          # kind -> [total, discharged]
        self.viol = {}         # key -> text
        self.known = {}        # key -> text
        self.und = {}
        self.counts = {}
        self.samples = []
        self.missing = []
        self.assumptions = []
        self.fns = set()
        self.trusted = []
        self.open = {}
        self._load()

    def _load(self):
        if not os.path.exists(KNOWN):
            return
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(.+?) \| (.*)$', line.rstrip('\n'))
            if m and m.group(1) == self.pid:
                self.open[m.group(2)] = m.group(3)

    # one obligation decided
    def good(self, kind, what=None, n=1):
        o = self.obl.setdefault(kind, [0, 0])
        o[0] += n
        o[1] += n
        if what is not None and o[1] <= 3 + n:
            self.samples.append('%s: %s' % (kind, what))

    def bad(self, kind, key, text):
        o = self.obl.setdefault(kind, [0, 0])
        o[0] += 1
        if key in self.open:
            self.known.setdefault(key, text)
        else:
            self.viol.setdefault(key, text)

    def undecided(self, kind, key, why):
        o = self.obl.setdefault(kind, [0, 0])
        o[0] += 1
        self.und.setdefault('%s: %s' % (kind, key), why)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """fail closed when fewer instances than confirmed by hand were analysed"""
        have = self.counts.get(name)
        if have is None:
            have = sum(self.obl.get(name, [0, 0])[:1])
        if have < n:
            self.missing.append('%s: %d analysed, expected at least %d' % (name, have, n))

    def anchor_missing(self, what):
        self.missing.append('anchor not found: ' + what)

    def parallel(self, jobs, run):
        """run(ctx, job) for every job, in forked processes; results in job order"""
        jobs = list(jobs)
        n = min(len(jobs), os.cpu_count() or 1)
        if n < 2:
            for j in jobs:
                run(self, j)
            return
        mp = multiprocessing.get_context('fork')
        nxt = mp.Value('i', 0)
        out = {}
        procs = []
        sys.stdout.flush()
        for _ in range(n):
            r, w = mp.Pipe(False)
            p = mp.Process(target=self._work, args=(jobs, run, nxt, w))
            p.start()
            w.close()
            procs.append((p, r))
        for p, r in procs:
            try:
                part = r.recv()
            except EOFError:
                part = 'a worker ended'
            p.join()
            if isinstance(part, str):
                raise RuntimeError(part)
            out.update(part)
        for i in range(len(jobs)):
            c = out[i]
            for k, v in c.obl.items():
                o = self.obl.setdefault(k, [0, 0])
                o[0] += v[0]
                o[1] += v[1]
            for k, v in c.counts.items():
                self.count(k, v)
            for a in ('viol', 'known', 'und'):
                for k, v in getattr(c, a).items():
                    getattr(self, a).setdefault(k, v)
            self.samples += c.samples[:1]
            self.fns |= c.fns
            self.missing += c.missing
            self.assumptions += c.assumptions

    def _work(self, jobs, run, nxt, w):
        got = {}
        try:
            while True:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= len(jobs):
                    break
                c = Ctx(self.pid, self.tier, self.F, None)
                run(c, jobs[i])
                c.F = None
                got[i] = c
            w.send(got)
        except BaseException:
            import traceback
            w.send(traceback.format_exc())
        w.close()

    def where(self, fnkey):
        f = self.F.fns.get(fnkey)
        return f['sp'] if f else '?'


def finish(ctx, t0, technique, extra=None):
    total = sum(v[0] for v in ctx.obl.values())
    disch = sum(v[1] for v in ctx.obl.values())
    for m in ctx.missing:
        if ctx.und and not m.startswith('anchor'):
            # what was not reached is accounted for by the undecided obligations
            ctx.und.setdefault('coverage: ' + m, 'undecided obligations')
            continue
        ctx.viol.setdefault('coverage:' + m, 'the rule no longer covers what it was confirmed to cover: ' + m)
    ev = {
        'property': ctx.pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': technique,
            'obligations': total, 'discharged': disch,
            'by_rule': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in sorted(ctx.obl.items())},
            'counts': dict(sorted(ctx.counts.items())),
            'functions_analysed': len(ctx.fns),
            'samples': ctx.samples[:12] or ['none'],
            'undecided': ['%s: %s' % kv for kv in sorted(ctx.und.items())][:60],
            'known_findings': ['%s: %s' % (k, v) for k, v in sorted(ctx.known.items())],
        },
        'assumptions': sorted(set(ctx.assumptions)),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(ctx.viol),
    }
    if extra:
        ev['coverage'].update(extra)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, ctx.pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)
    print('%s: %d obligations, %d discharged, %d undecided, %.1f s' % (ctx.pid, total, disch, len(ctx.und),
                                                                       time.time() - t0))
    for k, why in sorted(ctx.und.items())[:20]:
        print('UNDECIDED %s: %s' % (k, str(why)[:400]))
    for k in sorted(ctx.known):
        print('KNOWN-FINDING: property=%s %s | %s' % (ctx.pid, k, ctx.open[k]))
    if ctx.viol:
        rp = os.path.join(d, ctx.pid + '.violation.json')
        with open(rp, 'w') as f:
            json.dump({'property': ctx.pid, 'violations': [{'key': k, 'what': v} for k, v in sorted(ctx.viol.items())]},
                      f, indent=1)
        for k, v in sorted(ctx.viol.items())[:25]:
            print('  %s\n      %s' % (k, str(v)[:1200]))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    return 0
