#!/usr/bin/env python3
"""Decide one property: explore the specification with TLC, replay what it says on the real
library, and judge the differences.

    check.py ID                 VERIF_TIER (quick, thorough) and VERIF_SEED from the environment
    check.py --replay FILE      replay a saved counterexample
    check.py --setup            build the harness once

Exit 0: the property held; 1: it is violated; anything else: the check itself failed.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')   # elsewhere only for experiments
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import plans   # noqa: E402
import judge   # noqa: E402

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off')
    e.setdefault('HOME', '/root')
    e.setdefault('GOPATH', '/root/go')
    e.setdefault('GOMODCACHE', '/root/go/pkg/mod')
    go = '/opt/veriftools/go1.27.3/bin'
    if os.path.isdir(go):
        e['PATH'] = go + ':' + e.get('PATH', '/usr/bin:/bin')
    return e


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.reports = []
        self.cov = {}
        self.stats = dict(states=0, transitions=0, traces=0, steps=0)
        self.parts = []
        self.samples = []
        self.outdir = os.path.join(VERIF, 'evidence', 'replay', prop)
        if REPO != '/repo':
            self.outdir = os.path.join(REPO, '.verif-replay', prop)
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- building

    def build(self, how=''):
        """how: 'race' with the race detector, 'yield' with yield points in the library."""
        src = os.path.join(self.tmp, 'harness')
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, 'harness'), src)
        if REPO != '/repo':
            p = os.path.join(src, 'go.mod')
            t = open(p).read().replace('=> /repo', '=> ' + REPO)
            open(p, 'w').write(t)
        opts = []
        if how == 'race':
            opts = ['-race']
        elif how == 'yield':
            d = os.path.join(self.tmp, 'overlay')
            os.makedirs(d)
            subprocess.run([self.bin, 'instrument', '-in', REPO, '-out', d], check=False)
            opts = ['-tags', 'verifyield', '-overlay', os.path.join(d, 'overlay.json')]
        plain, self.bin = getattr(self, 'bin', None), os.path.join(self.tmp, 'h' + how)
        r = subprocess.run(['go', 'build'] + opts + ['-o', self.bin, '.'], cwd=src, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and how == 'yield':
            self.bin = plain     # sources the yield points do not fit into: without them
            self.cov['without yield points'] = 1
        elif r.returncode != 0:
            raise CheckError('the harness does not build:\n' + r.stdout[-4000:])

    # ---- TLC

    def tlc(self, name, module, text, cfg, workers=CPUS, timeout=800):
        """Run TLC on a module with the given text (None: as it is); returns the output file."""
        t0 = time.time()
        d = os.path.join(self.tmp, name)
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, 'spec')):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(VERIF, 'spec', f), d)
        if text is not None:
            open(os.path.join(d, module + '.tla'), 'w').write(text)
        open(os.path.join(d, 'run.cfg'), 'w').write(cfg)
        out = os.path.join(d, 'out.txt')
        with open(out, 'w') as fh:
            r = subprocess.run(['java', '-Xmx6g', '-Xss64m', '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC',
                                '-config', 'run.cfg', '-workers', str(workers), '-metadir',
                                os.path.join(d, 'meta'), module + '.tla'],
                               cwd=d, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        msgs = []
        with open(out) as fh:
            for l in fh:
                if not l.startswith('"@@'):
                    msgs.append(l)
        msg = ''.join(msgs)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', msg)
        if r.returncode != 0 or 'No error has been found' not in msg or not m:
            raise CheckError('TLC failed on %s (%s), exit %d:\n%s' % (name, module, r.returncode, msg[-3000:]))
        gen, dist, _ = map(int, m[-1])
        self.stats['states'] += dist
        self.stats['transitions'] += gen
        self.parts.append(dict(part=name, module=module, states=dist, transitions=gen, tlc_s=round(time.time() - t0, 1)))
        return out

    # ---- replay

    def shard(self, mode, args, i, n):
        cmd = [self.bin, mode] + args + ['-shard', '%d/%d' % (i, n), '-out', self.outdir, '-seed', str(self.seed)]
        e = dict(os.environ, GORACE='log_path=%s exitcode=0 history_size=4' % os.path.join(self.tmp, 'race'))
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=self.tmp, env=e)

    def races(self, mode):
        """What the race detector says about the library."""
        seen = {}
        for f in sorted(os.listdir(self.tmp)):
            if not f.startswith('race.'):
                continue
            for r in open(os.path.join(self.tmp, f)).read().split('=================='):
                if 'DATA RACE' not in r:
                    continue
                where = []
                for part in re.split(r'\n(?=(?:Previous |Read |Write |Goroutine ))', r):
                    if re.match(r'(?:Previous )?(?:[Rr]ead|[Ww]rite) at', part.replace('WARNING: DATA RACE', '').strip()):
                        fr = re.findall(r'^  (\S+)\(', part, re.M)
                        own = [x for x in fr if x.startswith(('main.', 'github.com/'))]
                        where.append(own[0] if own else '?')
                if not any('libsignal-protocol-go/' in w for w in where):
                    raise CheckError('the harness itself has a data race:\n' + r[:3000])
                seen.setdefault(' and '.join(sorted(where)), r)
        for w, r in seen.items():
            os.makedirs(self.outdir, exist_ok=True)
            p = os.path.join(self.outdir, 'race-%d.txt' % len(self.reports))
            open(p, 'w').write(r)
            self.reports.append(dict(type='mism', kind=mode, trace='race', cfg='', tags=[], file=p,
                                     mism=[{'class': 'conc:race', 'step': 0, 'detail': 'data race: ' + w}]))

    def replay(self, mode, args, n=CPUS):
        t0 = time.time()
        with concurrent.futures.ThreadPoolExecutor(min(n, CPUS)) as ex:
            rs = list(ex.map(lambda i: self.shard(mode, args, i, n), range(n)))
        got = dict(traces=0, steps=0)
        for i, r in enumerate(rs):
            done = False
            for l in r.stdout.splitlines():
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if j['type'] == 'mism':
                    self.reports.append(j)
                elif j['type'] == 'sum':
                    done = True
                    got['traces'] += j['traces']
                    got['steps'] += j['steps']
                    for k, v in (j.get('cov') or {}).items():
                        self.cov[k] = self.cov.get(k, 0) + v
                    for s in j.get('sample') or []:
                        if len(self.samples) < 6:
                            self.samples.append(s)
            if not done:
                if 'libsignal-protocol-go/' in r.stderr and ('fatal error' in r.stderr or 'panic' in r.stderr):
                    os.makedirs(self.outdir, exist_ok=True)
                    f = os.path.join(self.outdir, 'fatal-%s-%d.txt' % (mode, i))
                    open(f, 'w').write(' '.join(cmd_text(mode, args)) + '\n' + r.stderr[:20000])
                    self.reports.append(dict(type='mism', kind=mode, trace='fatal', cfg='', tags=[], file=f,
                                             mism=[{'class': 'panic:fatal', 'step': 0, 'detail': r.stderr[:600]}]))
                elif not any(x['mism'][0]['class'] == 'hang' for x in self.reports):
                    raise CheckError('harness %s failed (exit %d):\n%s' % (mode, r.returncode, (r.stdout[-500:] + r.stderr)[:4000]))
        self.stats['traces'] += got['traces']
        self.stats['steps'] += got['steps']
        if self.parts:
            self.parts[-1].update(replayed=got['traces'], replayed_steps=got['steps'], replay_s=round(time.time() - t0, 1))
        else:
            self.parts.append(dict(part=mode, replayed=got['traces'], replayed_steps=got['steps'], replay_s=round(time.time() - t0, 1)))
        return got


def cmd_text(mode, args):
    return ['harness', mode] + args


def known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        r = Run('setup', 'quick', 1)
        try:
            r.build()
        finally:
            r.close()
        print('harness builds')
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        r = Run('replay', 'quick', 1)
        try:
            r.build()
            if '"kind":"conc"' in open(sys.argv[2]).read()[:200]:
                r.build('yield')
            p = subprocess.run([r.bin, 'replay', os.path.abspath(sys.argv[2])])
            return p.returncode
        finally:
            r.close()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    run = Run(prop, tier, seed)
    shutil.rmtree(run.outdir, ignore_errors=True)
    try:
        run.build()
        plans.PLANS[prop](run)
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        return 3
    except subprocess.TimeoutExpired as e:
        print('CHECK-ERROR property=%s timeout: %s' % (prop, e))
        return 4
    finally:
        run.close()

    listed = known()
    mine, other, seen = [], 0, set()
    guess = not any(prop in judge.properties(m, r) for r in run.reports for m in r['mism'])
    for r in run.reports:
        # only what happened up to the first difference is sure to be independent of it,
        # but later ones of the same behaviour often say what it means
        hit = None
        for m in r['mism']:
            if prop in judge.properties(m, r, guess):
                hit = m
                break
        if hit is None:
            other += 1
            continue
        key = judge.key(hit, r)
        f = [k for k in listed if k[0] == prop and k[1] == key]
        if f:
            if key not in seen:
                print('KNOWN-FINDING: property=%s %s' % (prop, f[0][2]))
            seen.add(key)
            continue
        mine.append((hit, r))

    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=run.stats['states'], transitions=run.stats['transitions'],
                            traces_validated_against_impl=run.stats['traces'],
                            calls_validated_against_impl=run.stats['steps'],
                            parts=run.parts, calls_by_kind=dict(sorted(run.cov.items())),
                            samples=run.samples or ['-']),
              assumptions=plans.ASSUMPTIONS,
              wall_s=round(time.time() - run.t0, 1), violations=len(mine))
    if REPO == '/repo':
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)

    for hit, r in mine[:5]:
        print('  %s %s [%s] step %d: %s: %s' % (r['kind'], r['trace'], r['cfg'], hit['step'], hit['class'], hit['detail']))
    if other:
        print('  (%d differences that concern other properties)' % other)
    print('%s: %d states, %d transitions explored; %d behaviours, %d calls replayed; %.1f s' % (
        prop, run.stats['states'], run.stats['transitions'], run.stats['traces'], run.stats['steps'], ev['wall_s']))
    if mine:
        print('VIOLATION property=%s replay=%s' % (prop, mine[0][1].get('file') or run.outdir))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
