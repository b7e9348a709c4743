#!/usr/bin/env python3
"""Runs the check of one property: run.py Cxx [quick|thorough] | run.py --replay FILE"""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
TL = '/opt/veriftools/tla'
PY = os.environ.get('SYMFIT_PYTHON', '/opt/venv/bin/python')
sys.path.insert(0, HERE)
NSHARD = 8


def compile_java(work):
    cls = os.path.join(work, 'cls')
    os.makedirs(cls)
    subprocess.run(['javac', '-cp', TL + '/tla2tools.jar', '-d', cls, os.path.join(SPEC, 'java', 'Rat.java')],
                   check=True)
    return cls


def tlc(work, cls, tag, cfg, module, env=None, workers='1', extra=(), timeout=800, heap='2g'):
    cmd = ['java', '-XX:+UseSerialGC', '-Xss64m', '-Xmx' + heap, '-cp',
           '%s/tla2tools.jar:%s/CommunityModules-deps.jar:%s' % (TL, TL, cls), 'tlc2.TLC',
           '-workers', workers, '-metadir', os.path.join(work, 'md-' + tag), '-noGenerateSpecTE',
           '-config', cfg, *extra, module]
    log = open(os.path.join(work, tag + '.log'), 'w')
    return subprocess.Popen(cmd, cwd=SPEC, stdout=log, stderr=subprocess.STDOUT,
                            env=dict(os.environ, **(env or {})))


def pyenv(shard):
    env = dict(os.environ, PYTHONPATH=HERE, MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED=str(shard * 7 + 1), PYTHONDONTWRITEBYTECODE='1')
    if os.path.isdir('/opt/venv/mplconfig'):
        env.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    return env


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, clauses={})
        self.bad = []          # (case id, event index, clause, case)
        self.trouble = []
        self.uninterpreted = []
        self.samples = {}

    # -- conformance ---------------------------------------------------------
    def conformance(self, shards, cls):
        """shards: list of worker specs"""
        procs = []
        for i, spec in enumerate(shards):
            sp, out = self.path('shard%d.json' % i), self.path('shard%d.ndjson' % i)
            json.dump(spec, open(sp, 'w'))
            err = open(self.path('shard%d.err' % i), 'w')
            procs.append(subprocess.Popen([PY, '-B', os.path.join(HERE, 'worker.py'), out, sp],
                                          env=pyenv(i + self.seed), cwd=self.work, stdout=err, stderr=err))
        tl = {}
        live = dict(enumerate(procs))
        while live or any(p.poll() is None for p in tl.values()):
            for i, p in list(live.items()):
                if p.poll() is None:
                    continue
                del live[i]
                if p.returncode != 0:
                    self.trouble.append('worker %d: %s' % (i, open(self.path('shard%d.err' % i)).read()[-1500:]))
                    continue
                tl[i] = tlc(self.work, cls, 'shard%d' % i, 'Trace.cfg', 'Trace.tla',
                            env={'TRACE_FILE': self.path('shard%d.ndjson' % i)})
            time.sleep(0.05)
        for i in tl:
            self.collect(i, cls)

    def path(self, n):
        return os.path.join(self.work, n)

    def collect(self, i, cls):
        log = open(self.path('shard%d.log' % i), errors='replace').read()
        # a recorded event which the specification cannot even interpret (a value of
        # the wrong kind): that case is reported and the others are checked again
        for _ in range(4):
            if 'Model checking completed' in log or 'No error has been found' in log:
                break
            at = re.findall(r'^/\\ ci = (\d+)|^/\\ ei = (\d+)', log, re.M)
            ci, ei = [int(a) for a, b in at if a], [int(b) for a, b in at if b]
            lines = open(self.path('shard%d.ndjson' % i)).readlines()
            if not ci or not ei or 'rror' not in log or ci[-1] > len(lines):
                break
            case = json.loads(lines.pop(ci[-1] - 1))
            k = min(ei[-1] + 1, len(case['ev']))
            self.bad.append((case['id'], k, self.prop + '.kind', case))
            self.uninterpreted.append('%s event %d: %s' % (case['id'], k, re.sub(r'\s+', ' ', log[log.find('Error'):])[:600]))
            open(self.path('shard%d.ndjson' % i), 'w').writelines(lines)
            if not lines:
                return
            tlc(self.work, cls, 'shard%d' % i, 'Trace.cfg', 'Trace.tla',
                env={'TRACE_FILE': self.path('shard%d.ndjson' % i)}).wait()
            log = open(self.path('shard%d.log' % i), errors='replace').read()
        cases = {}
        for line in open(self.path('shard%d.ndjson' % i)):
            c = json.loads(line)
            cases[c['id']] = c
        for cid, k, clause in re.findall(r'"@BAD\|([^|]*)\|(\d+)\|([^"]*)"', log):
            self.bad.append((cid, int(k), clause, cases[cid]))
        for cl, ok, bad, skip in re.findall(r'"@SUM\|([^|]*)\|(\d+)\|(\d+)\|(\d+)"', log):
            r = self.cov['clauses'].setdefault(cl, [0, 0, 0])
            for j, v in enumerate((ok, bad, skip)):
                r[j] += int(v)
        m = re.search(r'(\d+) states generated, (\d+) distinct', log)
        if 'Model checking completed' not in log and 'No error has been found' not in log or not m:
            if not self.uninterpreted:
                self.trouble.append('TLC on shard %d: %s' % (i, log[-2500:]))
            return
        self.cov['transitions'] += int(m.group(1))
        self.cov['states'] += int(m.group(2))
        self.cov['traces_validated_against_impl'] += len(cases)
        self.cov['events'] += sum(len(c['ev']) for c in cases.values())
        for c in cases.values():
            s = c.get('scen', '?')
            self.samples.setdefault(s, 0)
            self.samples[s] += 1

    # -- verdict -------------------------------------------------------------
    def known(self):
        p = os.path.join(ROOT, 'known_findings.json')
        return json.load(open(p)).get('known', []) if os.path.exists(p) else []

    def verdict(self):
        mine = [b for b in self.bad if b[2].split('.')[0] == self.prop]
        other = sorted({b[2] for b in self.bad if b[2].split('.')[0] != self.prop
                        and not any(match(k, b) for k in self.known())})
        for u in self.uninterpreted[:4]:
            print('uninterpreted: ' + u)
        knowns = [k for k in self.known() if k['property'] == self.prop]
        hits, viol = {}, []
        for b in mine:
            for k in knowns:
                if match(k, b):
                    hits.setdefault(k['what'], []).append(b)
                    break
            else:
                viol.append(b)
        for w in hits:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        rc = 0
        seen = set()
        for cid, k, clause, case in viol:
            if clause in seen:
                continue
            seen.add(clause)
            rc = 1
            rep = self.save(cid, k, clause, case)
            e = case['ev'][k - 1]
            print('  clause %s fails at event %d (%s) of case %s%s' % (
                clause, k, e['op'], cid, ' raised %s: %s' % (e['obs']['err'], e['obs'].get('msg'))
                if e.get('obs', {}).get('err') else ''))
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
        if other:
            print('note: clauses of other properties fail on these scenarios: ' + ', '.join(other))
        if self.trouble:
            for t in self.trouble:
                print('TROUBLE ' + t)
            rc = rc or 2
        self.cov['violating_clauses'] = sorted(seen)
        self.cov['other_clauses_failing'] = other
        self.cov['known_findings_seen'] = len(hits)
        return rc

    def save(self, cid, k, clause, case):
        d = os.path.join(ROOT, 'replays', self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, re.sub(r'[^A-Za-z0-9_.-]', '_', '%s_%s' % (clause, cid)) + '.json')
        json.dump(dict(property=self.prop, clause=clause, event=k, case=case), open(p, 'w'), indent=1)
        return p

    def close(self):
        if not os.environ.get('KEEP_WORK'):
            shutil.rmtree(self.work, ignore_errors=True)
        else:
            print('work', self.work)


def match(k, b):
    cid, i, clause, case = b
    return (clause == k['clause'] and case.get('scen') == k.get('scen', case.get('scen'))
            and case.get('tag', '') == k.get('tag', ''))


def main():
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        c = Check(r['property'], 'replay', 0)
        c.conformance([{'replay': [r['case']]}], compile_java(c.work))
        for b in c.bad:
            print('clause %s at event %d' % (b[2], b[1]))
            print(json.dumps(b[3]['ev'][b[1] - 1], indent=1)[:4000])
        print('\n'.join(c.trouble))
        c.close()
        return 0
    from plan import PLAN
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    plan = PLAN[prop]
    mult = float(os.environ.get('VERIF_MULT', '1' if tier == 'quick' else '12'))
    c = Check(prop, tier, seed)
    try:
        cls = compile_java(c.work)
        cases = [(name, '%d.%d' % (seed, j)) for name, n in plan['scen'] for j in range(max(1, int(n * mult)))]
        budget = 150 if tier == 'quick' else 3000
        rounds = 1 if tier == 'quick' else max(1, int(mult // 3))
        for r in range(rounds):
            part = cases[r::rounds]
            shards = [dict(cases=part[i::NSHARD], budget=budget / rounds) for i in range(NSHARD)]
            c.conformance([s for s in shards if s['cases']], cls)
        if plan.get('mc'):
            import mc
            mc.run(c, plan['mc'], cls, tier)
        rc = c.verdict()
    finally:
        c.close()
    c.cov['samples'] = c.samples
    c.cov['clauses'] = {k: dict(ok=v[0], bad=v[1], skip=v[2]) for k, v in sorted(c.cov['clauses'].items())
                        if k.startswith(prop) or v[1]}
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=c.cov,
              wall_s=round(time.time() - t0, 1))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    n = sum(v['ok'] + v['bad'] for k, v in c.cov['clauses'].items() if k.startswith(prop))
    print('%s %s: %d cases, %d events, %d clause evaluations, %d states, %.1f s' % (
        prop, tier, c.cov['traces_validated_against_impl'], c.cov['events'], n, c.cov['states'], time.time() - t0))
    return rc


sys.exit(main())
