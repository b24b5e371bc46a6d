"""Obligations, known findings, evidence and exit codes of one check."""
import json, os, sys, time, traceback
from .loader import Program, AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obs = []          # (status, rule, construct, detail, loc)
        self.seen = {}
        self.counts = {}
        self.analysed = set()
        self._prog = None
        self.explanation = ''
        self.assumptions = []
        self.known, self.fixed = [], []
        p = os.path.join(HERE, 'known_findings.jsonl')
        if os.path.exists(p):
            for l in open(p):
                if l.strip():
                    d = json.loads(l)
                    if d['property'] == pid and d['kind'] == 'known':
                        self.known.append(d)

    @property
    def prog(self):
        if self._prog is None:
            self._prog = Program()
        return self._prog

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def add(self, status, rule, construct, detail='', loc=''):
        key = (rule, construct)
        if key in self.seen:
            i = self.seen[key]
            if status == 'violated' and self.obs[i][0] != 'violated':
                self.obs[i] = (status, rule, construct, detail, loc)
            elif status == 'unknown' and self.obs[i][0] == 'ok':
                self.obs[i] = (status, rule, construct, detail, loc)
            return
        self.seen[key] = len(self.obs)
        self.obs.append((status, rule, construct, detail, loc))

    def ok(self, rule, construct, detail='', loc=''):
        self.add('ok', rule, construct, detail, loc)

    def bad(self, rule, construct, detail, loc=''):
        self.add('violated', rule, construct, detail, loc)

    def unknown(self, rule, construct, detail='', loc=''):
        self.add('unknown', rule, construct, detail, loc)

    def need(self, qual):
        return self.prog.need(qual)

    def group(self, f, *a, **kw):
        """one independent part of the check: its failure leaves the other parts standing"""
        name = getattr(f, '__name__', 'part')
        try:
            return f(self, *a, **kw)
        except AnalysisBroken as e:
            self.unknown('analysis', f'{name}{a!r:.80}', f'anchor lost: {e}')
            self.count('anchors lost')
        except Exception as e:
            self.unknown('analysis', f'{name}{a!r:.80}', f'{type(e).__name__}: {e}')
            self.count('parts not analysed')
            if '-v' in sys.argv:
                print(''.join(traceback.format_exc().splitlines(True)[-6:])[:1500], file=sys.stderr)

    def finish(self, level='other', minimum=0):
        n = {s: sum(1 for o in self.obs if o[0] == s) for s in ('ok', 'unknown', 'violated')}
        viol, found = [], []
        for o in self.obs:
            if o[0] != 'violated':
                continue
            k = next((k for k in self.known if k['rule'] == o[1] and k['construct'] == o[2]), None)
            (found if k else viol).append(o)
        ev = os.path.join(HERE, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rules = {}
        for o in self.obs:
            rules.setdefault(o[1], {'ok': 0, 'unknown': 0, 'violated': 0})[o[0]] += 1
        cov = {'explanation': self.explanation or 'static analysis of the current source',
               'obligations': len(self.obs), 'discharged': n['ok'], 'undecided': n['unknown'], 'violated': n['violated'],
               'known_findings': len(found), 'rules': rules, 'counts': self.counts,
               'modules_parsed': len(self.prog.modules),
               'samples': [f'{o[1]}: {o[2]}' for o in self.obs if o[0] == 'ok'][:12],
               'undecided_items': [f'{o[1]}: {o[2]}: {o[3]}' for o in self.obs if o[0] == 'unknown'][:60]}
        rec = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
               'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(viol)}
        with open(os.path.join(ev, f'{self.pid}.json'), 'w') as f:
            json.dump(rec, f, indent=1)
            f.write('\n')
        for o in found:
            print(f'KNOWN-FINDING: property={self.pid} {o[1]}: {o[2]}: {o[3]} [{o[4]}]')
        print(f'{self.pid}: {len(self.obs)} obligations, {n["ok"]} discharged, {n["unknown"]} undecided, {len(viol)} violated, {len(found)} known findings, {rec["wall_s"]} s')
        if len(self.obs) < minimum:
            print(f'analysis broken: only {len(self.obs)} obligations, at least {minimum} expected')
            return 2
        if viol:
            path = os.path.join(ev, f'{self.pid}.violations.txt')
            with open(path, 'w') as f:
                for o in viol:
                    f.write(f'rule: {o[1]}\nconstruct: {o[2]}\nwhere: {o[4]}\n{o[3]}\n\n')
            for o in viol:
                print(f'  {o[4]}: {o[1]}: {o[2]}: {o[3]}')
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        return 0


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    sys.setrecursionlimit(20000)
    import importlib
    mod = importlib.import_module(f'vp.checks.{pid.lower()}')
    chk = Check(pid, tier)
    try:
        mod.run(chk)
    except AnalysisBroken as e:
        # report violations already established; otherwise the analysis has lost its anchor
        rc = chk.finish()
        print(f'analysis broken: {e}')
        return rc or 2
    if '-v' in argv:
        for o in chk.obs:
            print(o[0], '|', o[1], '|', o[2], '|', o[3][:400] if o[0] != 'ok' else '', '|', o[4])
    return chk.finish(getattr(mod, 'LEVEL', 'other'), getattr(mod, 'MINIMUM', 1))
