"""Driver: python3 -m sa.check <ID> [--tier quick|thorough]

Runs the rule of one property on /repo's current source.
  exit 0  the rule holds at every site it was applied to (listed findings are printed as KNOWN-FINDING)
  exit 1  'VIOLATION property=<id> replay=<path>'
  exit 2  the analysis can not give an answer (source does not parse, nothing to analyse)
"""
import importlib, json, os, re, sys, time, traceback
from . import facts
from .facts import AnalysisError

VERIF = facts.VERIF


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.violations = []   # dict(key, message, where, trail)
        self.counts = {}
        self.obligations = 0
        self.sites = []
        self.rules = []
        self.assumptions = []
        self.notes = []
        self.P = None
        self.functions = set()

    # ---- program
    def load(self, *globs):
        self.P = facts.load(facts.sources(*globs))
        return self.P

    def need(self, cond, what):
        if not cond:
            raise AnalysisError(what)

    # ---- reporting
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def used(self, I):
        """an interpreter run"""
        self.functions |= I.stats['functions']
        self.count('calls_interpreted', I.stats['calls'])
        self.count('loop_fixpoints_capped', I.stats['caps'])
        self.count('states_joined', I.stats['coarsened'])
        self.count('states_joined_with_loss', I.stats['lossy'])

    def ok(self, key, where=None):
        self.obligations += 1
        self.sites.append({'site': key, 'where': where, 'ok': True})

    def bad(self, key, message, where, trail=None):
        """key identifies the construct independently of line numbers"""
        for _ in range(12):
            message = re.sub(r'(?<=\w)<[^<>]*>(?=::|[\s,;)(]|$)', '', message)
        message = message.replace('casual::common::', '').replace('casual::', '')
        self.obligations += 1
        if any(v['key'] == key for v in self.violations):
            return
        self.violations.append(dict(key=key, message=message, where=where, trail=trail or []))
        self.sites.append({'site': key, 'where': where, 'ok': False})

    def expect(self, cond, key, message, where, trail=None):
        if cond:
            self.ok(key, where)
        else:
            self.bad(key, message, where, trail)
        return cond


def known():
    try:
        with open(VERIF + '/known_findings.json') as f:
            return json.load(f)
    except OSError:
        return []


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    ctx = Ctx(prop, tier)
    try:
        mod = importlib.import_module('sa.props.' + prop)
        mod.check(ctx)
        ctx.need(ctx.obligations > 0, 'nothing was analysed')
    except AnalysisError as e:
        print(f'{prop}: no answer: {e}')
        return 2
    except Exception:
        print(f'{prop}: internal error', '\n'.join(traceback.format_exc().splitlines()[-12:]))
        return 2

    listed = [k for k in known() if k['property'] == prop and k.get('status') != 'fixed']
    new, old = [], []
    for v in ctx.violations:
        m = next((k for k in listed if k['key'] == v['key']), None)
        (old if m else new).append((v, m))

    wall = round(time.time() - ctx.t0, 2)
    n = len(ctx.functions)
    for k, c in sorted(ctx.counts.items()):
        print(f'{prop}: {k} = {c}')
    print(f'{prop}: obligations = {ctx.obligations}, functions interpreted = {n}, units = {len(ctx.P.tus) if ctx.P else 0}, {wall} s')
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    rep = VERIF + '/.cache/replay'
    os.makedirs(rep, exist_ok=True)
    reports = []
    for i, (v, _) in enumerate(new):
        p = f'{rep}/{prop}-{i}.json'
        with open(p, 'w') as f:
            json.dump(dict(property=prop, **v, rerun=f'cd {VERIF} && python3 -m sa.check {prop}'), f, indent=1, default=str)
        reports.append(p)
        print(f'  {v["where"]}: {v["message"]} [{v["key"]}]')
        for t in v['trail']:
            print('      ', t)
        print(f'VIOLATION property={prop} replay={p}')
    for v, m in old:
        print(f'KNOWN-FINDING: property={prop} {m["what"]} ({v["where"]})')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'static analysis of the clang AST of the current tree (nothing is executed, no solver): ' + ' | '.join(ctx.rules),
            'rules': ctx.rules, 'translation_units': ctx.P.tus if ctx.P else [], 'obligations': ctx.obligations,
            'discharged': ctx.obligations - len(ctx.violations), 'functions_interpreted': n,
            'counts': ctx.counts, 'sites': ctx.sites[:400], 'known_findings': [v['key'] for v, _ in old], 'notes': ctx.notes,
            'reports': [dict(key=v['key'], where=str(v['where']), message=v['message']) for v, _ in new],
        },
        'assumptions': ctx.assumptions,
        'wall_s': wall,
        'violations': len(new),
    }
    with open(f'{VERIF}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
