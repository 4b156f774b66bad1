"""Facts: runs the clang based extractor on translation units of /repo and merges the
resulting (resolved, instantiated) programs.  Nothing of the analysed program is executed."""
import os, sys, json, glob, hashlib, zlib, subprocess, re, time, fnmatch
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = REPO + '/middleware'
BUILD = VERIF + '/.build'
CACHE = VERIF + '/.cache'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

# sources that need third-party code which is not in this tree
UNPARSABLE = ('common/source/transcode.cpp',)


class AnalysisError(Exception):
    """the analysis cannot give an answer (exit code 2)"""


def includes():
    r = []
    for p in sorted(glob.glob(ROOT + '/*/include')) + sorted(glob.glob(ROOT + '/*/unittest/include') + sorted(glob.glob(ROOT + '/*/*/include'))) + [REPO + '/thirdparty/database/include']:
        r.append('-I' + p)
    return r


def sources(*patterns):
    """translation units (relative to middleware) that match any of the glob patterns; unit tests excluded"""
    out = []
    for base, dirs, files in os.walk(ROOT):
        dirs[:] = [d for d in dirs if d not in ('unittest', '_build', 'obj', 'bin')]
        for f in files:
            if f.endswith('.cpp'):
                rel = os.path.relpath(os.path.join(base, f), ROOT)
                if any(fnmatch.fnmatch(rel, p) for p in patterns) and rel not in UNPARSABLE:
                    out.append(rel)
    return sorted(x for x in out if built(x))


_mk = {}


def built(rel):
    """is the source part of the build: some makefile.cmk above it names it"""
    parts = rel.split('/')
    for i in range(len(parts) - 1, 0, -1):
        mk = f"{ROOT}/{'/'.join(parts[:i])}/makefile.cmk"
        if mk not in _mk:
            try:
                with open(mk) as f:
                    _mk[mk] = re.sub(r'(?m)^\s*#.*$', '', f.read())
            except OSError:
                _mk[mk] = None
        if _mk[mk] is not None and '/'.join(parts[i:]) in _mk[mk]:
            return True
    return False


_hash = {}


def file_hash(p):
    if p not in _hash:
        try:
            with open(p, 'rb') as f:
                _hash[p] = hashlib.sha256(f.read()).hexdigest()[:24]
        except OSError:
            _hash[p] = None
    return _hash[p]


def build_tool():
    r = subprocess.run(['bash', VERIF + '/tool/build.sh'], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('cannot build the extractor: ' + r.stderr[-2000:])
    with open(BUILD + '/extract.stamp') as f:
        return f.read().strip()[:16]


def _cache_paths(rel, stamp):
    key = hashlib.sha256((REPO + '|' + rel + '|' + stamp).encode()).hexdigest()[:20]
    return f'{CACHE}/{key}.meta', f'{CACHE}/{key}.z'


def extract_one(rel, stamp, load=True):
    meta, data = _cache_paths(rel, stamp)
    try:
        with open(meta) as f:
            m = json.load(f)
        if all(file_hash(p) == h for p, h in m['deps'].items()):
            if not load:
                return None
            with open(data, 'rb') as f:
                return json.loads(zlib.decompress(f.read()))
    except (OSError, ValueError, zlib.error):
        pass
    os.makedirs(CACHE, exist_ok=True)
    tmp = f'{data}.{os.getpid()}.{abs(hash(rel))}.json'
    cmd = [BUILD + '/extract', '--root', ROOT + '/', '--dir', ROOT, '--out', tmp, '--file', f'{ROOT}/{rel}', '--',
           '-std=c++23', '-w', '-pthread', *includes(), '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp):
        errs = [l for l in r.stderr.splitlines() if 'error' in l][:3]
        raise AnalysisError(f'{rel} does not parse: {errs or r.stderr[-500:]}')
    with open(tmp, 'rb') as f:
        raw = f.read()
    os.unlink(tmp)
    d = json.loads(raw)
    try:
        with open(data + '.tmp' + str(os.getpid()), 'wb') as f:
            f.write(zlib.compress(raw, 1))
        os.rename(data + '.tmp' + str(os.getpid()), data)
        with open(meta + '.tmp' + str(os.getpid()), 'w') as f:
            json.dump({'deps': {p: file_hash(p) for p in d['deps']}}, f)
        os.rename(meta + '.tmp' + str(os.getpid()), meta)
    except OSError:
        pass
    return d if load else None


class Func:
    __slots__ = ('id', 'd', 'S', 'tu')

    def __init__(self, id, d, S, tu):
        self.id, self.d, self.S, self.tu = id, d, S, tu

    qn = property(lambda s: s.d['qn'])
    file = property(lambda s: s.d['file'])
    line = property(lambda s: s.d['l'])
    body = property(lambda s: s.d.get('body'))
    params = property(lambda s: s.d['p'])

    def t(self, node):
        return self.S[node['t']] if node and 't' in node else ''

    def ptype(self, i):
        return self.S[self.d['p'][i]['t']]

    def cls(self):
        return self.S[self.d['cls']] if 'cls' in self.d else ''

    def where(self, node=None):
        return f"{self.file}:{(node or {}).get('l', self.line)}"

    def name(self, node):
        """resolved callee name of a call/ctor node"""
        return self.S[node['n']] if isinstance(node.get('n'), int) else node.get('n')

    def targs(self, node):
        return [self.S[x] for x in node.get('ta', [])]

    def __repr__(self):
        return f'<{self.qn} {self.file}:{self.line}>'


class Program:
    def __init__(self):
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.by_qn = {}

    def add(self, rel, d):
        S = d['strings']
        self.tus.append(rel)
        for fid, f in d['funcs'].items():
            if fid not in self.funcs:
                F = Func(fid, f, S, rel)
                self.funcs[fid] = F
                self.by_qn.setdefault(F.qn, []).append(F)
        for k, r in d['records'].items():
            if k not in self.records:
                r['S'] = S
                self.records[k] = r
        for k, r in d['enums'].items():
            self.enums.setdefault(k, r)
        for g in d['globals']:
            key = (g['qn'], g['file'], g['l'])
            if key not in self.globals:
                g['S'] = S
                g['tu'] = rel
                self.globals[key] = g

    def global_qn(self, qn):
        if not hasattr(self, '_gqn'):
            self._gqn = {k[0]: g for k, g in self.globals.items()}
        return self._gqn.get(qn)

    def named(self, rx):
        """functions with a body whose qualified name matches"""
        r = re.compile(rx)
        return [F for q, fs in self.by_qn.items() if r.search(q) for F in fs if F.body is not None]

    def find(self, qn=None, file=None, pred=None):
        for F in (self.by_qn.get(qn, []) if qn else self.funcs.values()):
            if file and not re.search(file, F.file):
                continue
            if pred and not pred(F):
                continue
            yield F


def load(files, quiet=False):
    stamp = build_tool()
    P = Program()
    t = time.time()
    with ThreadPoolExecutor(JOBS) as ex:
        for rel, d in zip(files, ex.map(lambda f: extract_one(f, stamp), files)):
            P.add(rel, d)
    P.wall = time.time() - t
    if not P.tus:
        raise AnalysisError('no translation units')
    return P


def warm(files):
    stamp = build_tool()
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda f: extract_one(f, stamp, False), files))


def walk(node):
    """all nodes below (and including) node, pre-order, lambdas' bodies excluded"""
    if isinstance(node, dict):
        if 'k' in node:
            yield node
        for v in node.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(node, list):
        for v in node:
            yield from walk(v)


def callees(F):
    """ids of functions called, constructed, referred to, or defined as lambdas in F (direct)"""
    out = set()
    for n in walk(F.body):
        if n.get('f'):
            if isinstance(n['f'], list):
                out.update(n['f'])
            else:
                out.add(n['f'])
    for i in F.d.get('inits', []):
        for n in walk(i.get('e')):
            if n.get('f'):
                if isinstance(n['f'], list):
                    out.update(n['f'])
                else:
                    out.add(n['f'])
    return out


def relevant(P, direct, stop=None):
    """ids of functions that contain a relevant node (direct(F, node)) or reach one through calls/lambdas.
    stop(F): calls into F are not followed (it is a primitive of the rule)"""
    if not hasattr(P, '_callees'):
        P._callees = {fid: callees(F) for fid, F in P.funcs.items()}
    rel = set()
    for fid, F in P.funcs.items():
        if stop and stop(F):
            continue
        hit = any(direct(F, n) for n in walk(F.body))
        if not hit:
            hit = any(direct(F, n) for i in F.d.get('inits', []) for n in walk(i.get('e')))
        if hit:
            rel.add(fid)
    callers = {}
    for fid, cs in P._callees.items():
        if stop and stop(P.funcs[fid]):
            continue
        for c in cs:
            callers.setdefault(c, set()).add(fid)
    work = list(rel)
    while work:
        f = work.pop()
        for c in callers.get(f, ()):
            if c not in rel:
                rel.add(c)
                work.append(c)
    return rel
