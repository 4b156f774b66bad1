"""Serialization facts of all records (tool/serialize.cpp): one generated unit that includes every header that serializes, and the
sources that have records of their own that do."""
import os, re, json, hashlib, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import facts
from .facts import ROOT, BUILD, CACHE, AnalysisError

RX = re.compile(r'\bserialize\s*\(|_SERIALIZE\b|CUSTOMIZATION_POINT_NETWORK|type_traits|version_traits')


def texts():
    for b, d, fs in os.walk(ROOT):
        d[:] = [x for x in d if x not in ('unittest', '_build', 'obj', 'bin', 'example')]
        for f in fs:
            if f.endswith(('.h', '.cpp')):
                p = os.path.join(b, f)
                with open(p, errors='replace') as h:
                    if RX.search(h.read()):
                        yield p


def run(p, stamp, name):
    key = hashlib.sha256((p if name == p else open(p).read()).encode() + (facts.REPO + stamp).encode()).hexdigest()[:20]
    out, meta = f'{CACHE}/ser-{key}.json', f'{CACHE}/ser-{key}.meta'
    try:
        with open(meta) as f:
            m = json.load(f)
        if all(facts.file_hash(x) == h for x, h in m.items()):
            with open(out) as f:
                return json.load(f)
    except (OSError, ValueError):
        pass
    tmp = f'{out}.{os.getpid()}'
    r = subprocess.run([BUILD + '/serialize', '--root', ROOT + '/', '--dir', ROOT, '--out', tmp, '--file', p, '--', '-std=c++23', '-w', '-pthread', *facts.includes(),
                        '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'], capture_output=True, text=True)
    if not os.path.exists(tmp):
        raise AnalysisError(f'{name} does not parse: {r.stderr[-500:]}')
    errs = [l for l in r.stderr.splitlines() if ' error: ' in l]
    if errs:
        raise AnalysisError(f'{name} does not parse: {errs[:3]}')
    with open(tmp) as f:
        d = json.load(f)
    os.rename(tmp, out)
    with open(meta + str(os.getpid()), 'w') as f:
        json.dump({x: facts.file_hash(x) for x in d['deps']}, f)
    os.rename(meta + str(os.getpid()), meta)
    return d


class Facts:
    def __init__(self):
        facts.build_tool()
        with open(BUILD + '/serialize.stamp') as f:
            stamp = f.read().strip()[:16]
        os.makedirs(CACHE, exist_ok=True)
        ps = sorted(texts())
        hs = [p for p in ps if p.endswith('.h')]
        self.units = ['(all headers that serialize)'] + [os.path.relpath(p, ROOT) for p in ps if p.endswith('.cpp') and facts.built(os.path.relpath(p, ROOT)) and os.path.relpath(p, ROOT) not in facts.UNPARSABLE
                                                         and re.search(r'_SERIALIZE\b|void serialize\(', open(p, errors='replace').read())]
        gen = f'{CACHE}/headers-{os.getpid()}.cpp'
        with open(gen, 'w') as f:
            f.write('#include "common/serialize/create.h"\n' + ''.join(f'#include "{h}"\n' for h in hs))
        try:
            with ThreadPoolExecutor(facts.JOBS) as ex:
                ds = list(ex.map(lambda u: run(gen, stamp, 'the headers') if u[0] == '(' else run(f'{ROOT}/{u}', stamp, f'{ROOT}/{u}'), self.units))
        finally:
            os.unlink(gen)
        self.records, self.helpers, self.enums, seen = [], {}, {}, set()
        for d in ds:
            for r in d['records']:
                k = (r['type'], r['file'], r['l'], r['qn'])
                if k not in seen:
                    seen.add(k)
                    self.records.append(r)
            for e in d['enums']:
                self.enums.setdefault(e['type'], e)
            for h in d['helpers']:
                self.helpers[h['name']] = h
        self.by = {}
        for r in self.records:
            self.by.setdefault(r['type'], r)
        self.base = {}
        for r in self.records:
            self.base.setdefault(r['type'].split('<')[0], r)

    def find(self, t):
        t = clean(t)
        return self.by.get(t) or self.base.get(t.split('<')[0])

    def fields(self, r):
        out = {f['n']: f for b in r['bases'] for q in [self.find(b)] if q is not None and q is not r for f in self.fields(q).values()}
        out.update({f['n']: f for f in r['fields']})
        return out

    def readable(self, t, depth=0):
        """the type (or what it is derived from) is read and written"""
        r = self.find(t)
        return r is not None and depth < 10 and (bool(plain(r, False)) or any(self.readable(b, depth + 1) for b in r['bases']))


def clean(t):
    return re.sub(r'^(const|struct|class|enum) ', '', t).strip().rstrip('&').strip()


def plain(r, const):
    return [s for s in r['serialize'] if s['const'] == const and not s['static'] and s['params'] == 1]
