"""what is read is what was written: every member of everything that is sent or stored, in the order and the protocol that is documented"""
import os, re, collections
from .. import serial
from ..facts import ROOT
from ..serial import plain, clean

# what does not travel by design
LEFT = {
    ('common::message::basic_message', 'correlation'): 'is in the envelope of the message',
    ('common::communication::ipc::message::Complete', 'm_offset'): 'is the state of the assembly',
    ('queue::group::State', 'queuebase'): 'is the database; the state is only logged',
}
PROTOCOL = ROOT + '/gateway/documentation/protocol/protocol.maintenance.md'


def short(n):
    return n.replace('casual::', '', 1)


def check(ctx):
    S = serial.Facts()
    ctx.rule('every record that is read from an archive reads every member it has and every base that has something, once, unconditionally, in the order it is written, a member that another one is read by before that; names are distinct within a record')
    ctx.rule('every message of the interdomain protocol is read and written by the same sequence, that has the members the protocol documentation has, in that order, with the type number and the versions it has')
    ctx.rule('every request has a reply type that is its own; every message type has one record')
    for k in S.units:
        ctx.count('units')
    for r in S.records:
        record(ctx, S, r)
    messages(ctx, S)
    protocol(ctx, S)
    ctx.assume('the archives (native, network, json, yaml, ini) read what they write; they are covered by the unit tests of the project')


def where(r, o=None):
    return f"{r['file']}:{(o or r)['l']}"


def key(o):
    return (o.get('base'), tuple(o.get('members', ())), o.get('name'))


def record(ctx, S, r):
    rd, wr = plain(r, False), plain(r, True)
    if not rd:
        return
    ctx.count('records')
    n = short(r['qn'])
    A = rd[0]['ops']
    m = collections.Counter(x for o in A for x in dict.fromkeys(o.get('members', ())))
    own = {f['n'] for f in r['fields']}
    if not wr and '(anonymous namespace)' in r['qn'] and any(o['cond'] for o in A):
        # a visitor of an archive, not something that is stored
        return
    if not ctx.expect(len(wr) == 1, n + ': written', 'it is read but not written', where(r)):
        return
    B = wr[0]['ops']
    ctx.expect([key(o) for o in A] == [key(o) for o in B], n + ': order', 'it is not read in the order it is written', where(r, rd[0]))
    ctx.expect(not any(o['cond'] for o in A + B), n + ': conditional', 'a member is only read or written sometimes', where(r, rd[0]))
    done = set()
    for o in A:
        ms = o.get('members', ())
        # a member that says how another one is to be read
        for x in dict.fromkeys(ms):
            for y in dict.fromkeys(ms):
                if y != x and m[y] > 1 and y not in done:
                    ctx.bad(f'{n}: {x} before {y}', f'{x} is read with a {y} that is not read yet', where(r, o))
        done |= set(ms)
    for f in r['fields']:
        if not f['n']:
            continue
        if (n.split('<')[0], f['n']) in LEFT:
            continue
        alone = sum(1 for o in A if list(o.get('members', ())) == [f['n']])
        some = sum(1 for o in A if f['n'] in o.get('members', ()))
        parts = sum(1 for x in m if x.startswith(f['n'] + '.'))
        ctx.expect(alone <= 1 and (some >= 1 or parts >= 1), f"{n}: {f['n']}", f"{f['n']} is {'lost when it is' if not some + parts else 'more than once'} sent or stored", where(r, f))
    bases = [clean(o['base']) for o in A if 'base' in o]
    for b in r['bases']:
        if S.readable(b):
            k = sum(1 for x in bases if x == clean(b) or x.split('<')[0] == clean(b).split('<')[0])
            ctx.expect(k == 1, n + ': base', f'what it is derived from ({short(b)}) is read {k} times', where(r))
    names = [o['name'] for o in A if o.get('name')]
    for x, c in collections.Counter(names).items():
        ctx.expect(c == 1, f'{n}: name {x}', f'two members have the name {x}', where(r, rd[0]))


def mtype(S, r, depth=0):
    for t in [r['type']] + r['bases']:
        m = re.search(r'message::Type::(\w+)>', t)
        if m:
            return m.group(1)
    for b in r['bases']:
        q = S.find(b)
        if q is not None and depth < 8 and '<' not in q['type'].split('::')[-1]:
            x = mtype(S, q, depth + 1)
            if x:
                return x
    return None


def messages(ctx, S):
    rv = [r for r in S.records if '::message::reverse::type_traits<' in r['qn'] and r['bases']]
    ctx.expect(len(rv) > 20, 'reverse', 'there are no reply types', 'common/include/common/message/type.h')

    def of(t):
        m = re.search(r'message::Type::(\w+)>', t)
        if m and not S.by.get(t):
            return m.group(1)
        r = S.by.get(t) or S.find(t)
        return (mtype(S, r) if r is not None else None) or (m.group(1) if m else None)
    for r in rv:
        a = re.search(r'type_traits<(.*)>$', r['type']).group(1)
        b = re.search(r'detail::type<(.*)>$', r['bases'][0])
        if not b:
            continue
        x, y = of(a), of(b.group(1))
        if not x or not y or x == 'CONFIGURATION_BASE':
            continue
        fam = lambda s: re.sub(r'_v\d+$', '', re.sub(r'_(request|reply)(?=_v\d+$|$)', '', s))
        v = lambda s: (re.search(r'_v\d+$', s) or [''])[0]
        same = fam(x) == fam(y) or fam(y).endswith(fam(x)) or fam(x) in ('service_call',) and fam(y) == 'service'
        ctx.expect(same and (x.endswith('reply') is False) and v(x) == v(y) or v(y) == '' and same, f'reverse {x}', f'the reply of {x} is {y}', where(r))
    # one record per message type
    by = {}
    for r in S.records:
        m = re.search(r'message::(?:basic_\w+|\w*)<casual::common::message::Type::(\w+)>$', r['bases'][0]) if len(r['bases']) == 1 else None
        if m and plain(r, False):
            by.setdefault(m.group(1), []).append(r)
    for t, rs in by.items():
        fs = {tuple((f['n'], f['t']) for f in r['fields']) for r in rs}
        ctx.expect(len(rs) == 1 or len(fs) == 1 or t in SHARED, f'type {t}', f'the message type {t} is of {", ".join(short(r["qn"]) for r in rs)}', where(rs[0]))


SHARED = set()


def rows():
    """the messages of the protocol documentation: name, number, versions, role names"""
    try:
        with open(PROTOCOL, errors='replace') as f:
            s = f.read()
    except OSError:
        return []
    out = []
    for part in re.split(r'(?m)^## ', s)[1:]:
        h = re.match(r'(\w+) - \*\*#(\d+)\*\* - _\[(.*?)\]_', part)
        if not h:
            continue
        body = part.split('####')[0]
        names = [l.split('|')[0].strip() for l in body.splitlines() if '|' in l]
        names = [x for x in names if re.match(r'[A-Za-z_][\w.]*$', x)]
        out.append((h.group(1), int(h.group(2)), [v.strip() for v in h.group(3).split(',')], names))
    return out


def expand(S, values, t, prefix, depth=0):
    t = clean(t)
    m = re.match(r'std::optional<(.*)>$', t)
    if m:
        return expand(S, values, m.group(1), prefix, depth)
    if re.match(r'std::(__cxx11::)?basic_string<', t) or re.match(r'std::vector<(std::byte|char|unsigned char)\b', t):
        return [prefix + '.size', prefix + '.data']
    m = re.match(r'std::(?:vector|deque)<(.*?)(, std::allocator<.*)?>$', t)
    if m:
        return [prefix + '.size'] + expand(S, values, m.group(1), prefix + '.element', depth)
    v = values.get(t)
    r = S.by.get(t)
    if depth > 8:
        return [prefix]
    if v is not None:
        return sequence(S, values, v['serialize'][0]['ops'], r, prefix, depth)
    if r is not None and plain(r, False):
        return plainly(S, values, r, prefix, depth)
    return [prefix]


def plainly(S, values, r, prefix, depth):
    out = []
    for o in plain(r, False)[0]['ops']:
        if 'base' in o:
            b = S.find(o['base'])
            out += plainly(S, values, b, prefix, depth + 1) if b is not None and plain(b, False) else []
            continue
        n = prefix + '.' + o['name'] if prefix else o['name']
        f = S.fields(r).get(o['members'][0]) if len(o['members']) == 1 else None
        out += expand(S, values, f['t'], n, depth + 1) if f else [n]
    return out


def typeof(S, r, path):
    t = None
    for p in path:
        if r is None:
            return None
        f = S.fields(r).get(p)
        if f is None:
            return None
        t = f['t']
        r = S.by.get(clean(t))
    return t


def sequence(S, values, ops, r, prefix, depth):
    out = []
    for o in ops:
        if o['call'] != 'dispatch' and o['call'] not in S.helpers:
            continue
        if o['call'] in S.helpers:
            out += sequence(S, values, S.helpers[o['call']]['serialize'][0]['ops'], r, prefix, depth + 1)
            continue
        n = prefix + '.' + o['name'] if prefix else o['name']
        ps = o.get('members', ())
        t = typeof(S, r, ps[0].split('.')[1:]) if len(ps) == 1 and r is not None else None
        out += expand(S, values, t, n, depth + 1) if t else [n]
    return out


def flat(S, ops):
    for o in ops:
        if o['call'] in S.helpers:
            yield from flat(S, S.helpers[o['call']]['serialize'][0]['ops'])
        else:
            yield o


def protocol(ctx, S):
    values = {}
    for r in S.records:
        m = re.search(r'customize::composite::Value<(.*), type-parameter-0-0>$', r['type'])
        if m and r['file'].startswith('gateway/') and r['serialize']:
            values[clean(m.group(1))] = r
    sub = dict(values)
    for r in S.records:
        m = re.search(r'customize::composite::Value<(.*), type-parameter-0-0>$', r['type'])
        if m and r['serialize']:
            sub.setdefault(clean(m.group(1)), r)
            # what is always part of it comes first
            seen = False
            for o in r['serialize'][0]['ops'] if m.group(1) == 'xid_t' else ():
                if o['call'] == 'dispatch':
                    ctx.expect(not (seen and not o['cond']), f"xid: {o['name']}", f"{o['name']} is always read, after what is only read sometimes", where(r, o))
                    seen = seen or o['cond']
    if not ctx.expect(len(values) > 15, 'protocol', 'no message is customized for the network', 'gateway/include/gateway/message.h'):
        return
    for t, v in values.items():
        n = short(t)
        ops = list(flat(S, v['serialize'][0]['ops']))
        ctx.expect(len(v['serialize']) == 1, n + ': protocol', 'it is not read the way it is written', where(v))
        seen = collections.Counter()
        for o in ops:
            ps = o.get('members', ())
            if not ctx.expect(len(ps) == 1 and ps[0].startswith('$.') and not o['cond'], f"{n}: protocol {o['name']}", f"{o['name']} is not one member of the message", where(v, o)):
                continue
            p = ps[0][2:]
            seen[p] += 1
            ctx.expect(p.split('.')[-1] == o['name'].split('.')[-1], f"{n}: protocol {o['name']}", f"{o['name']} of the protocol is {p} of the message", where(v, o))
        for p, c in seen.items():
            ctx.expect(c == 1, f'{n}: protocol {p}', f'{p} is sent {c} times', where(v))
    docs = rows()
    ctx.count('documented', len(docs))
    versions = {}
    for r in S.records:
        if '::protocol::version_traits<' in r['type'] and r['bases'] and r.get('targs'):
            versions[clean(r['targs'][0])] = r
    numbers = {v['n']: v['v'] for v in S.enums.get('casual::common::message::Type', {}).get('values', ())}
    known = {v['n']: v['v'] for v in S.enums.get('casual::gateway::message::protocol::Version', {}).get('values', ())}
    ctx.expect(len(numbers) > 100 and len(known) > 3, 'protocol: numbers', 'there are no message types', 'common/include/common/message/type.h')
    types = {}
    for t in values:
        r = S.by.get(t)
        mt = mtype(S, r) if r is not None else (re.search(r'message::Type::(\w+)>', t) or [None, None])[1]
        if mt is None:
            m = re.search(r'message::Type::(\w+)>', t)
            mt = m.group(1) if m else None
        if mt:
            types[mt] = t
    for name, number, vs, names in docs:
        ctx.count('protocol_messages')
        t = types.get(name)
        if t is None:
            # described by another name than its type
            continue
        v = values[t]
        ctx.expect(numbers.get(name) == number, f'{name}: number', f'the type number is {numbers.get(name)}, {number} by the protocol', 'common/include/common/message/type.h')
        versioned(ctx, S, name, t, vs, versions, known)
        got = sequence(S, sub, v['serialize'][0]['ops'], S.by.get(t) or S.find(t), '', 0)
        want = [x for x in names if not x.endswith('has_value')]
        i, ok = 0, True
        for g in got:
            if g.endswith('has_value'):
                continue
            j = i
            while j < len(want) and (want[j] == g or want[j].startswith(g + '.')):
                j += 1
            if j == i:
                ctx.bad(f'{name}: documented', f'the protocol has {want[i] if i < len(want) else "nothing"} where {g} is sent', where(v))
                ok = False
                break
            i = j
        if ok:
            ctx.expect(i == len(want), f'{name}: documented', f'the protocol has {want[i] if i < len(want) else ""}, which is not sent', where(v))


def versioned(ctx, S, name, t, vs, versions, known):
    """the range of versions a message is part of the protocol"""
    order = sorted((v, n) for n, v in known.items() if re.match(r'v\d', n))
    label = lambda v: next((n[1:].replace('_', '.') for x, n in order if x == v), str(v))
    r = versions.get(t)
    lo, hi = order[0][0], known.get('current', order[-1][0])
    if r is not None:
        m = re.search(r'version_helper<(.*)>$', r['bases'][0])
        args = [known.get(x.split('::')[-1].strip(), None) for x in (m.group(1).split(',') if m else ())]
        if not ctx.expect(args and all(a is not None for a in args), f'{name}: versions', f'the versions of {name} are not known', where(r)):
            return
        lo = args[0]
        hi = args[1] if len(args) > 1 else hi
    got = [label(v) for v, n in order if lo <= v <= hi]
    ctx.expect(got == vs, f'{name}: versions', f'it is part of {", ".join(got)} of the protocol, {", ".join(vs)} by the documentation', where(r) if r else 'gateway/include/gateway/message/protocol.h')
