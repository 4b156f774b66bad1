"""compact source-like rendering of nodes, for reports"""


def show(F, n, d=0):
    if n is None:
        return ''
    if d > 8:
        return '…'
    k = n['k']
    s = lambda x: show(F, x, d + 1)
    if k == 'call':
        nm = (F.name(n) or s(n.get('callee'))).split('::')
        nm = '::'.join(nm[-2:]) if len(nm) > 1 else nm[0]
        args = ', '.join(s(a) for a in n['a'] if not a or not a.get('defarg'))
        if n.get('op'):
            xs = ([s(n['obj'])] if 'obj' in n else []) + [s(a) for a in n['a']]
            if n['op'] in ('()', '[]'):
                return f"{xs[0]}{n['op'][0]} {', '.join(xs[1:])}{n['op'][1]}"
            if len(xs) == 1:
                return f"{n['op']}{xs[0]}"
            return f" {n['op']} ".join(xs)
        if 'obj' in n:
            return f"{s(n['obj'])}.{nm.split('::')[-1]}({args})"
        return f'{nm}({args})'
    if k == 'ctor':
        if n.get('ck') in ('copy', 'move') and n['a']:
            return s(n['a'][0])
        return f"{F.t(n).split('::')[-1]}{{{', '.join(s(a) for a in n['a'])}}}"
    if k == 'init':
        return f"{F.t(n).split('::')[-1]}{{{', '.join(s(a) for a in n['a'])}}}"
    if k == 'ref':
        return n['n'] if n.get('dk') != 'enum' else F.S[n['q']].split('::')[-1]
    if k == 'mem':
        return f"{s(n['b'])}{'->' if n.get('arrow') else '.'}{n['n']}"
    if k == 'this':
        return 'this'
    if k in ('int', 'float', 'bool', 'const'):
        return str(n.get('v'))
    if k == 'str':
        return repr(n.get('v'))
    if k == 'un':
        return n['op'].replace('p', '') + s(n['e'])
    if k == 'bin':
        return f"{s(n['a'])} {n['op']} {s(n['b'])}"
    if k == 'cond':
        return f"{s(n['c'])} ? {s(n['a'])} : {s(n['b'])}"
    if k == 'lambda':
        return '[..]{..}'
    if k == 'cast':
        return s(n['e'])
    if k == 'index':
        return f"{s(n['b'])}[{s(n['i'])}]"
    if k == 'return':
        return 'return ' + s(n.get('e'))
    if k == 'throw':
        return 'throw ' + s(n.get('e'))
    if k == 'decl':
        return '; '.join(f"{v['n']} = {s(v.get('init'))}" for v in n['c'])
    return k


def tree(F, n, ind=0, out=None):
    top = out is None
    out = [] if top else out
    p = '  ' * ind
    if n is None:
        return out
    k = n['k']
    if k == 'block':
        for c in n['c']:
            tree(F, c, ind, out)
    elif k == 'if':
        if n.get('init'):
            tree(F, n['init'], ind, out)
        c = (f"{n['var']['n']} = {show(F, n['var'].get('init'))}" if n.get('var') else show(F, n['cond']))
        out.append(f'{p}{n["l"]}: if( {c})')
        tree(F, n['then'], ind + 1, out)
        if n.get('else'):
            out.append(f'{p}else')
            tree(F, n['else'], ind + 1, out)
    elif k in ('while', 'do', 'for', 'rfor', 'switch', 'try', 'case', 'default'):
        out.append(f"{p}{n['l']}: {k} {show(F, n.get('cond') or n.get('range') or n.get('e'))}")
        for x in ('init', 'body', 'sub'):
            if n.get(x):
                tree(F, n[x], ind + 1, out)
        for h in n.get('h', []):
            out.append(f"{p}catch")
            tree(F, h['body'], ind + 1, out)
    else:
        out.append(f"{p}{n['l']}: {show(F, n)}")
        for x in lambdas(n):
            out.append(f"{p}   λ {x['f']}")
    return out


def lambdas(n):
    if isinstance(n, dict):
        if n.get('k') == 'lambda':
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from lambdas(v)
    elif isinstance(n, list):
        for v in n:
            yield from lambdas(v)
