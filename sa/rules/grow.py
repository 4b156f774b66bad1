"""Mixin: what is put into and taken out of containers, as events ('grow'|'shrink', container path, values, site)"""
import re
from ..interp import path

GROW = re.compile(r'::(push_back|emplace_back|push_front|emplace_front|insert|emplace|try_emplace|insert_or_assign|push)$')
SHRINK = re.compile(r'::(erase|clear|pop_back|pop_front|pop)$')
FREE_SHRINK = re.compile(r'(^std::(erase|erase_if|exchange)|algorithm::container::(erase|erase_if|extract|trim))$')
BACK = re.compile(r'(back_inserter|back_emplacer|inserter)$')
FREE_GROW = re.compile(r'algorithm::container::(append|append_unique|emplace_back)$')


class Tracks:
    """use before a Rule class with event(); `watch`: regex of container paths"""
    watch = None

    def track(self, I, fr, node, name, obj, args, st):
        site = (fr.F.file, node.get('l'))
        e = None
        if re.search(r'pending::(Holder|basic_holder<.*>)::(remove|add)$', name) and obj is not None:
            e = ('shrink' if name.endswith('remove') else 'grow', path(obj), tuple(I.rvalue(a, st) for a in args), site)
        elif FREE_SHRINK.search(name) and args:
            e = ('shrink', path(args[0]), tuple(I.rvalue(a, st) for a in args[1:]), site)
        elif BACK.search(name) and args:
            e = ('grow', path(args[0]), (), site)
        elif FREE_GROW.search(name) and len(args) > 1:
            e = ('grow', path(args[1]), (I.rvalue(args[0], st),), site)
        elif obj is not None and GROW.search(name) and 'algorithm' not in name:
            e = ('grow', path(obj), tuple(I.rvalue(a, st) for a in args), site)
        elif obj is not None and SHRINK.search(name) and 'algorithm' not in name:
            e = ('shrink', path(obj), tuple(I.rvalue(a, st) for a in args), site)
        if e and (self.watch is None or re.search(self.watch, e[1])):
            return self.event(st, e)
        return st
