"""How much a process keeps: everything reachable from the package's modules.

Counted in entries: every object is one, and every container, string or
buffer weighs what it holds.  Modules, classes and functions of others are not
entered, so what is found is kept by the package itself (caches of functools
around its functions included).
"""
import collections
import logging
import types
import weakref

from . import proc

_ATOMS = (type(None), bool, float, type(Ellipsis), type(NotImplemented),
          range, complex)


def _ours(name):
    return isinstance(name, str) and (
        name == proc.PKG or name.startswith(proc.PKG + '.'))


def weigh(p):
    """-> entries kept by the process"""
    own = {id(m) for m in p.modules.values()}
    stack = list(p.modules.values())
    seen = set()
    keep = []                # ids stay taken
    total = 0
    while stack:
        o = stack.pop()
        if o is None or id(o) in seen:
            continue
        t = type(o)
        if t in _ATOMS:
            continue
        seen.add(id(o))
        keep.append(o)
        if t is int:
            total += 1
        elif isinstance(o, (str, bytes, bytearray)):
            total += 1 + len(o) // 64
        elif isinstance(o, types.ModuleType):
            if id(o) in own:
                stack.extend(o.__dict__.values())
        elif isinstance(o, type):
            if not _ours(o.__module__):
                continue
            total += 1
            for k, v in list(vars(o).items()):
                if k not in ('__dict__', '__weakref__'):
                    stack.append(v)
            stack.extend(o.__mro__)
        elif isinstance(o, types.FunctionType):
            if not _ours(o.__module__):
                continue
            total += 1
            stack.append(o.__closure__)
            stack.append(o.__defaults__)
            stack.append(o.__kwdefaults__)
            stack.append(o.__dict__)
        elif isinstance(o, types.CellType):
            total += 1
            try:
                stack.append(o.cell_contents)
            except ValueError:
                pass
        elif isinstance(o, types.MethodType):
            total += 1
            stack += [o.__self__, o.__func__]
        elif isinstance(o, (staticmethod, classmethod)):
            stack.append(o.__func__)
        elif isinstance(o, property):
            stack += [o.fget, o.fset, o.fdel]
        elif isinstance(o, (types.BuiltinFunctionType, types.CodeType,
                            types.FrameType, types.GeneratorType,
                            logging.Logger, logging.PlaceHolder,
                            weakref.ref, types.GetSetDescriptorType,
                            types.MemberDescriptorType)):
            continue
        else:
            total += 1
            if isinstance(o, (dict, types.MappingProxyType)):
                total += len(o)
                stack.extend(list(o.keys()))
                stack.extend(list(o.values()))
            elif isinstance(o, (list, tuple, set, frozenset,
                                collections.deque)):
                total += len(o)
                stack.extend(list(o))
            d = getattr(o, '__dict__', None)
            if isinstance(d, dict):
                stack.extend(list(d.values()))
                total += len(d)
            for c in t.__mro__:
                slots = c.__dict__.get('__slots__', ())
                for name in (slots,) if isinstance(slots, str) else slots:
                    m = c.__dict__.get(name)
                    if isinstance(m, types.MemberDescriptorType):
                        try:
                            stack.append(m.__get__(o, t))
                        except AttributeError:
                            pass
    return total
