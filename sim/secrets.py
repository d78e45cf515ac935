"""Looks for secrets in whatever leaves the library."""
import base64
import types

SPAN = 8            # as many bytes of a secret in a row are a leak


class Secrets:
    def __init__(self):
        self.raw = {}        # needle -> name
        self.text = {}

    def add(self, name, key, numbers=True):
        if key in self.raw:
            return
        self.raw[key] = name
        for k in range(0, len(key) - SPAN + 1, 4):
            part = key[k:k + SPAN]
            self.raw[part] = name
            self.raw[part[::-1]] = name
            self.raw[part.hex().encode()] = name
            self.raw[part.hex().upper().encode()] = name
            self.text[part.hex()] = name
            self.text[part.hex().upper()] = name
            self.text[repr(part)[2:-1]] = name
            self.text[', '.join(map(str, part))] = name
            self.text[part.decode('latin-1')] = name
        if numbers:
            n = int.from_bytes(key, 'big')
            self.text[str(n)] = name
            self.text[hex(n)[2:]] = name
        for off in range(3):
            b = base64.b64encode(key[off:off + 12]).decode()
            self.text[b] = name
            self.text[b.replace('+', '-').replace('/', '_')] = name
            self.raw[b.encode()] = name

    def in_bytes(self, data):
        data = bytes(data)
        for k, name in self.raw.items():
            if k in data:
                return name
        return None

    def in_text(self, text):
        for k, name in self.text.items():
            if k in text:
                return name
        return None


def parts(*roots):
    """every bytes, str and int in these objects, however deep"""
    todo, seen = list(roots), {}
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (bool, float)) or id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, (bytes, bytearray, memoryview, str, int)):
            yield o
        elif isinstance(o, (type, types.ModuleType, types.FunctionType,
                            types.BuiltinFunctionType, types.FrameType,
                            types.TracebackType, types.CodeType)):
            continue
        elif isinstance(o, types.MethodType):
            todo.append(o.__self__)
        elif isinstance(o, dict):
            todo += list(o.keys()) + list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            todo += list(o)
        else:
            if isinstance(o, BaseException):
                todo += [o.args, o.__cause__, o.__context__]
            elif hasattr(o, 'secret') and type(
                    getattr(o, 'secret', None)) is bytes:
                todo.append(o.secret)       # a private key of coincurve
            d = getattr(o, '__dict__', None)
            if isinstance(d, dict):
                todo.append(d)
            for c in type(o).__mro__:
                slots = c.__dict__.get('__slots__', ())
                for name in (slots,) if isinstance(slots, str) else slots:
                    m = c.__dict__.get(name)
                    if isinstance(m, types.MemberDescriptorType):
                        try:
                            todo.append(m.__get__(o, type(o)))
                        except AttributeError:
                            pass
