"""The two interpretations of a harness: symbolic (SymCtx) and concrete on the unpatched code (NativeCtx)."""
import io


class Violation(Exception):
    pass


class AssumeFailed(Exception):
    pass


class ReadLimitNative(Exception):
    pass


# ------------------------------------------------------------------------------------------------

class NativeFile:
    """Read/write in-memory file; optionally sparse; optionally limited in its number of reads."""

    def __init__(self, data=b'', size=None, sparse=None):
        self.sparse = sparse
        self.buf = bytearray(data) if sparse is None else None
        self.size = len(data) if sparse is None else size
        self.pos = 0
        self.reads = 0
        self.read_limit = None
        self.closed = False
        self.log = []

    def seek(self, off, whence=0):
        off = off.__index__()
        if off > (1 << 63) - 1:
            raise OverflowError('Python int too large to convert to C ssize_t')
        if whence == 0:
            if off < 0:
                raise ValueError('negative seek value %d' % off)
            self.pos = off
        elif whence == 1:
            self.pos = max(self.pos + off, 0)
        else:
            self.pos = max(self.size + off, 0)
        return self.pos

    def tell(self):
        return self.pos

    def read(self, size=-1):
        self.reads += 1
        if self.read_limit is not None and self.reads > self.read_limit:
            raise ReadLimitNative()
        if size is not None and size > (1 << 63) - 1:
            raise OverflowError('Python int too large to convert to C ssize_t')
        if size is None or size < 0:
            n = max(self.size - self.pos, 0)
        else:
            n = min(size, max(self.size - self.pos, 0))
        if n > 1 << 26:
            raise MemoryError('replay read too large')
        if self.sparse is None:
            r = bytes(self.buf[self.pos:self.pos + n])
        else:
            d = self.sparse
            dv = d.get('default', 0)
            r = bytearray(bytes([dv]) * n)
            m = d['map']
            if len(m) < n:
                for k, v in m.items():
                    if self.pos <= k < self.pos + n:
                        r[k - self.pos] = v
            else:
                for i in range(n):
                    r[i] = m.get(self.pos + i, dv)
            r = bytes(r)
        self.log.append((self.pos, n))
        self.pos += n
        return r

    def write(self, data):
        if self.sparse is not None:
            for i, b in enumerate(data):
                self.sparse['map'][self.pos + i] = b
            self.size = max(self.size, self.pos + len(data))
        else:
            if self.pos > len(self.buf):
                self.buf.extend(bytes(self.pos - len(self.buf)))
            self.buf[self.pos:self.pos + len(data)] = data
            self.size = len(self.buf)
        self.pos += len(data)
        return len(data)

    def byte(self, i):
        if self.sparse is None:
            return self.buf[i]
        return self.sparse['map'].get(i, self.sparse.get('default', 0))

    def getvalue(self):
        return bytes(self.buf)

    def close(self):
        self.closed = True

    def flush(self):
        pass


class Exit(SystemExit):
    """A script called sys.exit()."""


class Rows:
    """Stands for csv.writer and csv.DictWriter: keeps the rows."""

    def __init__(self, out, fields=None):
        self.out, self.fields = out, fields

    def writerow(self, row):
        self.out.rows.append([row[f] for f in self.fields] if self.fields is not None else list(row))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)

    def writeheader(self):
        self.out.rows.append(list(self.fields))


class Output:
    """A text file that a script writes."""

    def __init__(self):
        self.rows, self.text, self.closed = [], [], False

    def write(self, s):
        self.text.append(s)

    def lines(self):
        """What was written, line by line (line ends in symbolic text are not looked for)."""
        out, cur = [], ''
        for s in self.text:
            while isinstance(s, str) and '\n' in s:
                a, s = s.split('\n', 1)
                out.append(cur + a)
                cur = ''
            if not isinstance(s, str) or s:
                cur = cur + s if isinstance(cur, str) and cur or not isinstance(cur, str) else s
        return out + [cur] if not isinstance(cur, str) or cur else out

    def writelines(self, l):
        for s in l:
            self.write(s)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Outputs(dict):
    """The files that a script wrote, by name."""


def run_script(path, argv, files, execute, builtins_dict, importer, modules):
    """Runs a script of the repository from its current source, with stand-ins for its files, arguments and csv output."""
    import types
    outs = Outputs()
    outs.stdout = Output()

    def s_open(name, mode='r', *a, **k):
        if 'b' in mode and 'r' in mode and name in files:
            return files[name]
        if 'w' in mode:
            outs[name] = Output()
            return outs[name]
        raise FileNotFoundError(name)

    def s_exit(code=0):
        raise Exit(code)

    def s_print(*a, file=None, end='\n', sep=' ', flush=False):
        file = outs.stdout if file is None else file
        for i, x in enumerate(a):
            file.write(x if i == 0 else sep)
            if i:
                file.write(x)
        file.write(end)

    std = Output()
    fakes = {'sys': types.SimpleNamespace(argv=[path] + argv, exit=s_exit, stdout=outs.stdout, stderr=std, byteorder='little'),
             'csv': types.SimpleNamespace(writer=lambda f, *a, **k: Rows(f), DictWriter=lambda f, fieldnames, *a, **k: Rows(f, list(fieldnames)), excel='excel', QUOTE_MINIMAL=0, QUOTE_ALL=1)}
    fakes.update(modules)

    def s_import(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in fakes:
            return fakes[name]
        return importer(name, globals, locals, fromlist, level)

    b = dict(builtins_dict)
    b.update({'open': s_open, '__import__': s_import, 'print': s_print, 'exit': s_exit, 'quit': s_exit})
    with open(path, encoding='utf-8') as f:
        src = f.read()
    g = {'__name__': '__main__', '__file__': path, '__builtins__': b}
    code = 0
    try:
        execute(src, path, g)
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    return outs, code


class NativeCtx:
    sym = False
    ReadLimit = ReadLimitNative

    def __init__(self, inputs):
        self.inputs = inputs
        self.counters = {}
        self.labels = []
        self.nchecks = 0

    def _name(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def int(self, name, lo, hi):
        k = self._name(name)
        if lo == hi:
            return lo
        v = self.inputs.get(k, lo)
        if not lo <= v <= hi:
            raise AssumeFailed('range of ' + name)
        return v

    def bool(self, name):
        return bool(self.inputs.get(self._name(name), False))

    def choice(self, name, values):
        return values[self.inputs.get(self._name(name), 0)]

    def bytes(self, name, n, array=False):
        k = self._name(name)
        v = self.inputs.get(k)
        if v is None:
            return bytes(n)
        if isinstance(v, dict):
            b = bytearray([v.get('default', 0)]) * n
            for i, x in v['map'].items():
                if 0 <= i < n:
                    b[i] = x
            return bytes(b)
        return bytes(v[:n]) + bytes(n - len(v[:n]))

    def file(self, data):
        return NativeFile(data)

    def script(self, name, argv, files, modules={}):
        import builtins
        import os
        path = os.path.join(os.environ.get('VERIF_REPO', '/repo'), name)
        return run_script(path, argv, files, lambda src, p, g: exec(compile(src, p, 'exec'), g), builtins.__dict__, builtins.__import__, modules)

    def volume(self, name, size):
        v = self.inputs.get(self._name(name))
        if not isinstance(v, dict):
            v = {'default': 0, 'map': {}}
        return NativeFile(size=size, sparse=v)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg):
        self.nchecks += 1
        if not c:
            raise Violation(msg)

    def fail(self, msg):
        raise Violation(msg)

    def outcome(self, label):
        self.labels.append(str(label))

    @staticmethod
    def And(*a):
        return all(a)

    @staticmethod
    def Or(*a):
        return any(a)

    @staticmethod
    def Not(a):
        return not a

    @staticmethod
    def Implies(a, b):
        return (not a) or b

    @staticmethod
    def If(c, a, b):
        return a if c else b

    @staticmethod
    def byteseq(n, f):
        """bytes of length n whose i-th byte is f(i)."""
        return bytes(f(i) for i in range(n))

    @staticmethod
    def byte_at(b, i):
        return b[i] if 0 <= i < len(b) else 0

    @staticmethod
    def fork(c):
        return bool(c)

    @staticmethod
    def concrete(x):
        return x

    @staticmethod
    def text():
        pass

    @staticmethod
    def pin():
        pass

    @staticmethod
    def merge():
        pass


# ------------------------------------------------------------------------------------------------

class SymCtx:
    sym = True

    def __init__(self, engine):
        from . import core, values
        self.C = core
        self.V = values
        self.e = engine
        engine.text = engine.pin = engine.merge = False
        self.ReadLimit = values.ReadLimit
        self.And = core.sand
        self.Or = core.sor
        self.Not = core.snot
        self.Implies = core.simplies
        self.If = core.sif

    def int(self, name, lo, hi):
        import z3
        k = self.e.fresh_name(name)
        if lo == hi:
            return lo
        C = self.C
        w = C.width_for(lo, hi)
        t = z3.BitVec(k, w)
        x = C.SymInt(t, lo, hi)
        self.e.inputs[k] = ('int', t)
        full_lo, full_hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        cs = []
        if lo > full_lo:
            cs.append(t >= z3.BitVecVal(lo, w))
        if hi < full_hi:
            cs.append(t <= z3.BitVecVal(hi, w))
        if cs:
            self.e.assume(z3.And(*cs))
        return x

    def bool(self, name):
        import z3
        k = self.e.fresh_name(name)
        t = z3.Bool(k)
        self.e.inputs[k] = ('bool', t)
        return self.C.SymBool(t)

    def choice(self, name, values):
        import z3
        k = self.e.fresh_name(name)
        if len(values) == 1:
            self.e.inputs[k] = ('const', 0)
            return values[0]
        w = len(values).bit_length() + 1
        t = z3.BitVec(k, w)
        self.e.inputs[k] = ('int', t)
        self.e.assume(z3.And(t >= 0, t < len(values)))
        x = self.C.SymInt(t, 0, len(values) - 1)
        return values[self.C.concretize(x)]

    def bytes(self, name, n, array=False):
        import z3
        V = self.V
        k = self.e.fresh_name(name)
        if not isinstance(n, int) or array:
            a = z3.Function(k, z3.BitVecSort(V.IDXW), V.B8)
            self.e.inputs[k] = ('array', a)
            return V.SymBytes(n, V.NArr(a))
        l = [z3.BitVec('%s[%d]' % (k, i), 8) for i in range(n)]
        self.e.inputs[k] = ('bytes', l)
        return V.SymBytes(n, V.NList(l))

    def file(self, data):
        return self.V.SymFile(data)

    def script(self, name, argv, files, modules={}):
        """Runs a script of the repository with these arguments and input files; gives (what it wrote, exit code)."""
        import os
        from . import loader
        path = os.path.join(os.environ.get('VERIF_REPO', '/repo'), name)
        return run_script(path, argv, files, lambda src, p, g: exec(loader.rewrite(src, p, name), g), loader.BUILTINS, loader.sx_import, modules)

    def volume(self, name, size):
        import z3
        V = self.V
        k = self.e.fresh_name(name)
        a = z3.Function(k, z3.BitVecSort(V.IDXW), V.B8)
        self.e.inputs[k] = ('array', a)
        f = V.SymFile(V.SymBytes(size, V.NArr(a)))
        f.byte = lambda i, n=V.NArr(a): V.byte_to_int(n.at(i))
        return f

    def assume(self, c):
        self.e.assume(self.C.bexpr(c))

    def check(self, c, msg):
        self.e.check(self.C.bexpr(c), msg)

    def fail(self, msg):
        import z3
        self.e.check(z3.BoolVal(False), msg)
        raise self.C.Infeasible()

    def outcome(self, label):
        self.e.labels.append(str(label))

    def byteseq(self, n, f):
        V = self.V
        if isinstance(n, int) and n <= 64:
            return V.mkbytes([f(i) for i in range(n)])
        return V.SymBytes(n, V.NMap(f))

    def byte_at(self, b, i):
        """b[i] without a bounds fork (the harness has established that i is in bounds)."""
        return self.V.to_sym(b).at(i)

    def fork(self, c):
        return bool(c)

    def concrete(self, x):
        return self.C.concretize(x)

    def text(self):
        """Printed numbers and times are kept as terms."""
        self.e.text = True

    def pin(self):
        """Positions in files and printed numbers become concrete when the path condition leaves one value."""
        self.e.pin = True

    def merge(self):
        """If statements that only give a value to a variable do not fork (checksums)."""
        self.e.merge = True


def model_inputs(engine, model):
    """The inputs of the current path under a model, as plain data."""
    import z3
    out = {}
    for k, (kind, t) in engine.inputs.items():
        if kind == 'int':
            out[k] = model.eval(t, model_completion=True).as_signed_long()
        elif kind == 'bool':
            out[k] = z3.is_true(model.eval(t, model_completion=True))
        elif kind == 'const':
            out[k] = t
        elif kind == 'bytes':
            out[k] = [model.eval(x, model_completion=True).as_long() for x in t]
        elif kind == 'array':
            out[k] = array_value(model, t)
    return out


def array_value(model, t):
    import z3
    f = model[t] if any(d.name() == t.name() for d in model.decls()) else None
    m = {}
    d = 0
    if isinstance(f, z3.FuncInterp):
        for j in range(f.num_entries()):
            en = f.entry(j)
            m[en.arg_value(0).as_long()] = en.value().as_long()
        e = f.else_value()
        if e is not None and z3.is_bv_value(e):
            d = e.as_long()
    return {'default': d, 'map': m}
