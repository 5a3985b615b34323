#!/usr/bin/env python3-vt
"""Symbolic executor for LLVM IR (clang 18 text, -O1) with z3 deciding every
branch and assertion.  All feasible paths are explored; exploration that is cut
short (time, unknown) is reported as 'incomplete', never as a pass.

usage: symx.py FILE.ll OUT.json [time_limit_s]
"""
import json
import math
import os
import random
import re
import struct
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ll2c import P, tokenize, skip_attrs, Unsupported, PARAM_ATTRS  # noqa: E402
import z3  # noqa: E402

sys.setrecursionlimit(20000)
DEBUG = bool(os.environ.get('SYMX_DEBUG'))
BV = z3.BitVecRef
BO = z3.BoolRef
FPR = z3.FPRef
RNE = z3.RNE()
RTZ = z3.RTZ()
F64 = z3.Float64()
F32 = z3.Float32()


SIMP = {}


def simp(t):
    """z3.simplify, memoised: the simplifier's argument order depends on term ids, so the same computation repeated on the
    same inputs must give the identical term"""
    k = t.get_id()
    r = SIMP.get(k)
    if r is not None:
        return r[1]
    s = z3.simplify(t)
    if len(SIMP) > 3000000:
        SIMP.clear()
    SIMP[k] = (t, s)
    k2 = s.get_id()
    if k2 != k and k2 not in SIMP:
        SIMP[k2] = (s, s)
    return s


BIG = 900
SIMPW = 600


class Viol(Exception):
    def __init__(self, msg):
        self.msg = msg


class PathEnd(Exception):
    pass


class Fork(Exception):
    """alternatives: list of (constraint, concretisation (term,value) or None)"""

    def __init__(self, alts):
        self.alts = alts


class FB:
    """symbolic float held as raw IEEE bits"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


def fpnum(t):
    s = t.sort()
    b = z3.simplify(z3.fpToIEEEBV(t)).as_long()
    if s.ebits() == 11:
        return struct.unpack('<d', b.to_bytes(8, 'little'))[0]
    return struct.unpack('<f', b.to_bytes(4, 'little'))[0]


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


# ------------------------------------------------------------------ types
class Layout:
    def __init__(self, types):
        self.types = types
        self.cache = {}

    def st(self, t):
        return self.types[t[1]] if t[0] == 'st' else t

    def size(self, t):
        return self.sa(t)[0]

    def sa(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self._sa(t)
        return r

    def _sa(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            s = 1
            while s < n:
                s *= 2
            return (s, min(s, 16))
        if k == 'ptr' or k == 'double':
            return (8, 8)
        if k == 'float':
            return (4, 4)
        if k == 'x86_fp80':
            return (16, 16)
        if k == 'arr':
            s, a = self.sa(t[2])
            return (s * t[1], a)
        if k in ('st', 'anon'):
            fs, s, a = self.fields(t)
            return (s, a)
        raise Unsupported('size of %r' % (t,))

    def fields(self, t):
        key = ('F', t)
        r = self.cache.get(key)
        if r is None:
            b = self.st(t)
            if b[0] == 'opaque':
                raise Unsupported('opaque type')
            off, al, fs = 0, 1, []
            for x in b[1]:
                s, a = self.sa(x)
                if b[2]:
                    a = 1
                off = (off + a - 1) // a * a
                fs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = self.cache[key] = (fs, off, al)
        return r


# ------------------------------------------------------------------ module
class Fn:
    __slots__ = ('name', 'ret', 'args', 'va', 'body', 'blocks', 'nregs', 'oid', 'argslots', 'compiled', 'pure', 'phity', 'ham')


class Obj:
    __slots__ = ('cells', 'owner', 'name', 'ro', 'live')

    def __init__(self, cells, owner, name, ro=False):
        self.cells, self.owner, self.name, self.ro, self.live = cells, owner, name, ro, True


class Frame:
    __slots__ = ('fn', 'block', 'pc', 'regs', 'prev', 'ret', 'allocas', 'va')

    def copy(self):
        f = Frame()
        f.fn, f.block, f.pc, f.regs, f.prev, f.ret = self.fn, self.block, self.pc, self.regs[:], self.prev, self.ret
        f.allocas, f.va = self.allocas[:], self.va
        return f


class State:
    _n = 0

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.draws = []
        self.conc = {}
        self.defs = set()
        self.model = None
        self.depth = 0
        State._n += 1
        self.id = State._n

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.draws = self.draws[:]
        s.conc = dict(self.conc)
        s.defs = set(self.defs)
        s.model = self.model
        # both sides must clone objects on write
        State._n += 1
        self.id = State._n
        return s


def is_sym(v):
    return isinstance(v, (BV, BO, FPR, FB))


class Engine:
    def __init__(self, text, limit=300, opts=None):
        self.opts = opts or {}
        self.merge = bool(self.opts.get('merge'))
        self.types = {}
        self.globals = {}
        self.gorder = []
        self.fns = {}
        self.aliases = {}
        self.ctors = []
        self.parse(text)
        self.L = Layout(self.types)
        self.nobj = 1
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.al, self.lv, self.nheavy, self.info, self.absm, self.keepabs = [], [], 0, {}, {}, []
        self.t0 = time.time()
        self.limit = limit
        self.stats = dict(paths=0, queries=0, solver_s=0.0, instrs=0, forks=0, asserts={}, reach={}, unknown=0)
        self.viol = []
        self.work = []
        self.fresh = 0
        self.named = {}
        self.light = False
        self.leafs = {}
        self.fb = {}
        self.fx = {}
        self.defn = {}
        self.W = {}
        self.keep = []
        self.b2f = {}
        self.forkat = {}
        self.cur = None
        self.gobj = {}
        self.fobj = {}
        self.objfn = {}

    # ---- parsing
    afftab = {}

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if not s or s[0] in ';!$' or s.startswith(('source_filename', 'target', 'attributes', 'module asm')):
                i += 1
                continue
            if s[0] == '%' and ' = type ' in s:
                p = P(tokenize(s))
                n = p.next()
                p.expect('=')
                p.expect('type')
                self.types[n] = p.type()
            elif s[0] == '@':
                self.parse_global(s)
            elif s.startswith('declare'):
                self.parse_fn(s, None)
            elif s.startswith('define'):
                body = []
                i += 1
                while lines[i] != '}':
                    b = lines[i]
                    if b.strip().startswith('switch') and b.strip().endswith('['):
                        while not lines[i].strip().startswith(']'):
                            i += 1
                            b += ' ' + lines[i].strip()
                    body.append(b)
                    i += 1
                self.parse_fn(s, body)
            else:
                raise Unsupported('toplevel: ' + s[:80])
            i += 1

    def parse_global(self, s):
        p = P(tokenize(s))
        n = p.next()
        p.expect('=')
        const = ext = False
        while True:
            t = p.next()
            if t in ('global', 'constant'):
                const = t == 'constant'
                break
            if t == 'alias':
                p.type()
                p.expect(',')
                p.type()
                self.aliases[n] = p.next()
                return
            if t in ('external', 'extern_weak'):
                ext = True
            if t is None:
                raise Unsupported(s)
        ty = p.type()
        self.globals[n] = (ty, None if ext else p, const)
        self.gorder.append(n)

    def parse_fn(self, s, body):
        p = P(tokenize(s))
        p.next()
        while True:
            t = p.peek()
            if t in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'private', 'local_unnamed_addr', 'hidden',
                     'weak', 'linkonce', 'available_externally', 'fastcc', 'ccc', 'coldcc', 'external', 'extern_weak'):
                p.next()
            elif t in PARAM_ATTRS or t in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                skip_attrs(p)
            else:
                break
        ret = p.type() if p.peek(1) != '(' else None
        name = p.next()
        p.expect('(')
        args, va = [], False
        while not p.accept(')'):
            if p.accept('...'):
                va = True
            else:
                ty = p.type()
                byval = skip_attrs(p)
                an = None
                if p.peek() and p.peek()[0] == '%':
                    an = p.next()
                args.append((ty, an, byval))
            p.accept(',')
        if name in self.fns and self.fns[name].body is not None:
            return
        f = Fn()
        f.name, f.ret, f.args, f.va, f.body, f.blocks, f.compiled = name, ret, args, va, body, None, False
        self.fns[name] = f

    # ---- objects
    def newobj(self, st, size, name, fill=None, ro=False):
        oid = self.nobj
        self.nobj += 1
        st.mem[oid] = Obj([fill] * size, st.id, name, ro)
        return oid

    def fnptr(self, name):
        name = self.aliases.get(name, name)
        if name not in self.fobj:
            self.fobj[name] = self.nobj
            self.objfn[self.nobj] = name
            self.nobj += 1
        return (self.fobj[name], 0)

    def gptr(self, name):
        name = self.aliases.get(name, name)
        if name in self.fns:
            return self.fnptr(name)
        if name not in self.gobj:
            raise Unsupported('global ' + name)
        return (self.gobj[name], 0)

    def init_globals(self, st):
        for n in self.gorder:
            if n.startswith('@llvm.'):
                if n == '@llvm.global_ctors':
                    self.ctors = [x for x in self.globals[n][1].t if x[0] == '@' and x != n]
                continue
            ty, init, c = self.globals[n]
            try:
                sz = self.L.size(ty)
            except Unsupported:
                sz = 8
            self.gobj[n] = self.newobj(st, sz, n, 0)
        for n in self.gorder:
            if n.startswith('@llvm.'):
                continue
            ty, init, c = self.globals[n]
            if init is None:
                continue
            init = P(init.t[init.i:])
            o = st.mem[self.gobj[n]]
            self.initval(ty, init, o.cells, 0)
            o.ro = c
        self.nglob = self.nobj

    def initval(self, t, p, cells, off):
        x = p.peek()
        if x in ('zeroinitializer', 'undef', 'poison'):
            p.next()
            return
        if t[0] == 'arr':
            if x.startswith('c"'):
                p.next()
                s, i, k = x[2:-1], 0, off
                while i < len(s):
                    if s[i] == '\\':
                        cells[k] = int(s[i + 1:i + 3], 16)
                        i += 3
                    else:
                        cells[k] = ord(s[i])
                        i += 1
                    k += 1
                return
            p.expect('[')
            es = self.L.size(t[2])
            k = 0
            while not p.accept(']'):
                et = p.type()
                self.initval(et, p, cells, off + k * es)
                k += 1
                p.accept(',')
            return
        if t[0] in ('st', 'anon'):
            packed = p.accept('<')
            p.expect('{')
            fs = self.L.fields(t)[0]
            k = 0
            while not p.accept('}'):
                et = p.type()
                self.initval(et, p, cells, off + fs[k])
                k += 1
                p.accept(',')
            if packed:
                p.expect('>')
            return
        v = self.constval(t, p)
        cells[off:off + self.L.size(t)] = self.tocells(t, v)

    def constval(self, t, p):
        x = p.next()
        if x in ('null', 'none'):
            return (0, 0)
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if x == 'zeroinitializer' or x in ('undef', 'poison'):
            if t[0] == 'ptr':
                return (0, 0)
            if t[0] in ('float', 'double'):
                return 0.0
            if t[0] in ('st', 'anon', 'arr'):
                return self.zeroagg(t)
            return 0
        if x[0] == '@':
            return self.gptr(x)
        if x == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            p.expect('(')
            st = p.type()
            p.expect(',')
            bt = p.type()
            base = self.constval(bt, p)
            idx = []
            while p.accept(','):
                it = p.type()
                v = int(p.next())
                idx.append(v)
            p.expect(')')
            off = base[1] + idx[0] * self.L.size(st)
            tt = st
            for v in idx[1:]:
                tt2 = self.L.st(tt)
                if tt2[0] == 'arr':
                    off += v * self.L.size(tt2[2])
                    tt = tt2[2]
                else:
                    off += self.L.fields(tt)[0][v]
                    tt = tt2[1][v]
            return (base[0], off)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
            p.expect('(')
            bt = p.type()
            v = self.constval(bt, p)
            p.expect('to')
            tt = p.type()
            p.expect(')')
            if x == 'inttoptr' and isinstance(v, int):
                return (0, v)
            return v
        if t[0] == 'i':
            return int(x) & ((1 << t[1]) - 1)
        if t[0] in ('double', 'float'):
            if x.startswith('0x'):
                return struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
            return float(x)
        if t[0] in ('st', 'anon', 'arr') and x in ('{', '[', '<'):
            p.i -= 1
            return self.constagg(t, p)
        raise Unsupported('const %r %r' % (t, x))

    def zeroagg(self, t):
        b = self.L.st(t)
        if b[0] == 'arr':
            return [self.zero(b[2]) for _ in range(b[1])]
        return [self.zero(x) for x in b[1]]

    def zero(self, t):
        if t[0] == 'ptr':
            return (0, 0)
        if t[0] in ('float', 'double'):
            return 0.0
        if t[0] in ('st', 'anon', 'arr'):
            return self.zeroagg(t)
        return 0

    def constagg(self, t, p):
        b = self.L.st(t)
        p.accept('<')
        p.next()
        r = []
        while p.peek() not in ('}', ']'):
            et = p.type()
            r.append(self.constval(et, p))
            p.accept(',')
        p.next()
        p.accept('>')
        return r

    # ---- cells
    def tocells(self, t, v):
        k = t[0]
        if k == 'i':
            n = self.L.size(t)
            if type(v) is int:
                return list(v.to_bytes(n, 'little'))
            if type(v) is tuple:
                return [('p', v, i) for i in range(8)]
            if isinstance(v, BO):
                v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            elif v.size() < n * 8:
                v = z3.ZeroExt(n * 8 - v.size(), v)
            if n == 1:
                return [v]
            return [(v, i, n) for i in range(n)]
        if k == 'ptr':
            if v == (0, 0):
                return [0] * 8
            return [('p', v, i) for i in range(8)]
        if k == 'double' or k == 'float':
            n = 8 if k == 'double' else 4
            if type(v) is float:
                return list(struct.pack('<d' if n == 8 else '<f', v)) if n == 8 else list(self.packf(v))
            if isinstance(v, FB):
                v = v.b
            return [(v, i, n) for i in range(n)]
        if k in ('st', 'anon', 'arr'):
            b = self.L.st(t)
            out = [0] * self.L.size(t)
            if b[0] == 'arr':
                es = self.L.size(b[2])
                for i in range(b[1]):
                    out[i * es:(i + 1) * es] = self.tocells(b[2], v[i])
            else:
                fs = self.L.fields(t)[0]
                for i, x in enumerate(b[1]):
                    out[fs[i]:fs[i] + self.L.size(x)] = self.tocells(x, v[i])
            return out
        raise Unsupported('store %r' % (t,))

    @staticmethod
    def packf(v):
        try:
            return struct.pack('<f', v)
        except OverflowError:
            return struct.pack('<f', math.inf if v > 0 else -math.inf)

    def byte(self, c):
        """cell -> int or BV8"""
        if type(c) is int or isinstance(c, BV):
            return c
        if c is None:
            self.fresh += 1
            return z3.BitVec('undef!%d' % self.fresh, 8)
        if isinstance(c[0], str) and c[0] == 'p':
            # pointer bytes looked at as integers: synthetic address
            a = self.addr(c[1])
            if type(a) is int:
                return (a >> (8 * c[2])) & 255
            return z3.Extract(8 * c[2] + 7, 8 * c[2], a)
        v, i, n = c
        if isinstance(v, FPR):
            v = z3.fpToIEEEBV(v)
        return simp(z3.Extract(8 * i + 7, 8 * i, v))

    def addr(self, p):
        base = 0 if p[0] == 0 else (p[0] << 20)
        o = p[1]
        if type(o) is int:
            return (base + o) & ((1 << 64) - 1)
        return z3.BitVecVal(base, 64) + o

    def fromcells(self, t, cs):
        k = t[0]
        if k in ('st', 'anon', 'arr'):
            b = self.L.st(t)
            if b[0] == 'arr':
                es = self.L.size(b[2])
                return [self.fromcells(b[2], cs[i * es:(i + 1) * es]) for i in range(b[1])]
            fs = self.L.fields(t)[0]
            return [self.fromcells(x, cs[fs[i]:fs[i] + self.L.size(x)]) for i, x in enumerate(b[1])]
        n = len(cs)
        c0 = cs[0]
        allint = True
        for c in cs:
            if type(c) is not int:
                allint = False
                break
        if allint:
            if k == 'i':
                v = int.from_bytes(bytes(cs), 'little')
                return v & ((1 << t[1]) - 1)
            if k == 'ptr':
                v = int.from_bytes(bytes(cs), 'little')
                return (v >> 20, v & 0xFFFFF) if v >= (1 << 20) else (0, v)
            if k == 'double':
                return struct.unpack('<d', bytes(cs))[0]
            if k == 'float':
                return struct.unpack('<f', bytes(cs))[0]
        if type(c0) is tuple:
            if isinstance(c0[0], str):
                ok = n == 8 and all(type(c) is tuple and isinstance(c[0], str) and c[1] == c0[1] and c[2] == i for i, c in enumerate(cs))
                if ok:
                    return c0[1]
            elif c0[1] == 0 and c0[2] == n and all(type(c) is tuple and c[0] is c0[0] and c[1] == i for i, c in enumerate(cs)):
                v = c0[0]
                if k == 'i':
                    if isinstance(v, FPR):
                        v = z3.fpToIEEEBV(v)
                    if v.size() > t[1]:
                        v = z3.Extract(t[1] - 1, 0, v)
                    return self.norm(v)
                if k in ('float', 'double'):
                    if isinstance(v, FPR):
                        return v
                    return FB(v)
        if all(c is None for c in cs) and k == 'ptr':
            return (0, 0xdead)
        bs = [self.byte(c) for c in cs]
        if all(type(b) is int for b in bs):
            return self.fromcells(t, bs)
        bs = [z3.BitVecVal(b, 8) if type(b) is int else b for b in bs]
        v = bs[0] if n == 1 else simp(z3.Concat(*reversed(bs)))
        if k == 'i':
            if t[1] == 1:
                return z3.Extract(0, 0, v) == 1
            if v.size() > t[1]:
                v = z3.Extract(t[1] - 1, 0, v)
            return v
        if k in ('float', 'double'):
            return FB(v)
        if k == 'ptr':
            raise Unsupported('pointer from symbolic bytes')
        raise Unsupported('load %r' % (t,))

    def norm(self, v, raw=False):
        if isinstance(v, BV):
            W = self.W
            w = 1
            for c in v.children():
                w += W.get(c.get_id(), 3)
            if w <= SIMPW and not raw:
                s = simp(v)
                if z3.is_bv_value(s):
                    return s.as_long()
            else:
                k = v.get_id()
                s = v
            k = s.get_id()
            if k not in W:
                W[k] = w
                self.keep.append(s)
            elif s is not v:
                w = W[k]
            if w > BIG:
                return self.name_term(s)
            return s
        if isinstance(v, BO):
            w = 1
            for c in v.children():
                w += self.W.get(c.get_id(), 3)
            if w > BIG:
                return v
            s = simp(v)
            if z3.is_true(s):
                return 1
            if z3.is_false(s):
                return 0
            k = s.get_id()
            if k not in self.W:
                self.W[k] = w
                self.keep.append(s)
            return s
        return v

    def name_term(self, t):
        """replace a large term by a fresh constant whose definition is asserted when a query needs it (keeps
        simplification linear, and later byte extraction and comparison of the same value syntactic)"""
        k = t.get_id()
        r = self.named.get(k)
        if r is None:
            self.fresh += 1
            v = z3.BitVec('t!%d' % self.fresh, t.size())
            r = self.named[k] = (v, t)
            self.defn[v.get_id()] = (v, t)
            self.W[v.get_id()] = 1
        return r[0]

    def need(self, st, *terms):
        """assert the definitions (transitively) mentioned by terms on the current path"""
        new = []
        seen = set()
        defs = st.defs
        defn = self.defn

        def scan(t):
            todo = [t]
            out = []
            while todo:
                x = todo.pop()
                k = x.get_id()
                if k in seen:
                    continue
                seen.add(k)
                if k in defn:
                    if k not in defs:
                        out.append(k)
                    continue
                todo.extend(x.children())
            return out
        for t in terms:
            stack = [(k, False) for k in scan(t)]
            while stack:
                k, done = stack.pop()
                if done:
                    new.append(k)
                    continue
                if k in defs:
                    continue
                defs.add(k)
                stack.append((k, True))
                stack.extend((q, False) for q in scan(defn[k][1]))
        if not new:
            return
        self.spush()
        for k in new:
            v, t = defn[k]
            self.sadd(v == t, v.get_id())
            if st.model is not None:
                try:
                    st.model.update_value(v, st.model.eval(t, model_completion=True))
                except Exception:
                    st.model = None
        st.depth = self.solver.num_scopes()

    # ---- solver
    def spush(self):
        self.solver.push()
        self.lv.append((len(self.al), self.nheavy))

    def spop(self):
        self.solver.pop()
        n, self.nheavy = self.lv.pop()
        del self.al[n:]

    def sadd(self, c, defines=None):
        self.solver.add(c)
        self.al.append((c, defines))
        if self.tinfo(c)[1]:
            self.nheavy += 1

    def tinfo(self, t):
        """(ids of the free constants, contains float arithmetic) of an assertion"""
        k = t.get_id()
        r = self.info.get(k)
        if r is None:
            vs, heavy, seen, todo = set(), False, set(), [t]
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if not z3.is_app(x):
                    continue
                d = x.decl().kind()
                if d == z3.Z3_OP_UNINTERPRETED:
                    vs.add(i)
                    self.leafs[i] = x
                elif d in HEAVY and (d != z3.Z3_OP_FPA_TO_FP or x.num_args() > 1):
                    heavy = True
                todo.extend(x.children())
            r = self.info[k] = (frozenset(vs), heavy, t)
        return r

    def abstract(self, t):
        """t with each outermost float operation replaced by a free constant (so unsatisfiable here means unsatisfiable)"""
        k = t.get_id()
        r = self.absm.get(k)
        if r is None:
            if z3.is_app(t) and t.decl().kind() in HEAVY and (t.decl().kind() != z3.Z3_OP_FPA_TO_FP or t.num_args() > 1):
                r = z3.FreshConst(t.sort(), 'abs')
            elif t.num_args() == 0:
                r = t
            else:
                ch = t.children()
                nc = [self.abstract(c) for c in ch]
                r = t if all(x is y for x, y in zip(ch, nc)) else t.decl()(*nc) if t.num_args() <= 2 or t.decl().kind() not in (
                    z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_CONCAT, z3.Z3_OP_BADD, z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BXOR, z3.Z3_OP_BMUL, z3.Z3_OP_DISTINCT) else self.nary(t, nc)
            self.absm[k] = r
            self.keepabs.append(t)
        return r

    def nary(self, t, nc):
        d = t.decl().kind()
        if d == z3.Z3_OP_AND:
            return z3.And(nc)
        if d == z3.Z3_OP_OR:
            return z3.Or(nc)
        if d == z3.Z3_OP_CONCAT:
            return z3.Concat(nc)
        if d == z3.Z3_OP_DISTINCT:
            return z3.Distinct(nc)
        r = nc[0]
        for x in nc[1:]:
            r = r + x if d == z3.Z3_OP_BADD else r | x if d == z3.Z3_OP_BOR else r & x if d == z3.Z3_OP_BAND else r ^ x if d == z3.Z3_OP_BXOR else r * x
        return r

    def sliced(self, extra, left, final):
        """query when float arithmetic is on the path: only the constraints connected to the question matter, and most of
        them with the arithmetic left uninterpreted. Returns None when the ordinary query should be asked instead."""
        if not extra:
            return None
        vs = set()
        for e in extra:
            vs |= self.tinfo(e)[0]
        rest = [(self.tinfo(a), a, v) for a, v in self.al]
        sel, grown = [], True
        while grown:
            grown, nr = False, []
            for i, a, v in rest:
                if (v in vs) if v is not None else (not vs.isdisjoint(i[0]) or not i[0]):  # a definition constrains nothing else
                    sel.append(a)
                    if not i[0] <= vs:
                        vs |= i[0]
                        grown = True
                else:
                    nr.append((i, a, v))
            rest = nr
        heavy = any(self.tinfo(a)[1] for a in sel) or any(self.tinfo(e)[1] for e in extra)
        if heavy:
            s = z3.Solver()
            s.set('timeout', 1500)
            sa = [self.abstract(a) for a in sel]
            ea = [self.abstract(e) for e in extra]
            s.add(*sa)
            r = s.check(*ea)
            if r == z3.unknown:
                r = self.blast(sa + ea, min(left, 300 if final else 20))
            if r == z3.unsat:
                return z3.unsat, None
            if self.light:
                return z3.unknown, None
            m = self.concrete(s, sel, extra, [t[1] for t in rest], 40 if final else 4)
            if m is not None:
                return z3.sat, m
        if not rest:
            if final or not heavy:
                return None
        s = z3.Solver()
        to = max(1, min(left, self.opts.get('final_to', 200) if final else self.opts.get('fpto', 0.7) if heavy else 20))
        s.set('timeout', int((to if heavy else 1) * 1000))
        s.add(*sel)
        r = s.check(*extra)
        if DEBUG:
            sys.stderr.write('sliced heavy=%s n=%d rest=%d -> %s\n' % (heavy, len(sel), len(rest), r))
        if r == z3.unknown and not heavy and self.blast(list(sel) + list(extra), to) == z3.unsat:
            return z3.unsat, None
        if r == z3.unknown and not heavy:
            s.set('timeout', int(to * 1000))
            r = s.check(*extra)
        if r != z3.sat:
            return r, None
        base = self.cur.model
        m = s.model()
        if base is None:
            if final:
                return None
            self.sub = m
            return r, None
        try:
            full = base.__copy__()
            for d in m.decls():
                if d.arity() == 0:
                    full.update_value(d(), m[d])
            return r, full
        except (z3.Z3Exception, AttributeError):
            return r, None

    def blast(self, cs, to):
        try:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'fpa2bv', 'simplify', 'bit-blast', 'sat').solver()
            s.set('timeout', int(max(1, to) * 1000))
            s.add(*cs)
            return s.check()
        except z3.Z3Exception:
            return z3.unknown

    def concrete(self, s, sel, extra, rest, tries):
        """a model of the path and extra, looked for among models of the abstraction s by evaluating the real terms"""
        base = self.cur.model
        ins = [x for x in (self.leaf(i) for i in sorted(set().union(*[self.tinfo(a)[0] for a in list(sel) + list(extra)]))) if x is not None]
        ins = [x for x in ins if isinstance(x, BV) and x.get_id() not in self.defn]
        ae = [self.abstract(e) for e in extra]
        rnd = random.Random(len(self.al))
        for n in range(tries):
            more = []
            if n:
                for x in ins:
                    w = x.size()
                    if w >= 8 and rnd.random() < 0.7:
                        lo = rnd.randrange(w)
                        hi = min(w - 1, lo + rnd.randrange(12))
                        more.append(z3.Extract(hi, lo, x) == rnd.getrandbits(hi - lo + 1))
            s.set('timeout', 1000)
            if s.check(*(ae + more)) != z3.sat:
                continue
            am = s.model()
            try:
                if base is not None:
                    full = base.__copy__()
                else:
                    q = z3.Solver()
                    q.check()
                    full = q.model()
                for x in ins:
                    full.update_value(x, am.eval(x, model_completion=True))
                for a, v in self.al:
                    if v is not None:
                        d = self.defn[v]
                        full.update_value(d[0], full.eval(d[1], model_completion=True))
                if all(z3.is_true(full.eval(e, model_completion=True)) for e in extra) and \
                        all(z3.is_true(full.eval(a, model_completion=True)) for a, v in self.al if v is None):
                    return full
            except (z3.Z3Exception, AttributeError):
                return None
        return None

    def leaf(self, i):
        return self.leafs.get(i)

    def sync(self, st):
        while self.solver.num_scopes() > st.depth:
            self.spop()

    def add(self, st, c):
        self.need(st, c)
        self.spush()
        self.sadd(c)
        st.depth = self.solver.num_scopes()

    def query(self, *extra, want_model=True, final=False):
        self.stats['queries'] += 1
        if extra:
            self.need(self.cur, *extra)
        t = time.time()
        left = self.limit - (t - self.t0)
        if left <= 0:
            raise TimeoutError
        self.solver.set('timeout', int(max(1000, min(left, 300 if final else 20) * 1000)))
        r = self.sliced(extra, left, final) if self.nheavy or any(self.tinfo(e)[1] for e in extra) else None
        if r is not None:
            pass
        elif final:
            r = self.solver_final(extra, left)
        else:
            r = self.solver.check(*extra)
            m = self.solver.model() if r == z3.sat else None
            r = (r, m)
        dt = time.time() - t
        self.stats['solver_s'] += dt
        if DEBUG and dt > 2:
            sys.stderr.write('slow query %.1fs -> %s depth %d: %s\n' % (dt, r[0], self.solver.num_scopes(), str(extra)[:int(os.environ.get("SYMX_W","600"))].replace('\n', ' ')))
        return r

    def solver_final(self, extra, left):
        """assertion queries: short incremental attempt, then a fresh bit-blasting solver"""
        self.solver.set('timeout', int(min(left, 10) * 1000))
        r = self.solver.check(*extra)
        if r != z3.unknown:
            return r, (self.solver.model() if r == z3.sat else None)
        try:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'fpa2bv', 'simplify',
                        'bit-blast', 'sat').solver()
            s.set('timeout', int(max(1, min(left - 10, self.opts.get('final_to', 200))) * 1000))
            s.add(*self.solver.assertions())
            s.add(*extra)
            r = s.check()
            return r, (s.model() if r == z3.sat else None)
        except z3.Z3Exception:
            return z3.unknown, None

    def feasible(self, st, c):
        """True/False/None(unknown)"""
        self.need(st, c)
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        r, m = self.query(c)
        if r == z3.sat:
            st.model = m
            return True
        if r == z3.unsat:
            return False
        return None  # explored although it may be infeasible: only more paths

    def decide(self, st, c):
        """branch on symbolic Bool c: returns 0/1, may raise Fork"""
        c = simp(c)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        k = c.get_id()
        if k in st.conc:
            return st.conc[k][1]
        # keep models: evaluate once
        self.need(st, c)
        nc = z3.Not(c)
        mt = None
        if st.model is not None:
            try:
                mt = z3.is_true(st.model.eval(c, model_completion=True))
            except z3.Z3Exception:
                mt = None
        if mt is None:
            r, m = self.query(c)
            t = r != z3.unsat
            tm = m
            if not t:
                st.conc[k] = (c, 0)
                return 0
            r2, m2 = self.query(nc)
            f = r2 != z3.unsat
            if not f:
                st.model = tm
                st.conc[k] = (c, 1)
                return 1
            raise Fork([(c, (c, 1), tm), (nc, (c, 0), m2)])
        other = nc if mt else c
        r, m = self.query(other)
        if r == z3.unsat:
            st.conc[k] = (c, 1 if mt else 0)
            return 1 if mt else 0
        a = [(c, (c, 1), st.model if mt else m), (nc, (c, 0), m if mt else st.model)]
        raise Fork(a)

    def values(self, st, term, limit):
        """all feasible values of a BV term, or None if more than limit"""
        out = []
        self.need(st, term)
        ne = []
        if st.model is not None:
            v = st.model.eval(term, model_completion=True)
            out.append((v.as_long(), st.model))
            ne.append(term != v)
        while True:
            self.sub = None
            r, m = self.query(*ne, want_model=True) if ne else self.query()
            if r == z3.unsat:
                return out
            if r != z3.sat:
                return None
            v = (self.sub if m is None else m).eval(term, model_completion=True)
            out.append((v.as_long(), m))
            n = len(out)
            if n > limit:
                return None
            ne.append(term != v)

    def concretize(self, st, term, limit=300):
        """int value of term on this path; forks over all feasible values"""
        if type(term) is int:
            return term
        term = simp(term)
        if z3.is_bv_value(term):
            return term.as_long()
        k = term.get_id()
        if k in st.conc:
            return st.conc[k][1]
        vs = self.values(st, term, limit)
        if vs is None:
            raise Unsupported('more than %d values for a size/index: %s' % (limit, str(term)[:80]))
        if len(vs) == 1:
            st.conc[k] = (term, vs[0][0])
            return vs[0][0]
        raise Fork([(term == v, (term, v), m) for v, m in vs])

    # ---- memory
    def resolve(self, st, p, n, write, what):
        if type(p) is int:
            p = (0, p)
        oid, off = p
        if oid == 0 or oid not in st.mem:
            if oid in self.objfn:
                raise Viol('VP_MEM data access to a function')
            raise Viol('VP_MEM null or dangling pointer %s' % what)
        o = st.mem[oid]
        if not o.live:
            raise Viol('VP_MEM use after free %s' % what)
        if type(off) is not int:
            off = self.norm(off)
        if type(off) is int:
            if off >= (1 << 63):
                off -= 1 << 64
            if off < 0 or off + n > len(o.cells):
                raise Viol('VP_MEM out of bounds %s (object %s)' % (what, re.sub(r'\d+$', '', o.name)))
            if write and o.ro:
                raise Viol('VP_MEM write to constant')
            return o, off
        k = off.get_id()
        if k in st.conc:
            return o, st.conc[k][1]
        sz = len(o.cells)
        if sz < n:
            raise Viol('VP_MEM out of bounds %s' % what)
        bad = z3.UGT(off, sz - n)
        r, m = self.query(bad, final=True)
        if r == z3.sat:
            self.report(st, 'VP_MEM out of bounds %s (object %s)' % (what, re.sub(r'\d+$', '', o.name)), m)
            good = z3.Not(bad)
            r2, m2 = self.query(good)
            if r2 == z3.unsat:
                raise PathEnd
            self.add(st, good)
            st.model = m2
        elif r == z3.unknown:
            self.stats['unknown'] += 1
        if write and o.ro:
            raise Viol('VP_MEM write to constant')
        return o, off

    def offs(self, st, off, size, n):
        """candidate concrete offsets for symbolic off"""
        vs = self.values(st, off, 40)
        if vs is not None:
            return [v for v, _ in vs]
        if size - n > 6000:
            raise Unsupported('symbolic index into a large object')
        return list(range(0, size - n + 1))

    def load(self, st, t, p):
        n = self.L.size(t)
        o, off = self.resolve(st, p, n, False, 'read')
        if type(off) is int:
            return self.fromcells(t, o.cells[off:off + n])
        if t[0] == 'ptr':
            return self.load(st, t, (p[0], self.concretize(st, off)))
        if t[0] == 'i' and t[1] == 8 * n:
            a = self.affine(o, off, n)
            if a is not None:
                return self.norm(a)
        cand = self.offs(st, off, len(o.cells), n)
        if not cand:
            raise PathEnd
        if len(cand) == 1:
            return self.fromcells(t, o.cells[cand[0]:cand[0] + n])
        w = n * 8
        acc = None
        # group identical values
        groups = {}
        for c in cand:
            bs = [self.byte(x) for x in o.cells[c:c + n]]
            if all(type(b) is int for b in bs):
                key = int.from_bytes(bytes(bs), 'little')
                val = key
            else:
                bs = [z3.BitVecVal(b, 8) if type(b) is int else b for b in bs]
                val = bs[0] if n == 1 else simp(z3.Concat(*reversed(bs)))
                key = ('t', val.get_id())
            groups.setdefault(key, (val, []))[1].append(c)
        items = sorted(groups.values(), key=lambda x: -len(x[1]))
        for val, cs in items:
            v = z3.BitVecVal(val, w) if type(val) is int else val
            if acc is None:
                acc = v
            else:
                acc = z3.If(z3.Or([off == c for c in cs]) if len(cs) > 1 else off == cs[0], v, acc)
        if t[0] in ('float', 'double'):
            return FB(acc)
        if t[0] != 'i':
            raise Unsupported('symbolic-index load of %r' % (t,))
        if t[1] == 1:
            return z3.Extract(0, 0, acc) == 1
        if acc.size() > t[1]:
            acc = z3.Extract(t[1] - 1, 0, acc)
        return self.norm(acc)

    def affine(self, o, off, n):
        """a table whose entry i is T[0] xor the T[0]^T[2^j] of the bits j of i (checksum tables): a xor of index bits instead of a choice"""
        sz = len(o.cells)
        ent = sz // n
        if not o.ro or ent * n != sz or ent & (ent - 1) or ent < 16 or n not in (1, 2, 4, 8):
            return None
        key = (id(o.cells), n)
        if key not in self.afftab:
            tab = None
            if all(type(c) is int for c in o.cells):
                v = [int.from_bytes(bytes(o.cells[i * n:i * n + n]), 'little') for i in range(ent)]
                k = ent.bit_length() - 1
                d = [v[1 << j] ^ v[0] for j in range(k)]
                x = [v[0]]
                for j in range(k):
                    x += [y ^ d[j] for y in x]
                if x == v:
                    tab = (v[0], d)
            self.afftab[key] = (tab, o.cells)
        tab = self.afftab[key][0]
        if tab is None:
            return None
        s = n.bit_length() - 1
        if s:
            low = simp(z3.Extract(s - 1, 0, off))
            if not (z3.is_bv_value(low) and low.as_long() == 0):
                return None
        w = 8 * n
        acc = z3.BitVecVal(tab[0], w)
        for j, d in enumerate(tab[1]):
            b = simp(z3.Extract(s + j, s + j, off))
            acc = acc ^ (z3.SignExt(w - 1, b) & z3.BitVecVal(d, w))
        return simp(acc)

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner != st.id:
            n = Obj(o.cells[:], st.id, o.name, o.ro)
            n.live = o.live
            st.mem[oid] = n
            return n
        return o

    def store(self, st, t, v, p):
        n = self.L.size(t)
        o, off = self.resolve(st, p, n, True, 'write')
        cells = self.tocells(t, v)
        if type(off) is int:
            self.wobj(st, p[0]).cells[off:off + n] = cells
            return
        if any(type(c) is tuple and isinstance(c[0], str) for c in cells):
            c = self.concretize(st, off)
            self.wobj(st, p[0]).cells[c:c + n] = cells
            return
        cand = self.offs(st, off, len(o.cells), n)
        if not cand:
            raise PathEnd
        o = self.wobj(st, p[0])
        if len(cand) == 1:
            o.cells[cand[0]:cand[0] + n] = cells
            return
        nb = [self.byte(c) for c in cells]
        nb = [z3.BitVecVal(b, 8) if type(b) is int else b for b in nb]
        for c in cand:
            e = off == c
            for i in range(n):
                old = self.byte(o.cells[c + i])
                old = z3.BitVecVal(old, 8) if type(old) is int else old
                o.cells[c + i] = z3.If(e, nb[i], old)

    def cells(self, st, p, n, what='read'):
        """n raw cells at p (concrete offset, forks when symbolic)"""
        if n == 0:
            return []
        o, off = self.resolve(st, p, n, False, what)
        off = self.concretize(st, off)
        return o.cells[off:off + n]

    def setcells(self, st, p, cells, what='write'):
        if not cells:
            return
        o, off = self.resolve(st, p, len(cells), True, what)
        off = self.concretize(st, off)
        self.wobj(st, p[0]).cells[off:off + len(cells)] = cells

    def cstr(self, st, p, maxn=4096):
        """concrete C string at p or None"""
        out = []
        oid, off = p
        o = st.mem.get(oid)
        if o is None:
            raise Viol('VP_MEM bad string pointer')
        off = self.concretize(st, off)
        while len(out) < maxn:
            if off >= len(o.cells):
                raise Viol('VP_MEM unterminated string read')
            b = self.byte(o.cells[off])
            if type(b) is not int:
                return None
            if b == 0:
                break
            out.append(b)
            off += 1
        return bytes(out).decode('latin1')

    # ---- reporting
    def draws_of(self, st, m):
        out = []
        for d in st.draws:
            if type(d) is int:
                out.append(d)
            else:
                v = m.eval(d, model_completion=True)
                out.append(v.as_long())
        return out

    def report(self, st, msg, m):
        if any(v['msg'] == msg for v in self.viol):
            return
        self.viol.append(dict(msg=msg, draws=self.draws_of(st, m),
                              where=[f.fn.name for f in st.frames][-4:]))
        if len(self.viol) >= 6:
            raise StopIteration

    def report_here(self, st, msg):
        if any(v['msg'] == msg for v in self.viol):
            return
        r, m = self.query()
        if r == z3.sat:
            self.report(st, msg, m)
        elif r == z3.unknown:
            self.stats['unknown'] += 1

    # ---- compile
    def compile(self, f):
        slots = {}

        def slot(n):
            if n not in slots:
                slots[n] = len(slots)
            return slots[n]
        n = 0
        f.argslots = []
        for ty, an, bv in f.args:
            if an is None:
                an = '%%%d' % n
            if re.match(r'^%\d+$', an):
                n = int(an[1:]) + 1
            f.argslots.append(slot(an))
        entry = '%%%d' % n
        blocks = [(entry, [])]
        for l in f.body:
            s = l.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m and not l.startswith('  '):
                if len(blocks) == 1 and not blocks[0][1] and blocks[0][0] == entry:
                    blocks.pop()
                blocks.append(('%' + m.group(1), []))
                continue
            blocks[-1][1].append(s)
        bidx = {b[0]: i for i, b in enumerate(blocks)}
        f.blocks = []
        f.pure = []
        f.phity = {}
        f.ham = {}
        for lab, ls in blocks:
            phis, ins = [], []
            f.pure.append(not any(IMPURE.search(s) and not PURECALL.search(s) for s in ls))
            for s in ls:
                p = P(tokenize(s))
                dst = None
                if p.peek()[0] == '%' and p.peek(1) == '=':
                    dst = slot(p.next())
                    p.next()
                op = p.next()
                if op == 'phi':
                    while p.peek() in FASTM:
                        p.next()
                    ty = p.type()
                    inc = {}
                    while True:
                        p.expect('[')
                        v = self.operand(ty, p, slot)
                        p.expect(',')
                        b = bidx[p.next()]
                        p.expect(']')
                        inc[b] = v
                        if not p.accept(','):
                            break
                    phis.append((dst, inc))
                    f.phity[dst] = ty
                else:
                    ins.append(self.insn(op, dst, p, slot, bidx, s))
            f.blocks.append((phis, ins))
        f.nregs = len(slots)
        f.compiled = True

    def operand(self, ty, p, slot):
        """('r',slot) or ('c',value)"""
        x = p.peek()
        if x[0] == '%':
            p.next()
            return (True, slot(x))
        return (False, self.constval(ty, p))

    def insn(self, op, dst, p, slot, bidx, s):
        E = self
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'br':
            if p.accept('label'):
                b = bidx[p.next()]
                return ('br', b)
            p.expect('i1')
            c = self.operand(('i', 1), p, slot)
            p.expect(',')
            p.expect('label')
            a = bidx[p.next()]
            p.expect(',')
            p.expect('label')
            b = bidx[p.next()]
            return ('cbr', c, a, b)
        if op == 'switch':
            ty = p.type()
            v = self.operand(ty, p, slot)
            p.expect(',')
            p.expect('label')
            d = bidx[p.next()]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                c = self.constval(ct, p)
                p.expect(',')
                p.expect('label')
                cases.append((c, bidx[p.next()]))
            return ('switch', v, d, cases, dict(cases))
        if op == 'ret':
            ty = p.type()
            if ty[0] == 'void':
                return ('ret', None)
            return ('ret', self.operand(ty, p, slot))
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'alloca':
            ty = p.type()
            cnt = (False, 1)
            if p.accept(','):
                if p.peek() != 'align':
                    nt = p.type()
                    cnt = self.operand(nt, p, slot)
            sz = self.L.size(ty)
            nm = 'stack%d' % dst

            def alloca(st, fr):
                c = fr.regs[cnt[1]] if cnt[0] else cnt[1]
                if type(c) is not int:
                    c = E.concretize(st, c)
                oid = E.nobj
                E.nobj += 1
                st.mem[oid] = Obj([None] * (sz * c), st.id, nm)
                fr.allocas.append(oid)
                fr.regs[dst] = (oid, 0)
            return alloca
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            p.expect(',')
            p.type()
            a = self.operand(('ptr',), p, slot)
            ar, av = a

            def load(st, fr):
                fr.regs[dst] = E.load(st, ty, fr.regs[av] if ar else av)
            return load
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            vr, vv = self.operand(ty, p, slot)
            p.expect(',')
            p.type()
            ar, av = self.operand(('ptr',), p, slot)

            def store(st, fr):
                r = fr.regs
                E.store(st, ty, r[vv] if vr else vv, r[av] if ar else av)
            return store
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type()
            p.expect(',')
            p.type()
            br, bv = self.operand(('ptr',), p, slot)
            koff = 0
            var = []
            first = True
            while p.accept(','):
                it = p.type()
                isr, v = self.operand(it, p, slot)
                if first:
                    sc = self.L.size(t)
                    first = False
                else:
                    b = self.L.st(t)
                    if b[0] == 'arr':
                        sc = self.L.size(b[2])
                        t = b[2]
                    else:
                        koff += self.L.fields(t)[0][v]
                        t = b[1][v]
                        continue
                if isr:
                    var.append((v, sc, it[1]))
                else:
                    if v >= 1 << (it[1] - 1):
                        v -= 1 << it[1]
                    koff += v * sc

            if not var:
                def gep0(st, fr):
                    b = fr.regs[bv] if br else bv
                    o = b[1]
                    fr.regs[dst] = (b[0], o + koff)
                return gep0

            def gep(st, fr):
                r = fr.regs
                b = r[bv] if br else bv
                o = b[1]
                if type(o) is int:
                    o += koff
                elif koff:
                    o = o + koff
                for sl, sc, w in var:
                    x = r[sl]
                    if type(x) is int:
                        if x >= 1 << (w - 1):
                            x -= 1 << w
                        if type(o) is int:
                            o += x * sc
                        else:
                            o = o + x * sc
                    else:
                        if w < 64:
                            x = z3.SignExt(64 - w, x)
                        if sc != 1:
                            x = x * sc
                        o = x + (o if type(o) is not int else z3.BitVecVal(o, 64))
                r[dst] = (b[0], o)
            return gep
        if op in BINOPS:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            ty = p.type()
            ar, av = self.operand(ty, p, slot)
            p.expect(',')
            cr, cv = self.operand(ty, p, slot)
            w = ty[1]
            fn = BINOPS[op]
            M = (1 << w) - 1
            if op in ('add', 'sub', 'and', 'or', 'xor', 'mul'):
                ops = {'add': lambda a, b: (a + b) & M, 'sub': lambda a, b: (a - b) & M, 'mul': lambda a, b: (a * b) & M,
                       'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[op]

                def bin1(st, fr):
                    r = fr.regs
                    a = r[av] if ar else av
                    b = r[cv] if cr else cv
                    if type(a) is int and type(b) is int:
                        r[dst] = ops(a, b)
                    else:
                        r[dst] = fn(E, st, a, b, w)
                return bin1

            def bin2(st, fr):
                r = fr.regs
                r[dst] = fn(E, st, r[av] if ar else av, r[cv] if cr else cv, w)
            return bin2
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            while p.peek() in FASTM:
                p.next()
            ty = p.type()
            ar, av = self.operand(ty, p, slot)
            if op == 'fneg':
                cr, cv = False, 0.0
            else:
                p.expect(',')
                cr, cv = self.operand(ty, p, slot)

            def fop(st, fr):
                r = fr.regs
                r[dst] = E.fbin(op, ty, r[av] if ar else av, r[cv] if cr else cv)
            return fop
        if op == 'icmp':
            pred = p.next()
            if pred == 'samesign':
                pred = p.next()
            ty = p.type()
            ar, av = self.operand(ty, p, slot)
            p.expect(',')
            cr, cv = self.operand(ty, p, slot)

            def icmp(st, fr):
                r = fr.regs
                r[dst] = E.icmp(pred, ty, r[av] if ar else av, r[cv] if cr else cv)
            return icmp
        if op == 'fcmp':
            while p.peek() in FASTM:
                p.next()
            pred = p.next()
            ty = p.type()
            ar, av = self.operand(ty, p, slot)
            p.expect(',')
            cr, cv = self.operand(ty, p, slot)

            def fcmp(st, fr):
                r = fr.regs
                r[dst] = E.fcmp(pred, ty, r[av] if ar else av, r[cv] if cr else cv)
            return fcmp
        if op in ('zext', 'sext', 'trunc', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'bitcast',
                  'ptrtoint', 'inttoptr'):
            while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FASTM:
                p.next()
            ty = p.type()
            ar, av = self.operand(ty, p, slot)
            p.expect('to')
            tt = p.type()

            def cast(st, fr):
                r = fr.regs
                r[dst] = E.cast(op, ty, tt, r[av] if ar else av)
            return cast
        if op == 'freeze':
            ty = p.type()
            ar, av = self.operand(ty, p, slot)

            def freeze(st, fr):
                fr.regs[dst] = fr.regs[av] if ar else av
            return freeze
        if op == 'select':
            while p.peek() in FASTM:
                p.next()
            p.type()
            cr, cv = self.operand(('i', 1), p, slot)
            p.expect(',')
            ty = p.type()
            ar, av = self.operand(ty, p, slot)
            p.expect(',')
            p.type()
            br, bv = self.operand(ty, p, slot)

            def select(st, fr):
                r = fr.regs
                c = r[cv] if cr else cv
                a = r[av] if ar else av
                b = r[bv] if br else bv
                if type(c) is not int:
                    if a is b:
                        r[dst] = a
                        return
                    if type(a) is tuple or type(b) is tuple or type(a) is list:
                        if a == b:
                            r[dst] = a
                            return
                        c = E.decide(st, c)
                    else:
                        r[dst] = E.ite(c, ty, a, b)
                        return
                r[dst] = a if c else b
            return select
        if op == 'extractvalue':
            ty = p.type()
            ar, av = self.operand(ty, p, slot)
            path = []
            while p.accept(','):
                path.append(int(p.next()))

            def ev(st, fr):
                v = fr.regs[av] if ar else av
                for k in path:
                    v = v[k]
                fr.regs[dst] = v
            return ev
        if op == 'insertvalue':
            ty = p.type()
            ar, av = self.operand(ty, p, slot)
            p.expect(',')
            vt = p.type()
            vr, vv = self.operand(vt, p, slot)
            path = []
            while p.accept(','):
                path.append(int(p.next()))

            def iv(st, fr):
                def ins(a, path, v):
                    a = list(a)
                    if len(path) == 1:
                        a[path[0]] = v
                    else:
                        a[path[0]] = ins(a[path[0]], path[1:], v)
                    return a
                fr.regs[dst] = ins(fr.regs[av] if ar else av, path, fr.regs[vv] if vr else vv)
            return iv
        if op in ('call', 'invoke'):
            return self.callinsn(dst, p, slot)
        if op == 'fence':
            return lambda st, fr: None
        if op == 'atomicrmw':
            p.accept('volatile')
            k = p.next()
            p.type()
            ar, av = self.operand(('ptr',), p, slot)
            p.expect(',')
            ty = p.type()
            vr, vv = self.operand(ty, p, slot)

            def armw(st, fr):
                a = fr.regs[av] if ar else av
                v = fr.regs[vv] if vr else vv
                old = E.load(st, ty, a)
                if k == 'xchg':
                    new = v
                else:
                    new = BINOPS[k](E, st, old, v, ty[1])
                E.store(st, ty, new, a)
                fr.regs[dst] = old
            return armw
        if op == 'cmpxchg':
            p.accept('weak')
            p.accept('volatile')
            p.type()
            ar, av = self.operand(('ptr',), p, slot)
            p.expect(',')
            ty = p.type()
            cr, cv = self.operand(ty, p, slot)
            p.expect(',')
            p.type()
            nr, nv = self.operand(ty, p, slot)

            def cx(st, fr):
                a = fr.regs[av] if ar else av
                old = E.load(st, ty, a)
                c = E.icmp('eq', ty, old, fr.regs[cv] if cr else cv)
                if type(c) is not int:
                    c = E.decide(st, c)
                if c:
                    E.store(st, ty, fr.regs[nv] if nr else nv, a)
                fr.regs[dst] = [old, c]
            return cx
        raise Unsupported('insn: ' + s)

    def callinsn(self, dst, p, slot):
        while p.peek() in FASTM or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        skip_attrs(p)
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        callee = p.next()
        if callee == 'asm':
            raise Unsupported('inline asm')
        p.expect('(')
        args = []
        while not p.accept(')'):
            ty = p.type()
            if ty[0] == 'metadata':
                return lambda st, fr: None
            skip_attrs(p)
            args.append((ty,) + self.operand(ty, p, slot))
            p.accept(',')
        if callee[0] == '@':
            callee = self.aliases.get(callee, callee)
            n = callee[1:].strip('"')
            if n.startswith('llvm.'):
                k = n.split('.')
                if k[1] in ('lifetime', 'dbg', 'assume', 'prefetch', 'invariant', 'stackrestore', 'va_end') or n.startswith('llvm.experimental.noalias'):
                    return lambda st, fr: None
                h = INTRIN.get(k[1])
                if h is None:
                    raise Unsupported('intrinsic ' + n)

                def intr(st, fr):
                    r = fr.regs
                    v = h(self, st, fr, k, rt, args, [r[x] if isr else x for _, isr, x in args])
                    if dst is not None:
                        r[dst] = v
                return intr
            f = self.fns.get(callee)
            hk = EXTERN.get(n)
            if hk is not None and (f is None or f.body is None):
                def ext(st, fr):
                    r = fr.regs
                    v = hk(self, st, fr, rt, args, [r[x] if isr else x for _, isr, x in args])
                    if dst is not None:
                        r[dst] = v
                return ext
            if f is None or f.body is None:
                def miss(st, fr):
                    raise Unsupported('call of external ' + n)
                return miss
            return ('call', f, dst, args, None)
        cs = slot(callee)
        return ('call', None, dst, args, cs)

    # ---- ops
    def bv(self, v, w):
        if type(v) is int:
            return z3.BitVecVal(v, w)
        if isinstance(v, BO):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if type(v) is tuple:
            a = self.addr(v)
            return z3.BitVecVal(a, w) if type(a) is int else a
        return v

    def bo(self, v):
        if type(v) is int:
            return z3.BoolVal(bool(v))
        return v

    def tofp(self, v, ty):
        s = F64 if ty[0] == 'double' else F32
        if type(v) is float:
            return z3.FPVal(v, s)
        if isinstance(v, FB):
            return self.bits2fp(v.b, s)
        return v

    def bits2fp(self, b, s):
        """float with the given bits; sees through stored floats and choices between them"""
        def up(x, d):
            if z3.is_bv_value(x):
                r = z3.simplify(z3.fpBVToFP(x, s))
                return None if r.isNaN() else r
            if x.decl().name() == 'fp.to_ieee_bv' and x.arg(0).sort() == s:
                return x.arg(0)
            if d and z3.is_app_of(x, z3.Z3_OP_ITE):
                p, q = up(x.arg(1), d - 1), up(x.arg(2), d - 1)
                if p is not None and q is not None:
                    t = z3.If(x.arg(0), p, q)
                    self.keep.append(t)
                    return t
            return None
        k = (b.get_id(), s == F64)
        if k not in self.b2f:
            r = up(b, 6)
            if r is None:
                r = z3.fpBVToFP(b, s)
            self.b2f[k] = r
            self.keep.append(r)
            self.keep.append(b)
        return self.b2f[k]

    def bittest(self, c):
        """c is 'x == 0' / 'x == 1' on a one-bit term: (x, polarity)"""
        pol = True
        if z3.is_not(c):
            pol = False
            c = c.arg(0)
        if not z3.is_eq(c):
            return None
        x, y = c.arg(0), c.arg(1)
        if not isinstance(x, BV) or x.size() != 1:
            return None
        if z3.is_bv_value(x):
            x, y = y, x
        if not z3.is_bv_value(y):
            return None
        return x, (y.as_long() == 1) == pol

    def ite(self, c, ty, a, b):
        if ty[0] == 'i':
            if ty[1] == 1:
                if type(a) is int and type(b) is int and a == 1 and b == 0:
                    return c
                return self.norm(z3.If(c, self.bo(a), self.bo(b)))
            w = ty[1]
            if type(a) is int and type(b) is int and (a == 0 or b == 0) and a != b:
                # bit test selecting 0 or 2^k: place the bit
                k = a or b
                if k & (k - 1) == 0:
                    k = k.bit_length() - 1
                    t = self.bittest(c)
                    if t is not None:
                        bit, pol = t
                        if pol != (a != 0):
                            bit = ~bit
                        ps = ([z3.BitVecVal(0, w - 1 - k)] if k < w - 1 else []) + [bit] + ([z3.BitVecVal(0, k)] if k else [])
                        return self.norm(z3.Concat(*ps) if len(ps) > 1 else ps[0])
            return self.norm(z3.If(c, self.bv(a, w), self.bv(b, w)))
        if ty[0] in ('float', 'double'):
            if isinstance(a, FB) or isinstance(b, FB):
                return FB(z3.If(c, self.fbits(a, ty), self.fbits(b, ty)))
            return z3.If(c, self.tofp(a, ty), self.tofp(b, ty))
        raise Unsupported('ite %r' % (ty,))

    def fbits(self, v, ty):
        n = 64 if ty[0] == 'double' else 32
        if type(v) is float:
            b = struct.pack('<d', v) if n == 64 else self.packf(v)
            return z3.BitVecVal(int.from_bytes(b, 'little'), n)
        if isinstance(v, FB):
            return v.b
        return z3.fpToIEEEBV(v)

    def fbin(self, op, ty, a, b):
        if type(a) is float and type(b) is float:
            try:
                if op == 'fadd':
                    v = a + b
                elif op == 'fsub':
                    v = a - b
                elif op == 'fmul':
                    v = a * b
                elif op == 'fneg':
                    v = -a
                elif op == 'frem':
                    v = math.fmod(a, b)
                else:
                    if b == 0.0:
                        v = math.nan if (a == 0 or a != a) else math.copysign(math.inf, a) * math.copysign(1.0, b)
                    else:
                        v = a / b
            except (OverflowError, ValueError):
                v = math.nan
            return f32(v) if ty[0] == 'float' else v
        x = self.tofp(a, ty)
        if op == 'fneg':
            return z3.fpNeg(x)
        y = self.tofp(b, ty)
        if op == 'fsub':
            # IEEE: x - y is x + (-y)
            if type(b) is float:
                y = self.tofp(-b, ty)
            elif z3.is_app_of(y, z3.Z3_OP_FPA_NEG):
                y = y.arg(0)
            else:
                y = z3.fpNeg(y)
            op = 'fadd'
        if op in ('fadd', 'fmul'):
            if op == 'fmul' and type(b) is float and b == 1.0:
                return a
            if op == 'fmul' and type(a) is float and a == 1.0:
                return b
            # commutative: one argument order
            if x.get_id() > y.get_id():
                x, y = y, x
            t = z3.fpAdd(RNE, x, y) if op == 'fadd' else z3.fpMul(RNE, x, y)
        elif op == 'fdiv':
            t = z3.fpDiv(RNE, x, y)
        else:
            raise Unsupported('symbolic ' + op)
        self.keep.append(t)
        return t

    def fbound(self, t):
        """upper bound on |t|, or None when t may be infinite or NaN"""
        r = self.frange(t)
        return None if r is None else max(abs(r[0]), abs(r[1]))

    def frange(self, t):
        """an interval that holds every value of t (widened for rounding), or None when t may be infinite or NaN"""
        k = t.get_id()
        if k in self.fb:
            return self.fb[k]
        r = None
        d = t.decl().kind()

        def bvr(x, signed):
            n = x.size()
            if z3.is_app_of(x, z3.Z3_OP_CONCAT) and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
                return 0.0, 2.0 ** (n - x.arg(0).size())
            return (-2.0 ** (n - 1), 2.0 ** (n - 1)) if signed else (0.0, 2.0 ** n)
        if z3.is_fp_value(t):
            r = None if t.isNaN() or t.isInf() else (fpnum(t), fpnum(t))
        elif d == z3.Z3_OP_FPA_TO_FP and t.num_args() == 2 and isinstance(t.arg(1), BV):
            r = bvr(t.arg(1), True)
        elif d == z3.Z3_OP_FPA_TO_FP_UNSIGNED:
            r = bvr(t.arg(1), False)
        elif d == z3.Z3_OP_FPA_TO_FP and t.num_args() == 2 and isinstance(t.arg(1), FPR):
            r = self.frange(t.arg(1))
        elif d == z3.Z3_OP_FPA_NEG:
            r = self.frange(t.arg(0))
            r = (-r[1], -r[0]) if r is not None else None
        elif d == z3.Z3_OP_FPA_ABS:
            r = self.frange(t.arg(0))
            r = (0.0, max(abs(r[0]), abs(r[1]))) if r is not None else None
        elif d in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV):
            a, b = self.frange(t.arg(1)), self.frange(t.arg(2))
            if a is not None and b is not None:
                if d == z3.Z3_OP_FPA_ADD:
                    r = (a[0] + b[0], a[1] + b[1])
                elif d == z3.Z3_OP_FPA_SUB:
                    r = (a[0] - b[1], a[1] - b[0])
                elif d == z3.Z3_OP_FPA_MUL or b[0] > 1e-100 or b[1] < -1e-100:
                    c = [x * y if d == z3.Z3_OP_FPA_MUL else x / y for x in a for y in b]
                    r = (min(c), max(c))
        elif d == z3.Z3_OP_ITE:
            a, b = self.frange(t.arg(1)), self.frange(t.arg(2))
            if a is not None and b is not None:
                r = (min(a[0], b[0]), max(a[1], b[1]))
        elif d == z3.Z3_OP_FPA_ROUND_TO_INTEGRAL:
            a = self.frange(t.arg(1))
            r = (a[0] - 1, a[1] + 1) if a is not None else None
        if r is not None and not z3.is_fp_value(t):
            w = 1e-3 * max(abs(r[0]), abs(r[1]), 1e-37) if t.sort() == F32 else 1e-9 * max(abs(r[0]), abs(r[1]), 1e-280)
            r = (r[0] - w, r[1] + w)
        if r is not None and not max(abs(r[0]), abs(r[1])) <= (1e37 if t.sort() == F32 else 1e300):
            r = None
        self.fb[k] = r
        self.keep.append(t)
        return r

    def asfix(self, x, depth=0):
        """(bit vector v, s) when the float term x is exactly v * 2**-s for every value of its inputs, else None"""
        k = x.get_id()
        if k in self.fx:
            return self.fx[k]
        lim = 53 if x.sort() == F64 else 24 if x.sort() == F32 else 0
        r = self.asfix1(x, lim, depth) if lim and depth < 60 else None
        if r is not None and (r[0].size() > lim + 1 or abs(r[1]) > (300 if lim == 53 else 60)):
            r = None
        self.fx[k] = r
        self.keep.append(x)
        return r

    def asfix1(self, x, lim, depth):
        d = x.decl().kind()

        def dy(t):
            f = fpnum(t)
            if f != f or abs(f) == math.inf:
                return None
            m, q = f.as_integer_ratio()
            s = q.bit_length() - 1
            if m == 0:
                return 0, 0
            while m % 2 == 0:
                m //= 2
                s -= 1
            return m, s
        if z3.is_fp_value(x):
            c = dy(x) if not x.isNaN() and not x.isInf() else None
            if c is None:
                return None
            m, s = c
            if s < 0 and s > -60:
                m, s = m << -s, 0
            return z3.BitVecVal(m, max(m.bit_length() + 1, 2)), s
        n = x.num_args()
        if d == z3.Z3_OP_FPA_TO_FP and n == 2 and isinstance(x.arg(1), BV):
            v = x.arg(1)
            if z3.is_app_of(v, z3.Z3_OP_CONCAT) and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0 and v.arg(0).size() > 1:
                v = z3.ZeroExt(1, z3.Concat(*v.children()[1:]) if v.num_args() > 2 else v.arg(1))
            return v, 0
        if d == z3.Z3_OP_FPA_TO_FP and n == 2 and isinstance(x.arg(1), FPR):
            return self.asfix(x.arg(1), depth + 1)
        if d == z3.Z3_OP_FPA_NEG:
            a = self.asfix(x.arg(0), depth + 1)
            return None if a is None else (simp(-z3.SignExt(1, a[0])), a[1])
        if d == z3.Z3_OP_FPA_ABS:
            a = self.asfix(x.arg(0), depth + 1)
            if a is None:
                return None
            v = z3.SignExt(1, a[0])
            return simp(z3.If(v < 0, -v, v)), a[1]
        if d in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB):
            a, b = self.asfix(x.arg(1), depth + 1), self.asfix(x.arg(2), depth + 1)
            if a is None or b is None:
                return None
            p, q, s = self.fixalign(a, b, 1)
            if p.size() > lim + 1:
                return None
            return simp(p + q if d == z3.Z3_OP_FPA_ADD else p - q), s
        if d == z3.Z3_OP_FPA_MUL:
            for i, j in ((1, 2), (2, 1)):
                if z3.is_fp_value(x.arg(i)) and not x.arg(i).isNaN() and not x.arg(i).isInf():
                    m, t = dy(x.arg(i))
                    a = self.asfix(x.arg(j), depth + 1)
                    if a is None:
                        return None
                    if m in (1, -1):
                        v = a[0] if m == 1 else -z3.SignExt(1, a[0])
                        return simp(v), a[1] + t
                    w = a[0].size() + m.bit_length()
                    if w > lim + 1:
                        return None
                    return simp(z3.SignExt(w - a[0].size(), a[0]) * z3.BitVecVal(m, w)), a[1] + t
            return None
        if d == z3.Z3_OP_FPA_DIV and z3.is_fp_value(x.arg(2)) and not x.arg(2).isNaN() and not x.arg(2).isInf():
            m, t = dy(x.arg(2))
            a = self.asfix(x.arg(1), depth + 1)
            if a is None or m not in (1, -1):
                return None
            return simp(a[0] if m == 1 else -z3.SignExt(1, a[0])), a[1] - t
        if d == z3.Z3_OP_ITE:
            a, b = self.asfix(x.arg(1), depth + 1), self.asfix(x.arg(2), depth + 1)
            if a is None or b is None:
                return None
            p, q, s = self.fixalign(a, b, 0)
            return simp(z3.If(x.arg(0), p, q)), s
        if d == z3.Z3_OP_FPA_ROUND_TO_INTEGRAL:
            a = self.asfix(x.arg(1), depth + 1)
            if a is None:
                return None
            return self.fixround(a, x.arg(0).decl().kind())
        return None

    def fixalign(self, a, b, extra):
        s = max(a[1], b[1])
        w = max(a[0].size() + s - a[1], b[0].size() + s - b[1]) + extra
        return tuple(z3.SignExt(w - v.size(), v) << (s - t) if s > t else z3.SignExt(w - v.size(), v) for v, t in (a, b)) + (s,)

    def fixround(self, a, mode):
        v, s = a
        if s <= 0:
            return a
        if s > 200:
            return None
        w = v.size()
        if s >= w:
            v = z3.SignExt(s + 1 - w, v)
        v = simp(z3.SignExt(2, v))
        w = v.size()
        pos = z3.is_app_of(v, z3.Z3_OP_CONCAT) and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0 and v.arg(0).size() > 2
        K = z3
        if mode == K.Z3_OP_FPA_RM_TOWARD_NEGATIVE:
            r = v >> s
        elif mode == K.Z3_OP_FPA_RM_TOWARD_POSITIVE:
            r = -((-v) >> s)
        elif mode == K.Z3_OP_FPA_RM_TOWARD_ZERO:
            r = (v >> s) if pos else (v + ((v >> (w - 1)) & z3.BitVecVal((1 << s) - 1, w))) >> s
        elif mode == K.Z3_OP_FPA_RM_NEAREST_TIES_TO_AWAY:
            h = z3.BitVecVal(1 << (s - 1), w)
            r = (v + h) >> s if pos else (v + h + (v >> (w - 1))) >> s
            if pos:
                r = z3.ZeroExt(s, z3.Extract(w - 1, s, v + h))
        else:
            return None
        return simp(z3.Extract(max(w - s, 1), 0, r)), 0

    def asint(self, x):
        """the bit vector whose exact signed value the float term x is, or None"""
        r = self.asfix(x)
        return r[0] if r is not None and r[1] == 0 else None

    def hasfpeq(self, c):
        if z3.is_app_of(c, z3.Z3_OP_FPA_EQ):
            return True
        return (z3.is_or(c) or z3.is_and(c) or z3.is_app_of(c, z3.Z3_OP_ITE)) and any(self.hasfpeq(x) for x in c.children())

    def prove(self, c):
        """assertions that contain float equalities: case split, then congruence; False means not decided here"""
        if z3.is_app_of(c, z3.Z3_OP_FPA_EQ):
            return self.fbound(c.arg(0)) is not None and self.cong(c.arg(0), c.arg(1))
        if z3.is_and(c):
            return all(self.prove(x) for x in c.children())
        if z3.is_or(c) and self.hasfpeq(c):
            ds = c.children()
            eqs = [d for d in ds if self.hasfpeq(d)]
            self.spush()
            try:
                for d in ds:
                    if not self.hasfpeq(d):
                        self.sadd(z3.Not(d))
                return any(self.prove(d) for d in eqs)
            finally:
                self.spop()
        if z3.is_app_of(c, z3.Z3_OP_ITE) and self.hasfpeq(c):
            for k, x in ((c.arg(0), c.arg(1)), (z3.Not(c.arg(0)), c.arg(2))):
                self.spush()
                try:
                    self.sadd(k)
                    if not self.prove(x):
                        return False
                finally:
                    self.spop()
            return True
        return self.query(z3.Not(c))[0] == z3.unsat

    def cong(self, a, b, depth=0):
        """True when a and b are proved equal on the current path by congruence, proving integer arguments equal separately"""
        if a.eq(b):
            return True
        if depth > 40 or a.sort() != b.sort():
            return False
        for p, q in ((a, b), (b, a)):
            if z3.is_app_of(p, z3.Z3_OP_ITE):
                c = p.arg(0)
                if self.query(z3.Not(c))[0] == z3.unsat:
                    return self.cong(p.arg(1), q, depth + 1)
                if self.query(c)[0] == z3.unsat:
                    return self.cong(p.arg(2), q, depth + 1)
                if isinstance(a, FPR):
                    for k, x in ((c, p.arg(1)), (z3.Not(c), p.arg(2))):
                        self.spush()
                        try:
                            self.sadd(k)
                            if not self.cong(x, q, depth + 1):
                                return False
                        finally:
                            self.spop()
                    return True
        if isinstance(a, BV):
            return self.query(a != b)[0] == z3.unsat
        if not isinstance(a, FPR) or a.num_args() != b.num_args() or a.num_args() == 0 or not a.decl().eq(b.decl()):
            if isinstance(a, BO):
                return self.query(a != b)[0] == z3.unsat
            if isinstance(a, FPR) and a.num_args() == 2 and b.num_args() == 2 and a.decl().kind() == b.decl().kind() == z3.Z3_OP_FPA_TO_FP \
                    and isinstance(a.arg(1), BV) and isinstance(b.arg(1), BV):
                w = max(a.arg(1).size(), b.arg(1).size())
                x, y = z3.SignExt(w - a.arg(1).size(), a.arg(1)), z3.SignExt(w - b.arg(1).size(), b.arg(1))
                return self.query(x != y)[0] == z3.unsat
            i, j = (self.asfix(a), self.asfix(b)) if isinstance(a, FPR) else (None, None)
            if i is not None and j is not None and abs(i[1] - j[1]) < 200:
                i, j, _ = self.fixalign(i, j, 0)
                return self.query(i != j)[0] == z3.unsat
            return False
        ch = [(a.arg(i), b.arg(i)) for i in range(a.num_args())]
        if all(self.cong(x, y, depth + 1) for x, y in ch):
            return True
        if a.decl().kind() in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_MUL):
            return self.cong(a.arg(1), b.arg(2), depth + 1) and self.cong(a.arg(2), b.arg(1), depth + 1)
        return False

    def intfp(self, v, signed, s):
        """integer to float, the same term for the same value whatever the width of the integer"""
        v = simp(v)
        while not signed or True:
            if not z3.is_app_of(v, z3.Z3_OP_CONCAT):
                break
            a = v.arg(0)
            if z3.is_bv_value(a) and a.as_long() == 0:
                rest = [v.arg(i) for i in range(1, v.num_args())]
                v = z3.Concat(*rest) if len(rest) > 1 else rest[0]
                signed = False
                continue
            if signed and v.num_args() >= 2 and a.size() == 1:
                n = 0
                while n + 1 < v.num_args() and v.arg(n + 1).eq(a):
                    n += 1
                nx = v.arg(n + 1) if n + 1 < v.num_args() else None
                if nx is not None and z3.is_app_of(a, z3.Z3_OP_EXTRACT) and z3.is_app_of(nx, z3.Z3_OP_EXTRACT) and \
                        nx.arg(0).eq(a.arg(0)) and nx.params()[0] == a.params()[0]:
                    n += 1
                elif nx is not None and z3.is_app_of(a, z3.Z3_OP_EXTRACT) and a.arg(0).eq(nx) and a.params()[0] == nx.size() - 1:
                    n += 1
                if n == 0:
                    break
                rest = [v.arg(i) for i in range(n, v.num_args())]
                v = z3.Concat(*rest) if len(rest) > 1 else rest[0]
                v = simp(v)
                break
            break
        if not signed:
            v = z3.Concat(z3.BitVecVal(0, 1), v)
        t = z3.fpSignedToFP(RNE, v, s)
        self.keep.append(t)
        return t

    def icmp(self, pred, ty, a, b):
        if type(a) is tuple or type(b) is tuple:
            if type(a) is int:
                a = (0, a)
            if type(b) is int:
                b = (0, b)
            if type(a) is tuple and type(b) is tuple:
                if a[0] == b[0]:
                    a, b = a[1], b[1]
                    if type(a) is int:
                        a &= (1 << 64) - 1
                    if type(b) is int:
                        b &= (1 << 64) - 1
                else:
                    if pred == 'eq':
                        return 0
                    if pred == 'ne':
                        return 1
                    a, b = self.addr(a), self.addr(b)
            else:
                a, b = self.bv(a, 64), self.bv(b, 64)
            w = 64
        else:
            w = ty[1] if ty[0] == 'i' else 64
        if type(a) is int and type(b) is int:
            if pred[0] == 's':
                h = 1 << (w - 1)
                a, b = (a ^ h), (b ^ h)
            return 1 if CMP[pred](a, b) else 0
        if w == 1 and (isinstance(a, BO) or isinstance(b, BO)):
            x, y = self.bo(a), self.bo(b)
            if pred == 'eq':
                if type(b) is int:
                    return a if b else z3.Not(a)
                return x == y
            if pred == 'ne':
                if type(b) is int:
                    return z3.Not(a) if b else a
                return x != y
            if pred == 'ult':
                return z3.And(z3.Not(x), y)
            if pred == 'ugt':
                return z3.And(x, z3.Not(y))
            raise Unsupported('icmp i1 ' + pred)
        x, y = self.bv(a, w), self.bv(b, w)
        return self.norm(ZCMP[pred](x, y))

    def haschoice(self, p, q, depth):
        if p.eq(q):
            return True
        return depth > 0 and z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE and (self.haschoice(p.arg(1), q, depth - 1) or self.haschoice(p.arg(2), q, depth - 1))

    def fcmp(self, pred, ty, a, b, depth=0):
        if type(a) is float and type(b) is float:
            un = a != a or b != b
            k = pred[1:]
            if pred == 'ord':
                return 0 if un else 1
            if pred == 'uno':
                return 1 if un else 0
            if pred in ('true', 'false'):
                return 1 if pred == 'true' else 0
            if un:
                return 1 if pred[0] == 'u' else 0
            return 1 if {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[k] else 0
        x, y = self.tofp(a, ty), self.tofp(b, ty)
        i, j = self.asfix(x), self.asfix(y)
        if i is not None and j is not None and abs(i[1] - j[1]) < 200:  # exact fixed point values compare as integers
            i, j, _ = self.fixalign(i, j, 0)
            k = pred[1:]
            if pred in ('ord', 'true'):
                return 1
            if pred in ('uno', 'false'):
                return 0
            return self.norm({'eq': i == j, 'ne': i != j, 'gt': i > j, 'ge': i >= j, 'lt': i < j, 'le': i <= j}[k])
        if pred[1:] in ('eq', 'ne') and depth < 8:  # a choice between values one of which is the other operand
            for p, q in ((x, y), (y, x)):
                if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE and self.haschoice(p, q, 8):
                    c, u, v = p.children()
                    u, v = self.fcmp(pred, ty, u, q, depth + 1), self.fcmp(pred, ty, v, q, depth + 1)
                    return self.norm(z3.If(c, self.bo(u), self.bo(v)))
        same = x.eq(y)
        if self.fbound(x) is not None and self.fbound(y) is not None:
            if pred in ('ord', 'true'):
                return 1
            if pred in ('uno', 'false'):
                return 0
            if same:
                return 1 if pred[1:] in ('eq', 'ge', 'le') else 0
            pred = 'o' + pred[1:] if pred[1:] != 'ne' else 'une'
        un = z3.fpIsNaN(x) if same else z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if same and pred not in ('ord', 'uno', 'true', 'false'):
            eq = pred[1:] in ('eq', 'ge', 'le')
            if pred[0] == 'u':
                return 1 if eq else un
            return z3.Not(un) if eq else 0
        if pred == 'ord':
            return z3.Not(un)
        if pred == 'uno':
            return un
        k = pred[1:]
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if k == 'ne':
            e = z3.Not(z3.fpEQ(x, y))  # true on unordered
            if pred == 'one':
                e = z3.And(e, z3.Not(un))
            return self.norm(e)
        e = base[k](x, y)
        if pred[0] == 'u':
            e = z3.Or(e, un)
        return self.norm(e)

    def cast(self, op, ty, tt, v):
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr':
                return v if type(v) is tuple else (0, v) if type(v) is int and v < (1 << 20) else (v >> 20, v & 0xfffff) if type(v) is int else self.unsup('inttoptr')
            if tt[1] < 64:
                return self.cast('trunc', ('i', 64), tt, self.addr(v))
            return v
        if type(v) is int:
            if op in ('zext',):
                return v
            if op == 'trunc':
                return v & ((1 << tt[1]) - 1)
            if op == 'sext':
                w = ty[1]
                if v >> (w - 1):
                    v |= ((1 << tt[1]) - 1) ^ ((1 << w) - 1)
                return v
            if op == 'uitofp':
                return f32(float(v)) if tt[0] == 'float' else float(v)
            if op == 'sitofp':
                w = ty[1]
                if v >> (w - 1):
                    v -= 1 << w
                return f32(float(v)) if tt[0] == 'float' else float(v)
            if op == 'bitcast':
                if tt[0] == 'double':
                    return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
                if tt[0] == 'float':
                    return struct.unpack('<f', v.to_bytes(4, 'little'))[0]
                return v
        if type(v) is float:
            if op == 'fpext':
                return v
            if op == 'fptrunc':
                return f32(v)
            if op in ('fptosi', 'fptoui'):
                if v != v or abs(v) == math.inf:
                    return (1 << (tt[1] - 1))
                x = int(v)
                return x & ((1 << tt[1]) - 1)
            if op == 'bitcast':
                if ty[0] == 'double':
                    return int.from_bytes(struct.pack('<d', v), 'little')
                return int.from_bytes(self.packf(v), 'little')
        if type(v) is tuple:
            if op == 'bitcast':
                return v
            if op == 'trunc':
                a = self.addr(v)
                return self.cast(op, ty, tt, a)
        if isinstance(v, BO):
            w = tt[1] if tt[0] == 'i' else 0
            if op == 'zext':
                return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            if op == 'sext':
                return z3.If(v, z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
            if op in ('uitofp', 'sitofp'):
                s = F64 if tt[0] == 'double' else F32
                return z3.If(v, z3.FPVal(1.0 if op == 'uitofp' else -1.0, s), z3.FPVal(0.0, s))
        if isinstance(v, BV):
            if op == 'zext':
                return z3.ZeroExt(tt[1] - ty[1], v)
            if op == 'sext':
                return z3.SignExt(tt[1] - ty[1], v)
            if op == 'trunc':
                if tt[1] == 1:
                    return self.norm(z3.Extract(0, 0, v) == 1)
                return self.norm(z3.Extract(tt[1] - 1, 0, v))
            s = F64 if tt[0] == 'double' else F32
            if op == 'uitofp':
                return self.intfp(v, False, s)
            if op == 'sitofp':
                return self.intfp(v, True, s)
            if op == 'bitcast':
                return FB(v)
        if isinstance(v, (FPR, FB)):
            if op == 'bitcast':
                return self.norm(self.fbits(v, ty))
            x = self.tofp(v, ty)
            if op in ('fptosi', 'fptoui'):
                w = tt[1]
                if w < 64 or op == 'fptosi':  # one form for every width: in-range values agree
                    r = self.fpint(x)
                    return self.norm(z3.Extract(w - 1, 0, r)) if w < 64 else self.norm(r) if w == 64 else z3.SignExt(w - 64, r)
                return z3.fpToUBV(RTZ, x, z3.BitVecSort(w))
            if op in ('fpext', 'fptrunc'):
                return z3.fpFPToFP(RNE, x, F64 if tt[0] == 'double' else F32)
        raise Unsupported('cast %s %r->%r of %r' % (op, ty, tt, type(v)))

    def fpint(self, x, depth=0):
        """x truncated to a 64 bit integer"""
        if depth < 12 and z3.is_app_of(x, z3.Z3_OP_ITE):
            return z3.If(x.arg(0), self.fpint(x.arg(1), depth + 1), self.fpint(x.arg(2), depth + 1))
        i = self.asfix(x)
        if i is not None:
            i = self.fixround(i, z3.Z3_OP_FPA_RM_TOWARD_ZERO)
        if i is not None and 0 <= -i[1] <= 10 and i[0].size() - i[1] <= 64:
            return z3.SignExt(64 - i[0].size(), i[0]) << -i[1] if i[1] else z3.SignExt(64 - i[0].size(), i[0])
        return z3.fpToSBV(RTZ, x, z3.BitVecSort(64))

    def unsup(self, m):
        raise Unsupported(m)

    # ---- execution
    def enter(self, st, f, vals, ret, va=()):
        if not f.compiled:
            self.compile(f)
        fr = Frame()
        fr.fn, fr.block, fr.pc, fr.prev, fr.ret = f, 0, 0, None, ret
        fr.regs = [None] * f.nregs
        fr.allocas = []
        fr.va = va
        for sl, v, (ty, an, bv) in zip(f.argslots, vals, f.args):
            if bv is not None:
                n = self.L.size(bv)
                oid = self.newobj(st, n, 'byval')
                st.mem[oid].cells = list(self.cells(st, v, n))
                fr.allocas.append(oid)
                v = (oid, 0)
            fr.regs[sl] = v
        if len(st.frames) > 400:
            raise Unsupported('recursion')
        st.frames.append(fr)

    def run_state(self, st):
        """run until the path ends; forks push work"""
        self.cur = st
        stats = self.stats
        n = 0
        try:
            while True:
                fr = st.frames[-1]
                phis, ins = fr.fn.blocks[fr.block]
                # straight-line part
                pc = fr.pc
                I = ins[pc]
                while type(I) is not tuple:
                    fr.pc = pc
                    n += 1
                    I(st, fr)
                    pc += 1
                    I = ins[pc]
                fr.pc = pc
                n += 1
                k = I[0]
                if n > 2000:
                    stats['instrs'] += n
                    n = 0
                    if time.time() - self.t0 > self.limit:
                        raise TimeoutError
                if k == 'br':
                    self.goto(fr, I[1])
                elif k == 'cbr':
                    c = I[1]
                    c = fr.regs[c[1]] if c[0] else c[1]
                    if type(c) is not int:
                        if isinstance(c, BV):
                            c = c == 1
                        if self.merge and self.try_merge(st, fr, c, I):
                            fr = st.frames[-1]
                            continue
                        c = self.decide(st, c)
                    self.goto(fr, I[2] if c else I[3])
                elif k == 'switch':
                    v = fr.regs[I[1][1]] if I[1][0] else I[1][1]
                    if type(v) is not int:
                        if isinstance(v, BO):
                            v = self.decide(st, v)
                        else:
                            self.goto(fr, self.sw(st, v, I[3], I[2]))
                            continue
                    self.goto(fr, I[4].get(v, I[2]))
                elif k == 'call':
                    f, dst, args, cs = I[1], I[2], I[3], I[4]
                    r = fr.regs
                    vals = [r[x] if isr else x for _, isr, x in args]
                    if f is None:
                        fp = r[cs]
                        nm = self.objfn.get(fp[0])
                        if nm is None:
                            raise Viol('VP_MEM call through a bad function pointer')
                        f = self.fns[nm]
                        if f.body is None:
                            hk = EXTERN.get(nm[1:])
                            if hk is None:
                                raise Unsupported('indirect call of external ' + nm)
                            v = hk(self, st, fr, f.ret, args, vals)
                            if dst is not None:
                                r[dst] = v
                            fr.pc += 1
                            continue
                    na = len(f.args)
                    va = [(args[i][0], vals[i]) for i in range(na, len(args))] if f.va else ()
                    self.enter(st, f, vals, dst, va)
                    fr.pc += 1
                elif k == 'ret':
                    v = None
                    if I[1] is not None:
                        v = fr.regs[I[1][1]] if I[1][0] else I[1][1]
                    st.frames.pop()
                    for a in fr.allocas:
                        st.mem.pop(a, None)
                    if not st.frames:
                        raise PathEnd
                    if fr.ret is not None:
                        st.frames[-1].regs[fr.ret] = v
                elif k == 'unreachable':
                    raise Viol('VP_CODE_ASSERT undefined behaviour: unreachable code reached')
                else:
                    raise Unsupported(k)
        except PathEnd:
            stats['instrs'] += n
            stats['paths'] += 1
            return
        except Fork as fk:
            stats['instrs'] += n
            stats['forks'] += 1
            if DEBUG:
                w = st.frames[-1].fn.name + ':' + str(st.frames[-1].block)
                self.forkat[w] = self.forkat.get(w, 0) + 1
            self.sync(st)
            base = st.depth
            for c, cz, m in fk.alts[1:]:
                s2 = st.copy()
                s2.model = m
                s2.conc[cz[0].get_id()] = cz
                self.work.append((s2, c, base))
            c, cz, m = fk.alts[0]
            st.model = m
            st.conc[cz[0].get_id()] = cz
            self.work.append((st, c, base))
            return
        except Viol as v:
            stats['instrs'] += n
            stats['paths'] += 1
            self.report_here(st, v.msg)
            return

    # ---- joining the two arms of a small branch into one state
    def hammock(self, f, x, depth=0):
        """join block of the branch ending block x if both arms are short call-free chains, else None"""
        if x in f.ham:
            return f.ham[x]
        f.ham[x] = None
        t = f.blocks[x][1][-1]
        if depth < 40 and t[0] == 'cbr':
            def chain(b):
                out = [b]
                while len(out) < 10:
                    if not f.pure[b]:
                        break
                    t = f.blocks[b][1][-1]
                    if t[0] == 'br':
                        b = t[1]
                    elif t[0] == 'cbr':
                        b = self.hammock(f, b, depth + 1)
                        if b is None:
                            break
                    else:
                        break
                    if b in out or b == x:
                        break
                    out.append(b)
                return out
            ca, cb = chain(t[2]), chain(t[3])
            f.ham[x] = next((b for b in ca if b in cb), None)
        return f.ham[x]

    def mite(self, ty, c, a, b):
        if a is b or (type(a) is type(b) and type(a) in (int, float, tuple) and repr(a) == repr(b)):
            return a
        k = ty[0]
        if k == 'i' and ty[1] == 1:
            def tb(v):
                return v if isinstance(v, BO) else z3.BoolVal(bool(v)) if type(v) is int else v == 1
            return self.norm(z3.If(c, tb(a), tb(b)))
        if k == 'i' and type(a) is not tuple and type(b) is not tuple:
            return self.norm(z3.If(c, self.bv(a, ty[1]), self.bv(b, ty[1])))
        if k in ('double', 'float'):
            def tf(v):
                return v.b if isinstance(v, FB) else z3.fpToIEEEBV(v) if isinstance(v, FPR) else z3.BitVecVal(
                    int.from_bytes(struct.pack('<d', v) if k == 'double' else self.packf(v), 'little'), 64 if k == 'double' else 32)
            return FB(z3.If(c, tf(a), tf(b)))
        if k == 'ptr' and type(a) is tuple and type(b) is tuple and a[0] == b[0]:
            return (a[0], self.norm(z3.If(c, self.bv(a[1], 64), self.bv(b[1], 64))))
        raise Unsupported('merge')

    def mergecells(self, c, a, b):
        out = a[:]
        i, n = 0, len(a)
        while i < n:
            x, y = a[i], b[i]
            if x is y or (type(x) is type(y) and type(x) is int and x == y) or (type(x) is tuple and type(y) is tuple and x[0] is y[0] and x[1:] == y[1:]):
                i += 1
                continue
            if isinstance(x, BV) and isinstance(y, BV) and x.get_id() == y.get_id():
                i += 1
                continue
            for u in (x, y):
                if type(u) is tuple and isinstance(u[0], str):
                    raise Unsupported('merge of pointers')
            w = 0
            for u in (x, y):
                if type(u) is tuple and u[1] == 0 and i + u[2] <= n:
                    w = max(w, u[2])
            if w:
                def whole(cs):
                    u = cs[i]
                    if type(u) is tuple and u[2] == w and all(type(q) is tuple and q[0] is u[0] and q[1] == j for j, q in enumerate(cs[i:i + w])):
                        return z3.fpToIEEEBV(u[0]) if isinstance(u[0], FPR) else u[0]
                    if all(type(q) is int for q in cs[i:i + w]):
                        return z3.BitVecVal(int.from_bytes(bytes(cs[i:i + w]), 'little'), 8 * w)
                    return None
                p, q = whole(a), whole(b)
                if p is not None and q is not None:
                    v = self.norm(z3.If(c, p, q))
                    out[i:i + w] = list(v.to_bytes(w, 'little')) if type(v) is int else [(v, j, w) for j in range(w)]
                    i += w
                    continue
            v = self.norm(z3.If(c, self.bv(self.byte(x), 8), self.bv(self.byte(y), 8)))
            out[i] = v
            i += 1
        return out

    def try_merge(self, st, fr, c, I):
        f = fr.fn
        J = self.hammock(f, fr.block)
        if J is None:
            return False
        c = simp(c)
        if z3.is_true(c) or z3.is_false(c) or c.get_id() in st.conc:
            return False
        nc = z3.Not(c)
        self.need(st, c)
        self.sync(st)
        base = st.depth
        self.light = True
        try:
            r1, m1 = self.query(c)
            if r1 == z3.unsat:
                return False
            r2, m2 = self.query(nc)
            if r2 == z3.unsat:
                return False
        finally:
            self.light = False
        nobj = self.nobj
        res = []
        try:
            for cond, m, tgt in ((c, m1, I[2]), (nc, m2, I[3])):
                s2 = st.copy()
                s2.model = m
                self.spush()
                self.sadd(cond)
                s2.depth = self.solver.num_scopes()
                self.cur = s2
                f2 = s2.frames[-1]
                last = fr.block
                self.goto1(f2, tgt, J)
                while f2.block != J:
                    last = f2.block
                    ins = f2.fn.blocks[f2.block][1]
                    pc = 0
                    while type(ins[pc]) is not tuple:
                        ins[pc](s2, f2)
                        pc += 1
                    t = ins[pc]
                    if t[0] == 'br':
                        self.goto1(f2, t[1], J)
                    elif t[0] == 'cbr':
                        cc = t[1]
                        cc = f2.regs[cc[1]] if cc[0] else cc[1]
                        if type(cc) is not int:
                            if isinstance(cc, BV):
                                cc = cc == 1
                            if self.try_merge(s2, f2, cc, t):
                                self.cur = s2
                                f2 = s2.frames[-1]
                                last = None
                                continue
                            self.cur = s2
                            cc = self.decide(s2, cc)
                        self.goto1(f2, t[2] if cc else t[3], J)
                    else:
                        raise Unsupported('merge')
                # phi values on arrival
                vals = []
                for d, inc in f2.fn.blocks[J][0]:
                    if last is None:  # an inner join already ended here and set the phis
                        vals.append(f2.regs[d])
                    else:
                        isr, v = inc[last]
                        vals.append(f2.regs[v] if isr else v)
                res.append((s2, f2, vals))
                while self.solver.num_scopes() > base:
                    self.spop()
            (sa, fa, va), (sb, fb, vb) = res
            if set(sa.mem) != set(sb.mem):
                raise Unsupported('merge')
            newmem = {}
            for oid, oa in sa.mem.items():
                ob = sb.mem[oid]
                if oa is ob:
                    continue
                if oa.live != ob.live:
                    raise Unsupported('merge')
                newmem[oid] = self.mergecells(c, oa.cells, ob.cells)
            phis = f.blocks[J][0]
            pv = [self.mite(f.phity[d], c, x, y) for (d, inc), x, y in zip(phis, va, vb)]
        except (Fork, Viol, Unsupported):
            while self.solver.num_scopes() > base:
                self.spop()
            st.depth = base
            self.cur = st
            return False
        self.cur = st
        st.depth = base
        self.stats['merges'] = self.stats.get('merges', 0) + 1
        for oid, cells in newmem.items():
            o = st.mem[oid]
            n = Obj(cells, st.id, o.name, o.ro)
            st.mem[oid] = n
        for (d, inc), v in zip(phis, pv):
            fr.regs[d] = v
        fr.block = J
        fr.pc = 0
        return True

    def goto1(self, fr, b, J):
        """goto that leaves the phis of the join block to the caller"""
        if b == J:
            fr.block = b
            fr.pc = 0
        else:
            self.goto(fr, b)

    def sw(self, st, v, cases, dflt):
        """target block of a switch on a symbolic value"""
        v = simp(v)
        if z3.is_bv_value(v) or v.get_id() in st.conc:
            x = v.as_long() if z3.is_bv_value(v) else st.conc[v.get_id()][1]
            return dict(cases).get(x, dflt)
        # group the cases by target (edges of one block to one target carry the same phi values)
        groups = {}
        for c, b in cases:
            if b != dflt:
                groups.setdefault(b, []).append(c)
        conds = []
        seen = []
        for b, cs in groups.items():
            e = z3.Or([v == c for c in cs]) if len(cs) > 1 else v == cs[0]
            conds.append((e, b))
            seen += [v != c for c in cs]
        conds.append((z3.And(seen) if len(seen) > 1 else seen[0] if seen else z3.BoolVal(True), dflt))
        self.keep.extend(e for e, _ in conds)
        for e, b in conds:
            if st.conc.get(e.get_id(), (None, 0))[1] == 1:
                return b
        alts = []
        for e, b in conds:
            r, m = self.query(e)
            if r != z3.unsat:
                alts.append((e, (e, 1), m, b))
        if not alts:
            raise PathEnd
        if len(alts) == 1:
            st.conc[alts[0][0].get_id()] = (alts[0][0], 1)
            return alts[0][3]
        raise Fork([a[:3] for a in alts])

    def goto(self, fr, b):
        phis = fr.fn.blocks[b][0]
        if phis:
            cur = fr.block
            r = fr.regs
            if len(phis) == 1:
                d, inc = phis[0]
                isr, v = inc[cur]
                r[d] = r[v] if isr else v
            else:
                vals = []
                for d, inc in phis:
                    isr, v = inc[cur]
                    vals.append(r[v] if isr else v)
                for (d, inc), v in zip(phis, vals):
                    r[d] = v
        fr.block = b
        fr.pc = 0

    def main(self, entry='@vp_main'):
        st = State()
        self.init_globals(st)
        for c in self.ctors:
            if c in self.fns:
                self.enter(st, self.fns[c], [], None)
                # run ctor to completion: wrap in a nested loop
                self.run_until_return(st)
        self.enter(st, self.fns[entry], [], None)
        self.run_state(st)
        while self.work:
            st, c, base = self.work.pop()
            while self.solver.num_scopes() > base:
                self.spop()
            if c is not None:
                self.spush()
                self.sadd(c)
            st.depth = self.solver.num_scopes()
            if time.time() - self.t0 > self.limit:
                raise TimeoutError
            self.run_state(st)

    def run_until_return(self, st):
        f0 = st.frames[0]
        # ctor frames are concrete: run with a sentinel
        saved = st.frames
        self.run_state(st)
        self.stats['paths'] -= 1
        st.frames = []


IMPURE = re.compile(r'\b(call|invoke|alloca|fence|cmpxchg|atomicrmw)\b')
PURECALL = re.compile(r'@llvm\.(umin|umax|smin|smax|abs|fabs|fshl|fshr|bswap|bitreverse|ctpop|lifetime|assume|dbg|copysign|usub|uadd|sadd|ssub|round|floor|ceil|trunc|rint|sqrt|lround|llround|fmuladd|maxnum|minnum)|@(l?l?round|ceil|floor|trunc|fabs|sqrt|l?l?rint|fmin|fmax)f?\(')
FASTM = {'fast', 'nnan', 'ninf', 'nsz', 'contract', 'arcp', 'reassoc', 'afn'}
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b,
       'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
       'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b}
ZCMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE,
        'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b}


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sext_idiom(t, m, w):
    """(x ^ m) - m with m the sign bit of a narrow x: the sign extension of x"""
    if m == 0 or m & (m - 1):
        return None
    n = m.bit_length()
    hi = z3.simplify(z3.Extract(w - 1, n, t)) if n < w else None
    if hi is not None and not (z3.is_bv_value(hi) and hi.as_long() == 0):
        return None
    top = z3.simplify(~z3.Extract(n - 1, n - 1, t))
    if z3.is_app_of(top, z3.Z3_OP_BNOT):
        return None
    x = z3.Concat(top, z3.Extract(n - 2, 0, t)) if n > 1 else top
    return z3.SignExt(w - n, x) if n < w else x


def _bin(name):
    def f(E, st, a, b, w):
        M = (1 << w) - 1
        if type(a) is int and type(b) is int:
            if name in ('shl', 'lshr', 'ashr') and b >= w:
                return 0
            if name == 'shl':
                return (a << b) & M
            if name == 'lshr':
                return a >> b
            if name == 'ashr':
                return (sgn(a, w) >> b) & M
            if name in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    raise Viol('VP_MEM division by zero')
                if name == 'udiv':
                    return a // b
                if name == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if name == 'sdiv' else x - q * y) & M
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b}[name] & M
        if type(a) is tuple or type(b) is tuple:
            # pointer arithmetic through integers
            if name == 'sub' and type(a) is tuple and type(b) is tuple and a[0] == b[0]:
                x, y = a[1], b[1]
                if type(x) is int and type(y) is int:
                    return (x - y) & M
                return E.norm(E.bv(x if type(x) is not int else x & M, 64) - E.bv(y if type(y) is not int else y & M, 64))
            if name in ('add', 'sub') and type(a) is tuple and type(b) is int:
                return (a[0], a[1] + sgn(b, w) * (1 if name == 'add' else -1))
            a, b = E.bv(a, w), E.bv(b, w)
        if w == 1:
            x, y = E.bo(a) if not isinstance(a, BV) else a == 1, E.bo(b) if not isinstance(b, BV) else b == 1
            if name == 'and':
                return E.norm(z3.And(x, y))
            if name == 'or':
                return E.norm(z3.Or(x, y))
            if name in ('xor', 'add', 'sub'):
                if type(b) is int:
                    return z3.Not(x) if b else a
                return E.norm(z3.Xor(x, y))
            raise Unsupported('i1 ' + name)
        # cheap identities
        if type(b) is int:
            if b == 0:
                if name in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                    return a
                if name in ('and', 'mul'):
                    return 0
            elif b == M and name == 'and':
                return a
            elif b == 1 and name in ('mul', 'udiv', 'sdiv'):
                return a
        elif type(a) is int and a == 0:
            if name in ('add', 'or', 'xor'):
                return b
            if name in ('and', 'mul', 'shl', 'lshr', 'ashr'):
                return 0
        x, y = E.bv(a, w), E.bv(b, w)
        if name in ('add', 'sub'):
            k, o = (b, x) if type(b) is int else (a, y) if type(a) is int and name == 'add' else (None, None)
            if k is not None:
                t = sext_idiom(o, (-k if name == 'add' else k) & ((1 << w) - 1), w)
                if t is not None:
                    return E.norm(t)
            return E.norm(x + y if name == 'add' else x - y)
        if name == 'mul':
            return E.norm(x * y)
        if name == 'and':
            return E.norm(x & y)
        if name == 'or':
            return E.norm(x | y)
        if name == 'xor':
            k = b if type(b) is int else a if type(a) is int else 0
            # the rewriter splits an xor with a bit pattern into one piece per run of bits
            return E.norm(x ^ y, raw=bin(k ^ (k << 1)).count('1') > 6)
        if name == 'shl':
            return E.norm(x << y)
        if name == 'lshr':
            return E.norm(z3.LShR(x, y))
        if name == 'ashr':
            if type(b) is int and 0 < b < w:
                return E.norm(z3.SignExt(b, z3.Extract(w - 1, b, x)))
            return E.norm(x >> y)
        if type(b) is not int:
            z = y == 0
            r, m = E.query(z, final=True)
            if r == z3.sat:
                E.report(st, 'VP_MEM division by zero', m)
                r2, m2 = E.query(z3.Not(z))
                if r2 == z3.unsat:
                    raise PathEnd
                E.add(st, z3.Not(z))
                st.model = m2
        elif b == 0:
            raise Viol('VP_MEM division by zero')
        if name == 'udiv':
            return E.norm(z3.UDiv(x, y))
        if name == 'urem':
            return E.norm(z3.URem(x, y))
        if name == 'sdiv':
            return E.norm(x / y)
        return E.norm(z3.SRem(x, y))
    return f


BINOPS = {n: _bin(n) for n in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem')}


# ------------------------------------------------------------------ intrinsics
def i_mem(E, st, fr, k, rt, args, v):
    n = E.concretize(st, v[2]) if type(v[2]) is not int else v[2]
    if k[1] == 'memset':
        c = v[1]
        E.setcells(st, v[0], [c] * n if n else [], 'memset')
    else:
        cs = E.cells(st, v[1], n, 'memcpy source')
        E.setcells(st, v[0], list(cs), 'memcpy destination')
    return v[0]


def i_minmax(E, st, fr, k, rt, args, v):
    pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k[1]]
    c = E.icmp(pred, rt, v[0], v[1])
    if type(c) is int:
        return v[0] if c else v[1]
    return E.ite(c, rt, v[0], v[1])


def i_abs(E, st, fr, k, rt, args, v):
    w = rt[1]
    if type(v[0]) is int:
        return abs(sgn(v[0], w)) & ((1 << w) - 1)
    return z3.If(v[0] < 0, -v[0], v[0])


def i_bswap(E, st, fr, k, rt, args, v):
    w = rt[1]
    if type(v[0]) is int:
        return int.from_bytes(v[0].to_bytes(w // 8, 'little'), 'big')
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v[0]) for i in range(w // 8)]))


def i_bitrev(E, st, fr, k, rt, args, v):
    w = rt[1]
    if type(v[0]) is int:
        return int(format(v[0], '0%db' % w)[::-1], 2)
    return simp(z3.Concat(*[z3.Extract(i, i, v[0]) for i in range(w)]))


def i_fsh(E, st, fr, k, rt, args, v):
    w = rt[1]
    a, b, c = v
    if type(a) is int and type(b) is int and type(c) is int:
        c %= w
        x = (a << w) | b
        return ((x << c) >> w) & ((1 << w) - 1) if k[1] == 'fshl' else (x >> c) & ((1 << w) - 1)
    a, b = E.bv(a, w), E.bv(b, w)
    c = z3.URem(E.bv(c, w), z3.BitVecVal(w, w))
    x = z3.Concat(a, b)
    cc = z3.ZeroExt(w, c)
    if k[1] == 'fshl':
        return E.norm(z3.Extract(2 * w - 1, w, x << cc))
    return E.norm(z3.Extract(w - 1, 0, z3.LShR(x, cc)))


def i_ctpop(E, st, fr, k, rt, args, v):
    w = rt[1]
    if type(v[0]) is int:
        return bin(v[0]).count('1')
    return E.norm(sum([z3.ZeroExt(w - 1, z3.Extract(i, i, v[0])) for i in range(1, w)], z3.ZeroExt(w - 1, z3.Extract(0, 0, v[0]))))


def i_ctz(E, st, fr, k, rt, args, v):
    w = rt[1]
    x = v[0]
    if type(x) is int:
        if x == 0:
            return w
        return (x & -x).bit_length() - 1 if k[1] == 'cttz' else w - x.bit_length()
    acc = z3.BitVecVal(w, w)
    rng = range(w - 1, -1, -1) if k[1] == 'cttz' else range(w)
    for i in rng:
        acc = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i if k[1] == 'cttz' else w - 1 - i, w), acc)
    return acc


def i_sat(E, st, fr, k, rt, args, v):
    w = rt[1]
    M = (1 << w) - 1
    if k[2] == 'with':
        t = ('i', args[0][0][1])
        w = t[1]
        M = (1 << w) - 1
        a, b = v
        if type(a) is int and type(b) is int:
            s = k[1][0] == 's'
            x, y = (sgn(a, w), sgn(b, w)) if s else (a, b)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[k[1][1:]]
            o = not (-(1 << (w - 1)) <= r < (1 << (w - 1))) if s else not (0 <= r <= M)
            return [r & M, 1 if o else 0]
        x, y = E.bv(a, w), E.bv(b, w)
        ext = z3.SignExt if k[1][0] == 's' else z3.ZeroExt
        X, Y = ext(w, x), ext(w, y)
        r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[k[1][1:]]
        lo = z3.Extract(w - 1, 0, r)
        return [E.norm(lo), E.norm(ext(w, lo) != r)]
    a, b = v
    if k[1] == 'usub':
        if type(a) is int and type(b) is int:
            return max(0, a - b)
        a, b = E.bv(a, w), E.bv(b, w)
        return E.norm(z3.If(z3.ULT(a, b), z3.BitVecVal(0, w), a - b))
    if k[1] == 'uadd':
        if type(a) is int and type(b) is int:
            return min(M, a + b)
        a, b = E.bv(a, w), E.bv(b, w)
        return E.norm(z3.If(z3.ULT(a + b, a), z3.BitVecVal(M, w), a + b))
    raise Unsupported('.'.join(k))


HEAVY = {getattr(z3, 'Z3_OP_FPA_' + n) for n in ('ADD', 'SUB', 'MUL', 'DIV', 'REM', 'FMA', 'SQRT', 'ROUND_TO_INTEGRAL', 'TO_UBV', 'TO_SBV', 'TO_FP', 'TO_FP_UNSIGNED')}
RND = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'round': z3.RNA(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'nearbyint': z3.RNE()}


def fround(x):
    if x != x or abs(x) >= 2 ** 52:
        return x
    r = math.floor(abs(x) + 0.5)
    if r - abs(x) > 0.5:  # 0.49999999999999994
        r -= 1
    return math.copysign(float(r), x)


def mathfn(E, name, ty, v):
    if all(type(x) is float for x in v):
        x = v[0]
        try:
            if name in ('floor', 'ceil', 'trunc'):
                r = x if (x != x or abs(x) == math.inf) else math.copysign(float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[name](x)), x)
            elif name == 'round':
                r = fround(x)
            elif name in ('rint', 'nearbyint'):
                r = x if (x != x or abs(x) == math.inf) else float(round(x))
            elif name == 'fabs':
                r = abs(x)
            elif name == 'sqrt':
                r = math.sqrt(x) if x >= 0 else math.nan
            elif name in ('fmax', 'maxnum'):
                r = max(v)
            elif name in ('fmin', 'minnum'):
                r = min(v)
            elif name == 'copysign':
                r = math.copysign(*v)
            elif name == 'pow':
                r = math.pow(*v)
            elif name == 'fmod':
                r = math.fmod(*v)
            elif name == 'fma' or name == 'fmuladd':
                r = v[0] * v[1] + v[2]
            else:
                r = getattr(math, name)(*v)
        except (ValueError, OverflowError):
            r = math.nan
        return f32(r) if ty[0] == 'float' else r
    fx = [E.tofp(x, ty) for x in v]
    if name in RND:
        return z3.fpRoundToIntegral(RND[name], fx[0])
    if name == 'fabs':
        return z3.fpAbs(fx[0])
    if name == 'sqrt':
        return z3.fpSqrt(RNE, fx[0])
    if name in ('fmax', 'maxnum', 'fmin', 'minnum') and all(E.fbound(x) is not None for x in fx):
        c = E.fcmp('olt', ty, fx[0], fx[1])
        a, b = (fx[0], fx[1]) if 'min' in name else (fx[1], fx[0])
        return (a if c else b) if type(c) is int else z3.If(c, a, b)
    if name in ('fmax', 'maxnum'):
        return z3.fpMax(fx[0], fx[1])
    if name in ('fmin', 'minnum'):
        return z3.fpMin(fx[0], fx[1])
    if name == 'fmuladd':
        return z3.fpAdd(RNE, z3.fpMul(RNE, fx[0], fx[1]), fx[2])
    if name == 'copysign':
        n = 64 if ty[0] == 'double' else 32
        a, b = E.fbits(v[0], ty), E.fbits(v[1], ty)
        return FB(z3.Concat(z3.Extract(n - 1, n - 1, b), z3.Extract(n - 2, 0, a)))
    # uninterpreted: same argument, same result
    s = F64 if ty[0] == 'double' else F32
    f = z3.Function('uf_' + name, *([s] * len(fx) + [s]))
    return f(*fx)


def i_math(E, st, fr, k, rt, args, v):
    return mathfn(E, k[1], args[0][0], v)


def i_lround(E, st, fr, k, rt, args, v):
    ty = args[0][0]
    nm = 'round' if 'round' in k[1] else 'rint'
    x = mathfn(E, nm, ty, v)
    return E.cast('fptosi', ty, rt, x)


def i_vastart(E, st, fr, k, rt, args, v):
    # tag the va_list object with a pointer to a pseudo object holding the varargs
    oid = E.newobj(st, 8, 'valist')
    st.mem[oid].cells[0] = ('va', list(fr.va))
    p = (oid, 0)
    E.setcells(st, v[0], [('p', p, i) for i in range(8)])
    return None


def i_vacopy(E, st, fr, k, rt, args, v):
    E.setcells(st, v[0], list(E.cells(st, v[1], 8)))


INTRIN = {'memcpy': i_mem, 'memmove': i_mem, 'memset': i_mem, 'umin': i_minmax, 'umax': i_minmax, 'smin': i_minmax,
          'smax': i_minmax, 'abs': i_abs, 'bswap': i_bswap, 'bitreverse': i_bitrev, 'fshl': i_fsh, 'fshr': i_fsh, 'ctpop': i_ctpop, 'cttz': i_ctz,
          'ctlz': i_ctz, 'uadd': i_sat, 'usub': i_sat, 'umul': i_sat, 'sadd': i_sat, 'ssub': i_sat, 'smul': i_sat,
          'va_start': i_vastart, 'va_copy': i_vacopy,
          'stacksave': lambda E, st, fr, k, rt, a, v: (0, 0),
          'expect': lambda E, st, fr, k, rt, a, v: v[0],
          'is': lambda E, st, fr, k, rt, a, v: 0 if k[2] == 'constant' else E.unsup('is.'),
          'objectsize': lambda E, st, fr, k, rt, a, v: (1 << rt[1]) - 1,
          'trap': lambda E, st, fr, k, rt, a, v: (_ for _ in ()).throw(Viol('VP_MEM trap')),
          'lround': i_lround, 'llround': i_lround, 'lrint': i_lround, 'llrint': i_lround}
for _n in ('fabs', 'floor', 'ceil', 'round', 'rint', 'trunc', 'sqrt', 'cos', 'sin', 'fmuladd', 'maxnum', 'minnum', 'copysign',
           'nearbyint', 'pow', 'fma', 'exp', 'log', 'log10', 'log2', 'exp2'):
    INTRIN[_n] = i_math


# ------------------------------------------------------------------ externals
def draw(w):
    def f(E, st, fr, rt, args, v):
        x = z3.BitVec('d%d_%d' % (len(st.draws), w), w)
        st.draws.append(x)
        return x
    return f


def x_bytes(E, st, fr, rt, args, v):
    n = E.concretize(st, v[1]) if type(v[1]) is not int else v[1]
    cs = []
    base = len(st.draws)
    new = [z3.BitVec('d%d_8' % (base + i), 8) for i in range(n)]
    E.setcells(st, v[0], list(new), 'vp_bytes')
    st.draws.extend(new)


def x_f64(E, st, fr, rt, args, v):
    return FB(draw(64)(E, st, fr, rt, args, v))


def x_f32(E, st, fr, rt, args, v):
    return FB(draw(32)(E, st, fr, rt, args, v))


def x_range(E, st, fr, rt, args, v):
    lo, hi = E.concretize(st, v[0]), E.concretize(st, v[1])
    x = z3.BitVec('d%d_32' % len(st.draws), 32)
    st.draws.append(x)
    if lo == hi:
        E.add(st, x == lo)
        st.model = None
        st.conc[x.get_id()] = (x, lo)
        return lo
    c = z3.And(x >= sgn(lo, 32), x <= sgn(hi, 32))
    E.add(st, c)
    st.model = None
    return x


def x_assert(E, st, fr, rt, args, v):
    msg = E.cstr(st, v[1])
    A = E.stats['asserts'].setdefault(msg, [0, 0])
    A[0] += 1
    c = v[0]
    if type(c) is int:
        if c == 0:
            raise Viol(msg)
        return
    c = simp(c != 0) if isinstance(c, BV) else c
    if z3.is_true(c):
        return
    if any(x['msg'] == msg for x in E.viol):
        E.add(st, c)
        st.model = None
        return
    A[1] += 1
    E.need(st, c)
    if E.hasfpeq(c) and E.prove(c):
        return
    r, m = E.query(z3.Not(c), final=True)
    if r == z3.sat:
        E.report(st, msg, m)
        r2, m2 = E.query(c)
        if r2 == z3.unsat:
            raise PathEnd
        E.add(st, c)
        st.model = m2
    elif r == z3.unknown:
        E.stats['unknown'] += 1


def x_assume(E, st, fr, rt, args, v):
    c = v[0]
    if type(c) is int:
        if c == 0:
            raise PathEnd
        return
    c = simp(c != 0) if isinstance(c, BV) else simp(c)
    if z3.is_true(c):
        return
    ok = E.feasible(st, c)
    if ok is False:
        raise PathEnd
    E.add(st, c)
    if ok is None:
        st.model = None
    elif not z3.is_true(st.model.eval(c, model_completion=True)):
        st.model = None


def x_reach(E, st, fr, rt, args, v):
    msg = E.cstr(st, v[0])
    if msg not in E.stats['reach']:
        if st.model is not None or st.depth == 0:  # the model satisfies the path condition
            E.stats['reach'][msg] = 1
            return
        r, m = E.query()
        if r == z3.sat:
            E.stats['reach'][msg] = 1


def x_split(E, st, fr, rt, args, v):
    """vp_split(x): explore each feasible value of x separately"""
    return E.concretize(st, v[0], 400)


def x_memcmp(E, st, fr, rt, args, v):
    n = E.concretize(st, v[2])
    a, b = E.cells(st, v[0], n, 'memcmp'), E.cells(st, v[1], n, 'memcmp')
    acc = 0
    for x, y in reversed(list(zip(a, b))):
        x, y = E.byte(x), E.byte(y)
        if type(x) is int and type(y) is int:
            if x != y:
                acc = 1 if x > y else 0xffffffff
            continue
        x, y = E.bv(x, 8), E.bv(y, 8)
        acc = z3.If(x == y, E.bv(acc, 32), z3.If(z3.UGT(x, y), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32)))
    return E.norm(acc)


def x_strlen(E, st, fr, rt, args, v):
    oid, off = v[0]
    off = E.concretize(st, off)
    mx = None
    if len(v) > 1:
        mx = E.concretize(st, v[1])
    n = 0
    o = st.mem.get(oid)
    if o is None:
        raise Viol('VP_MEM bad string pointer')
    while True:
        if mx is not None and n >= mx:
            return n
        if off + n >= len(o.cells):
            raise Viol('VP_MEM unterminated string read')
        b = E.byte(o.cells[off + n])
        if type(b) is int:
            z = b == 0
        else:
            z = E.decide(st, b == 0)
        if z:
            return n
        n += 1


def x_strcmp(E, st, fr, rt, args, v):
    mx = E.concretize(st, v[2]) if len(v) > 2 else 1 << 30
    i = 0
    while i < mx:
        x = E.byte(E.cells(st, (v[0][0], v[0][1] + i), 1, 'strcmp')[0])
        y = E.byte(E.cells(st, (v[1][0], v[1][1] + i), 1, 'strcmp')[0])
        if type(x) is int and type(y) is int:
            if x != y:
                return 1 if x > y else 0xffffffff
            if x == 0:
                return 0
        else:
            if not E.decide(st, E.bv(x, 8) == E.bv(y, 8)):
                return z3.If(z3.UGT(E.bv(x, 8), E.bv(y, 8)), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32))
            zz = y if type(x) is not int else x
            if type(zz) is int:
                if zz == 0:
                    return 0
            elif E.decide(st, zz == 0):
                return 0
        i += 1
    return 0


def x_strncpy(E, st, fr, rt, args, v):
    n = E.concretize(st, v[2]) if len(v) > 2 else 1 << 30
    out = []
    i = 0
    while i < n:
        x = E.byte(E.cells(st, (v[1][0], v[1][1] + i), 1, 'strcpy source')[0])
        z = x == 0 if type(x) is int else E.decide(st, x == 0)
        if z:
            if len(v) > 2:
                out += [0] * (n - i)
            else:
                out.append(0)
            break
        out.append(x)
        i += 1
    E.setcells(st, v[0], out, 'strcpy destination')
    return v[0]


def digits(E, st, v, w, signed, width, zero, left=False):
    """decimal rendering of a symbolic value as a list of byte cells; forks on sign and digit count"""
    out = []
    if signed:
        if E.decide(st, v < 0):
            out.append(ord('-'))
            v = -v
    n = 1
    while n < 20 and (10 ** n) < (1 << w):
        if E.decide(st, z3.ULT(v, z3.BitVecVal(10 ** n, w))):
            break
        n += 1
    ds = []
    for i in range(n - 1, -1, -1):
        d = z3.URem(z3.UDiv(v, z3.BitVecVal(10 ** i, w)), z3.BitVecVal(10, w))
        ds.append(simp(z3.Extract(7, 0, d) + 48))
    pad = max(0, width - n - len(out))
    if left:
        return out + ds + [32] * pad
    if zero:
        return out + [48] * pad + ds
    return [32] * pad + out + ds


FMT = re.compile(r'%([-+ 0#]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfgGcspn%])')


def format_cells(E, st, fmt, va):
    """printf: list of cells"""
    out = []
    i = 0
    va = list(va)
    pos = 0
    for m in FMT.finditer(fmt):
        out += [ord(c) for c in fmt[pos:m.start()]]
        pos = m.end()
        fl, wd, pr, ln, cv = m.groups()
        if cv == '%':
            out.append(37)
            continue
        if wd == '*':
            wd = sgn(E.concretize(st, va.pop(0)[1]), 32)
        if pr == '*':
            pr = sgn(E.concretize(st, va.pop(0)[1]), 32)
        wd = int(wd or 0)
        ty, v = va.pop(0)
        if cv == 's':
            n = None if pr is None else int(pr)
            s = []
            k = 0
            while n is None or k < n:
                b = E.byte(E.cells(st, (v[0], v[1] + k), 1, '%s string')[0])
                if (b == 0) if type(b) is int else E.decide(st, b == 0):
                    break
                s.append(b)
                k += 1
            out += ([32] * max(0, wd - len(s)) + s) if '-' not in fl else (s + [32] * max(0, wd - len(s)))
            continue
        if cv == 'c':
            out.append(v & 255 if type(v) is int else z3.Extract(7, 0, v))
            continue
        if cv in 'diuxXo':
            w = ty[1]
            if ln == 'hh':
                eff = 8
            elif ln == 'h':
                eff = 16
            else:
                eff = w
            if type(v) is int:
                v &= (1 << eff) - 1
                if cv in 'di':
                    v = sgn(v, eff)
                spec = '%' + fl + (str(wd) if wd else '') + ('.' + str(pr) if pr is not None else '') + ('d' if cv in 'diu' else cv)
                out += [ord(c) for c in spec % v]
                continue
            if isinstance(v, BO):
                v = E.bv(v, w)
            if eff < w:
                v = z3.Extract(eff - 1, 0, v)
                w = eff
            if cv in 'xX':
                # fixed-width hex when a zero-padded width covers the value, else fork on magnitude
                nib = 1
                while 4 * nib < w:
                    if E.decide(st, z3.ULT(v, z3.BitVecVal(1 << (4 * nib), w))):
                        break
                    nib += 1
                ds = []
                for q in range(nib - 1, -1, -1):
                    d = z3.Extract(7, 0, z3.ZeroExt(8, z3.LShR(v, 4 * q))) & 15
                    ds.append(simp(z3.If(z3.ULT(d, 10), d + 48, d + (55 if cv == 'X' else 87))))
                out += [48 if '0' in fl else 32] * max(0, wd - nib) + ds
                continue
            if cv in 'diu':
                zero = '0' in fl
                if pr is not None:
                    zero, wd = True, int(pr)
                out += digits(E, st, v, w, cv in 'di', wd, zero, '-' in fl)
                continue
            raise Unsupported('symbolic %' + cv)
        if cv in 'eEfgG':
            if type(v) is float:
                spec = '%' + fl + (str(wd) if wd else '') + ('.' + str(pr) if pr is not None else '') + cv
                try:
                    out += [ord(c) for c in spec % v]
                except (ValueError, OverflowError):
                    out += [ord('?')] * max(1, wd)
                continue
            raise Unsupported('symbolic float in printf')
        if cv == 'p':
            out += [48]
            continue
        raise Unsupported('printf ' + m.group())
    out += [ord(c) for c in fmt[pos:]]
    return out


def x_snprintf(E, st, fr, rt, args, v):
    n = E.concretize(st, v[1])
    fmt = E.cstr(st, v[2])
    cs = format_cells(E, st, fmt, [(args[i][0], v[i]) for i in range(3, len(v))])
    if n > 0:
        E.setcells(st, v[0], cs[:n - 1] + [0], 'snprintf')
    return len(cs)


def x_sprintf(E, st, fr, rt, args, v):
    fmt = E.cstr(st, v[1])
    cs = format_cells(E, st, fmt, [(args[i][0], v[i]) for i in range(2, len(v))])
    E.setcells(st, v[0], cs + [0], 'sprintf')
    return len(cs)


def x_vsnprintf(E, st, fr, rt, args, v):
    n = E.concretize(st, v[1])
    fmt = E.cstr(st, v[2])
    p = E.load(st, ('ptr',), v[3])
    va = st.mem[p[0]].cells[0][1]
    cs = format_cells(E, st, fmt, va)
    if n > 0:
        E.setcells(st, v[0], cs[:n - 1] + [0], 'vsnprintf')
    return len(cs)


def x_zero(E, st, fr, rt, args, v):
    if rt[0] == 'ptr':
        return (0, 0)
    return 0


def x_fail(msg):
    def f(E, st, fr, rt, args, v):
        raise Viol(msg)
    return f


def x_end(E, st, fr, rt, args, v):
    raise PathEnd


def x_malloc(E, st, fr, rt, args, v):
    n = E.concretize(st, v[0])
    if len(v) > 1:
        n *= E.concretize(st, v[1])
    return (E.newobj(st, n, 'heap', 0 if len(v) > 1 else None), 0)


def x_free(E, st, fr, rt, args, v):
    if v[0] == (0, 0):
        return
    o = E.wobj(st, v[0][0])
    if not o.live:
        raise Viol('VP_MEM double free')
    o.live = False


def x_math(name):
    def f(E, st, fr, rt, args, v):
        nm = name[:-1] if name.endswith('f') and name not in ('erf',) else name
        return mathfn(E, nm, args[0][0], v)
    return f


def x_lround(name):
    def f(E, st, fr, rt, args, v):
        return i_lround(E, st, fr, [None, name], rt, args, v)
    return f


def x_ldexp(E, st, fr, rt, args, v):
    e = sgn(E.concretize(st, v[1]), 32)
    if type(v[0]) is float:
        try:
            return math.ldexp(v[0], e)
        except OverflowError:
            return math.copysign(math.inf, v[0])
    return z3.fpMul(RNE, E.tofp(v[0], args[0][0]), z3.FPVal(math.ldexp(1.0, e), F64))


def x_isfn(lo_hi):
    def f(E, st, fr, rt, args, v):
        x = v[0]
        if type(x) is int:
            return 1 if any(a <= x <= b for a, b in lo_hi) else 0
        return z3.If(z3.Or([z3.And(z3.UGE(x, a), z3.ULE(x, b)) for a, b in lo_hi]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return f


def x_abs(E, st, fr, rt, args, v):
    return i_abs(E, st, fr, None, rt, args, v)


EXTERN = {
    'vp_u8': draw(8), 'vp_u16': draw(16), 'vp_u32': draw(32), 'vp_u64': draw(64), 'vp_bytes': x_bytes, 'vp_f64': x_f64,
    'vp_f32': x_f32, 'vp_range': x_range, 'vp_assert': x_assert, 'vp_assume': x_assume, 'vp_reach': x_reach, 'vp_split': x_split,
    'memcmp': x_memcmp, 'bcmp': x_memcmp, 'strlen': x_strlen, 'strnlen': x_strlen, 'strcmp': x_strcmp, 'strncmp': x_strcmp,
    'strncpy': x_strncpy, 'strcpy': x_strncpy, 'snprintf': x_snprintf, 'vsnprintf': x_vsnprintf, 'sprintf': x_sprintf,
    'fprintf': x_zero, 'printf': x_zero, 'puts': x_zero, 'fputs': x_zero, 'fputc': x_zero, 'putchar': x_zero, 'fwrite': x_zero,
    'vfprintf': x_zero, 'vprintf': x_zero, 'fflush': x_zero, 'perror': x_zero, 'putc': x_zero, '__cxa_atexit': x_zero,
    '__assert_fail': x_fail('VP_CODE_ASSERT the code\'s own assert() holds'),
    'abort': x_fail('VP_CODE_ASSERT no abort()'), 'exit': x_end, '_exit': x_end,
    '_ZSt25__throw_bad_function_callv': x_fail('VP_CODE_ASSERT empty std::function called'),
    '__cxa_pure_virtual': x_fail('VP_CODE_ASSERT pure virtual call'),
    'malloc': x_malloc, '_Znwm': x_malloc, '_Znam': x_malloc,
    'calloc': x_malloc, 'free': x_free, '_ZdlPv': x_free, '_ZdlPvm': x_free, '_ZdaPv': x_free,
    'ldexp': x_ldexp, 'lround': x_lround('lround'), 'llround': x_lround('llround'), 'lrint': x_lround('lrint'),
    'llrint': x_lround('llrint'), 'lroundf': x_lround('lround'), 'llroundf': x_lround('llround'),
    'isdigit': x_isfn([(48, 57)]), 'isprint': x_isfn([(32, 126)]), 'abs': x_abs, 'labs': x_abs, 'llabs': x_abs,
}
for _n in ('floor', 'ceil', 'round', 'rint', 'trunc', 'fabs', 'sqrt', 'cos', 'sin', 'tan', 'atan2', 'atan', 'asin', 'acos', 'pow',
           'fmod', 'fmax', 'fmin', 'copysign', 'exp', 'log', 'log10', 'floorf', 'ceilf', 'roundf', 'fabsf', 'sqrtf', 'fmaxf',
           'fminf', 'cosf', 'sinf', 'powf', 'nearbyint', 'fmodf', 'truncf', 'log10f', 'atan2f', 'rintf', 'log2', 'log2f', 'exp2', 'exp2f'):
    EXTERN[_n] = x_math(_n)


def execute(path, limit, opts=None):
    res = dict(status='error', note='')
    eng = None
    try:
        eng = Engine(open(path).read(), limit, opts)
        eng.main()
        res['status'] = 'done'
    except StopIteration:
        res['status'] = 'done'
        res['note'] = 'stopped after several distinct counterexamples'
    except TimeoutError:
        res['status'] = 'timeout'
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['note'] = str(e)
        if eng is not None and os.environ.get('SYMX_DEBUG'):
            import traceback
            traceback.print_exc()
    except (z3.Z3Exception, MemoryError, RecursionError) as e:
        res['status'] = 'tool-error'
        res['note'] = repr(e)[:500]
        if os.environ.get('SYMX_DEBUG'):
            import traceback
            traceback.print_exc()
    if eng is not None:
        s = eng.stats
        if DEBUG:
            sys.stderr.write('forks %s\n' % sorted(eng.forkat.items(), key=lambda x: -x[1])[:12])
        res.update(paths=s['paths'], queries=s['queries'], solver_s=round(s['solver_s'], 3), instrs=s['instrs'],
                   forks=s['forks'], asserts=s['asserts'], reach=sorted(s['reach']), unknown=s['unknown'], viol=eng.viol,
                   functions=sorted(f.name[1:] for f in eng.fns.values() if f.compiled), wall=round(time.time() - eng.t0, 2))
        if s['unknown'] and res['status'] == 'done':
            res['note'] += ' %d solver unknowns' % s['unknown']
    return res


if __name__ == '__main__':
    r = execute(sys.argv[1], float(sys.argv[3]) if len(sys.argv) > 3 else 300, json.loads(sys.argv[4]) if len(sys.argv) > 4 else {})
    json.dump(r, open(sys.argv[2], 'w') if sys.argv[2] != '-' else sys.stdout, indent=1)
