"""Our own reading of bytecode: instructions, where each may go next, line starts, exception table.
Independent of xpython's decoder; the opcode tables (names and kinds of operand) are xdis'."""
import dis
import sys

from xdis.op_imports import get_opcode_module

_opc = {}


def opc_for(target):
    from . import harness as H
    if target not in _opc:
        v, impl = H.TARGETS[target]
        _opc[target] = get_opcode_module(v, impl)
    return _opc[target]


class Ins(object):
    __slots__ = ("offset", "first", "next", "name", "op", "raw", "target", "kind", "caches")

    def __repr__(self):
        return "%d:%s(%s)" % (self.offset, self.name, self.raw)


NO_NEXT = {"JUMP_FORWARD", "JUMP_ABSOLUTE", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "RETURN_VALUE",
           "RETURN_CONST", "RAISE_VARARGS", "RERAISE", "CONTINUE_LOOP", "BREAK_LOOP"}
RETURNS = {"RETURN_VALUE", "RETURN_CONST"}
YIELDS = {"YIELD_VALUE", "YIELD_FROM"}
# instructions that may go on wherever an enclosing block says
UNWINDERS = {"END_FINALLY", "BREAK_LOOP", "CONTINUE_LOOP", "WITH_CLEANUP", "WITH_CLEANUP_START", "WITH_CLEANUP_FINISH",
             "POP_FINALLY", "CALL_FINALLY", "RETURN_VALUE", "POP_BLOCK"}


class Disasm(object):
    """One code object."""

    def __init__(self, code, target):
        from . import harness as H
        self.v, self.impl = H.TARGETS[target]
        v = self.v
        self.opc = opc = opc_for(target)
        co = code.co_code
        if isinstance(co, str):
            co = co.encode("latin-1")
        self.ins = []
        self.at = {}
        ext = 0
        first = None
        i, n = 0, len(co)
        jrel, jabs = set(opc.JREL_OPS), set(opc.JABS_OPS)
        while i < n:
            op = co[i]
            name = opc.opname[op]
            start = i
            raw = None
            if v >= (3, 6):
                if op >= 90:
                    raw = co[i + 1] | ext
                i += 2
            elif op >= 90:
                raw = co[i + 1] | co[i + 2] << 8 | ext
                i += 3
            else:
                i += 1
            if name == "EXTENDED_ARG":
                ext = raw << (8 if v >= (3, 6) else 16)
                if first is None:
                    first = start
                continue
            ext = 0
            x = Ins()
            x.offset, x.first, x.name, x.op, x.raw = start, start if first is None else first, name, op, raw
            first = None
            x.caches = 0
            if v >= (3, 11):
                while i < n and opc.opname[co[i]] == "CACHE":
                    x.caches += 1
                    i += 2
            x.next = i
            x.target = None
            if op in jrel:
                d = raw * 2 if v >= (3, 10) else raw
                if v >= (3, 11) and "BACKWARD" in name:
                    d = -d
                # relative to the end of the instruction: before 3.12 in 3.11 and there too after its caches
                x.target = x.next + d
            elif op in jabs:
                x.target = raw * 2 if v >= (3, 10) else raw
            self.ins.append(x)
            self.at[start] = x
        # where an instruction is entered at when it is jumped to: its first EXTENDED_ARG
        self.real = {x.first: x.offset for x in self.ins}
        self.setups = {self.real.get(x.target, x.target) for x in self.ins
                       if x.name.startswith("SETUP_") and x.target is not None}
        self.jumps = {self.real.get(x.target, x.target) for x in self.ins if x.target is not None}
        self.call_returns = {self.real.get(x.next) for x in self.ins if x.name == "CALL_FINALLY"}
        self.handlers = self._table(code) if v >= (3, 11) else None

    def operands(self, x, code):
        """What the operand of instruction x stands for: the list of the arguments of its operation."""
        if x.raw is None:
            return []
        opc = self.opc
        if x.target is not None:
            # 3.12's FOR_ITER and SEND have an inline cache
            return [x.target]
        if x.op in opc.CONST_OPS:
            return [code.co_consts[x.raw]]
        if x.op in opc.NAME_OPS:
            names = code.co_names
            if x.name == "LOAD_SUPER_ATTR":
                return [names[x.raw >> 2], bool(x.raw & 1), bool(x.raw & 2)]
            if (x.name == "LOAD_GLOBAL" and self.v >= (3, 11)) or (x.name == "LOAD_ATTR" and self.v >= (3, 12)):
                return [names[x.raw >> 1], bool(x.raw & 1)]
            return [names[x.raw]]
        if x.op in opc.FREE_OPS or x.op in opc.LOCAL_OPS:
            var, cell, free = (tuple(t or ()) for t in (code.co_varnames, code.co_cellvars, code.co_freevars))
            if self.v >= (3, 11):
                return [(var + tuple(n for n in cell if n not in var) + free)[x.raw]]
            return [(cell + free if x.op in opc.FREE_OPS else var)[x.raw]]
        return [x.raw]

    def _table(self, code):
        out = []
        t = getattr(code, "co_exceptiontable", b"")
        if isinstance(t, str):
            t = t.encode("latin-1")
        it = iter(t)

        def num():
            b = next(it)
            r = b & 63
            while b & 64:
                b = next(it)
                r = r << 6 | b & 63
            return r
        try:
            while True:
                s = num() * 2
                e = s + num() * 2
                h = num() * 2
                d = num()
                out.append((s, e, self.real.get(h, h), d >> 1, d & 1))
        except StopIteration:
            return out

    def handler(self, off):
        for s, e, h, _, _ in self.handlers:
            if s <= off < e:
                return h
        return None

    def successors(self, x):
        """Offsets of the instructions that may come right after x in the same activation."""
        out = set()
        if x.name not in NO_NEXT:
            out.add(self.real.get(x.next, x.next))
        if x.target is not None and not x.name.startswith("SETUP_"):
            t = self.real.get(x.target, x.target)
            out.add(t)
            if x.name in ("FOR_ITER", "SEND") and self.v >= (3, 12):
                y = self.at.get(t)
                if y is not None:
                    out.add(self.real.get(y.next, y.next))
        if x.name == "YIELD_FROM":
            out.add(x.offset)
        if self.handlers is not None:
            h = self.handler(x.offset)
            if h is not None:
                out.add(h)
        else:
            out |= self.setups
            if x.name in UNWINDERS or x.name.startswith("SETUP_"):
                out |= self.jumps | self.call_returns
        return out


def line_ranges(code, version):
    """[(start, end, line or None)] of the whole code, our own reading of lnotab or the line tables of 3.10 and 3.11."""
    out = []
    n = len(code.co_code)
    line = code.co_firstlineno
    if version < (3, 10):
        tab = code.co_lnotab
        if isinstance(tab, str):
            tab = tab.encode("latin-1")
        addr = 0
        for a, d in zip(tab[::2], tab[1::2]):
            out.append((addr, addr + a, line))
            addr += a
            line += d - 256 if version >= (3, 6) and d >= 128 else d
        out.append((addr, n, line))
        return [r for r in out if r[0] < r[1]]
    tab = code.co_linetable
    if version < (3, 11):
        pos = 0
        for a, d in zip(tab[::2], tab[1::2]):
            if d == 128:
                out.append((pos, pos + a, None))
            else:
                line += d - 256 if d > 128 else d
                if a:
                    out.append((pos, pos + a, line))
            pos += a
        return [r for r in out if r[0] < r[1]]
    it = iter(tab)
    pos = 0

    def varint():
        b = next(it)
        v, sh = b & 63, 0
        while b & 64:
            b = next(it)
            sh += 6
            v |= (b & 63) << sh
        return v

    def svarint():
        v = varint()
        return -(v >> 1) if v & 1 else v >> 1

    for b in it:
        kind, size = (b >> 3) & 15, 2 * ((b & 7) + 1)
        here = line
        if kind == 15:
            here = None
        elif kind == 14:
            line += svarint()
            varint(), varint(), varint()
            here = line
        elif kind == 13:
            line += svarint()
            here = line
        elif kind >= 10:
            line += kind - 10
            next(it), next(it)
            here = line
        else:
            next(it)
        out.append((pos, pos + size, here))
        pos += size
    return out


def line_starts(code, version):
    """{offset: line} where the line changes, as "line" events are for."""
    out, last = {}, None
    for start, _, line in line_ranges(code, version):
        if line is not None and line != last:
            out[start] = last = line
    return out


def line_at(code, version, offset):
    for start, end, line in line_ranges(code, version):
        if start <= offset < end:
            return line
    return None
