"""Bytecode of 3.11, translated from that of the running 3.12.

The two releases' compilers are close; this undoes what 3.12 changed: inlined comprehensions, LOAD_SUPER_ATTR,
RETURN_CONST, the intrinsics, END_FOR, END_SEND and CLEANUP_THROW, the handler that turns StopIteration into
RuntimeError, jumps without direction, and the sizes of the inline caches."""
import ast
import dis
import types

from xdis.codetype import to_portable
from xdis.op_imports import get_opcode_module
from xdis.version_info import PythonImplementation

from .compiler import Unsupported

OPC = get_opcode_module((3, 11), PythonImplementation.CPython)
CACHES = {"BINARY_SUBSCR": 4, "STORE_SUBSCR": 1, "UNPACK_SEQUENCE": 1, "STORE_ATTR": 4, "LOAD_ATTR": 4,
          "COMPARE_OP": 2, "LOAD_GLOBAL": 5, "BINARY_OP": 1, "LOAD_METHOD": 10, "PRECALL": 1, "CALL": 4}
MARK = {ast.ListComp: "__listcomp__", ast.SetComp: "__setcomp__", ast.DictComp: "__dictcomp__"}
KIND = {v: v.strip("_") for v in MARK.values()}
ADD = {"listcomp": ("BUILD_LIST", "LIST_APPEND"), "setcomp": ("BUILD_SET", "SET_ADD"), "dictcomp": ("BUILD_MAP", "MAP_ADD")}
CO_GENERATOR = 32
ASYNC = 0x80 | 0x200


class Comprehensions(ast.NodeTransformer):
    """[x for x in y] -> __listcomp__(x for x in y), all with the place of the comprehension."""

    def visit(self, n):
        self.generic_visit(n)
        if type(n) not in MARK:
            return n
        if any(g.is_async for g in n.generators):
            raise Unsupported("asynchronous comprehension")
        elt = n.elt if not isinstance(n, ast.DictComp) else ast.copy_location(
            ast.Tuple([n.key, n.value], ast.Load()), n)
        gen = ast.copy_location(ast.GeneratorExp(elt, n.generators), n)
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(MARK[type(n)], ast.Load()), n), [gen], []), n)


class I:
    __slots__ = ("op", "arg", "target", "pos", "handler", "offset", "size", "const", "new")

    def __init__(self, op, arg=0, like=None, const=None):
        self.op, self.arg, self.const = op, arg, const
        self.target = None
        self.pos = like.pos if like else None
        self.handler = like.handler if like else None
        self.new = None

    def __repr__(self):
        return "%s %s" % (self.op, self.arg)


def compile311(source, filename):
    tree = ast.parse(source, filename)
    tree = ast.fix_missing_locations(Comprehensions().visit(tree))
    return translate(compile(tree, filename, "exec", dont_inherit=True))


def read(code):
    """The instructions, without caches and prefixes, with jump targets and handlers as instructions."""
    ins, at, aliases = [], {}, []
    for x, pos in zip(dis.get_instructions(code, show_caches=True), code.co_positions()):
        if x.opname == "CACHE":
            continue
        aliases.append(x.offset)
        if x.opname == "EXTENDED_ARG":
            continue
        i = I(x.opname, x.arg if x.arg is not None else 0)
        i.pos = pos
        i.offset = x.offset
        for a in aliases:
            at[a] = i
        aliases = []
        if x.opcode in dis.hasjrel or x.opcode in dis.hasjabs:
            i.target = x.argval
        ins.append(i)
    for i in ins:
        if i.target is not None:
            i.target = at[i.target]
    table = list(dis._parse_exception_table(code))
    for e in table:
        for i in ins:
            if e.start <= i.offset < e.end:
                i.handler = (at[e.target], e.depth, e.lasti)
    return ins


def translate(code, kind=None, rename=("", "")):
    if code.co_flags & ASYNC:
        raise Unsupported("async")
    ins = read(code)
    consts = list(code.co_consts)
    names = list(code.co_names)
    done = {}

    def const(v, key=None):
        for k, c in enumerate(consts):
            if type(c) is type(v) and c == v and not isinstance(v, (tuple, float, complex, frozenset, types.CodeType)):
                return k
        consts.append(v)
        return len(consts) - 1

    qualname = code.co_qualname
    if rename[0] and qualname.startswith(rename[0]):
        qualname = rename[1] + qualname[len(rename[0]):]
    name = code.co_name
    if kind:
        name = "<%s>" % kind
        qualname = qualname[:-len("<genexpr>")] + name
    rename = (code.co_qualname, qualname)

    # what 3.11 has no handlers for
    dropped = set()                                            # ids of instructions
    stop = next((k for k, i in enumerate(ins) if i.op == "CALL_INTRINSIC_1" and i.arg == 3), None)
    gone = {}
    if stop is not None:
        assert ins[stop + 1].op == "RERAISE"
        gone[id(ins[stop])] = None
        dropped |= {id(ins[stop]), id(ins[stop + 1])}
    for k, i in enumerate(ins):
        if i.op == "CLEANUP_THROW":
            gone[id(i)] = i
            dropped.add(id(i))
            if k + 1 < len(ins) and ins[k + 1].op.startswith("JUMP_") and ins[k + 1].target.op == "END_SEND":
                dropped.add(id(ins[k + 1]))
    for i in ins:
        while i.handler is not None and id(i.handler[0]) in gone:
            outer = gone[id(i.handler[0])]
            i.handler = outer.handler if outer is not None else None

    # comprehensions: the load of the marker, and its call
    codes = {}                                                 # id(instruction) -> kind
    k = 0
    while k < len(ins):
        i = ins[k]
        if i.op in ("LOAD_GLOBAL", "LOAD_NAME"):
            n = names[i.arg >> 1] if i.op == "LOAD_GLOBAL" else names[i.arg]
            if n in KIND:
                if i.op == "LOAD_NAME":
                    assert ins[k - 1].op == "PUSH_NULL"
                    dropped.add(id(ins[k - 1]))
                else:
                    assert i.arg & 1
                dropped.add(id(i))
                j = k + 1
                while not (ins[j].op == "LOAD_CONST" and isinstance(consts[ins[j].arg], types.CodeType)):
                    j += 1
                codes[id(ins[j])] = KIND[n]
                while not (ins[j].op == "CALL" and ins[j].arg == 1 and ins[j].pos == i.pos and ins[j - 1].op == "CALL"):
                    j += 1
                dropped.add(id(ins[j]))
        k += 1

    targets = {id(i.target) for i in ins if i.target is not None and id(i) not in dropped}
    targets |= {id(i.handler[0]) for i in ins if i.handler is not None and id(i) not in dropped}
    out = []
    nest = sum(1 for i in ins if i.op == "FOR_ITER")
    k = 0

    def emit(op, arg=0, like=None, const=None, target=None):
        x = I(op, arg, like, const)
        x.target = target
        if like is not None and like.new is None:
            like.new = x
        out.append(x)
        return x

    while k < len(ins):
        i = ins[k]
        k += 1
        op, a = i.op, i.arg
        nxt = ins[k] if k < len(ins) else None

        def free(n):
            """The next n instructions are there and no jump goes to them."""
            return all(k + j < len(ins) and id(ins[k + j]) not in targets and id(ins[k + j]) not in dropped for j in range(n))

        if id(i) in dropped or op in ("END_FOR", "END_SEND"):
            continue
        if kind and op == "RETURN_GENERATOR":
            assert nxt.op == "POP_TOP"
            k += 1
            continue
        if kind and op == "YIELD_VALUE":
            assert nxt.op == "RESUME" and ins[k + 1].op == "POP_TOP"
            k += 2
            if kind == "dictcomp":
                last = out.pop()
                if last.op == "BUILD_TUPLE":
                    assert last.arg == 2
                    for z in ins:
                        if z.new is last:
                            z.new = None
                else:
                    assert last.op == "LOAD_CONST", last
                    key, value = consts[last.arg]
                    consts.append(key)
                    consts.append(value)
                    y = I("LOAD_CONST", len(consts) - 2, last)
                    for z in ins:
                        if z.new is last:
                            z.new = y
                    out.append(y)
                    out.append(I("LOAD_CONST", len(consts) - 1, last))
            emit(ADD[kind][1], nest + 1, i)
            continue
        if kind and op in ("RETURN_CONST", "RETURN_VALUE"):
            if op == "RETURN_VALUE":
                last = out.pop()
                for z in ins:
                    if z.new is last:
                        z.new = None
            emit("RETURN_VALUE", 0, i)
            continue
        if op == "RESUME":
            emit(op, a, i)
            if kind:
                emit(ADD[kind][0], 0, i)
        elif op == "LOAD_CONST" and isinstance(consts[a], types.CodeType):
            child = codes.get(id(i))
            if (a, child) not in done:
                c = translate(code.co_consts[a], child, rename)
                done[a, child] = a if not any(key[0] == a for key in done) else len(consts)
                if done[a, child] == a:
                    done["new", a] = c
                else:
                    consts.append(c)
            emit(op, done[a, child], i)
        elif op == "LOAD_ATTR":
            emit("LOAD_METHOD" if a & 1 else "LOAD_ATTR", a >> 1, i)
        elif op == "LOAD_SUPER_ATTR":
            if a & 2:                                          # super(C, obj).name: 3.11 calls super as any function
                first = None
                depth, j = 3, len(out) - 1
                # the three loads are simple here, else give up
                if len(out) < 3 or any(not x.op.startswith("LOAD_") for x in out[-3:]):
                    raise Unsupported("super() with computed arguments")
                load = out[-3]
                if load.op == "LOAD_GLOBAL":
                    load.arg |= 1
                else:
                    y = I("PUSH_NULL", 0, load)
                    for z in ins:
                        if z.new is load:
                            z.new = y
                    out.insert(len(out) - 3, y)
                emit("PRECALL", 2, i)
                emit("CALL", 2, i)
            else:
                if len(out) < 3 or out[-3].op not in ("LOAD_GLOBAL", "LOAD_NAME"):
                    raise Unsupported("super()")
                load = out[-3]
                del out[-2:]
                if load.op == "LOAD_GLOBAL":
                    load.arg |= 1
                else:
                    raise Unsupported("super()")
                emit("PRECALL", 0, i)
                emit("CALL", 0, i)
            emit("LOAD_METHOD" if a & 1 else "LOAD_ATTR", a >> 2, i)
        elif op == "KW_NAMES":
            assert nxt.op == "CALL"
            emit(op, a, i)
        elif op == "CALL":
            emit("PRECALL", a, i)
            emit("CALL", a, i)
        elif op == "RETURN_CONST":
            emit("LOAD_CONST", a, i)
            emit("RETURN_VALUE", 0, i)
        elif op == "LOAD_FAST_CHECK":
            emit("LOAD_FAST", a, i)
        elif op == "LOAD_LOCALS":
            if nxt.op != "LOAD_FROM_DICT_OR_DEREF":
                raise Unsupported("LOAD_LOCALS")
            emit("LOAD_CLASSDEREF", nxt.arg, i)
            k += 1
        elif op == "BINARY_SLICE":
            emit("BUILD_SLICE", 2, i)
            emit("BINARY_SUBSCR", 0, i)
        elif op == "STORE_SLICE":
            emit("BUILD_SLICE", 2, i)
            emit("STORE_SUBSCR", 0, i)
        elif op == "COMPARE_OP":
            emit(op, a >> 4, i)
        elif op == "YIELD_VALUE":
            emit(op, 0, i)
        elif op == "CALL_INTRINSIC_1":
            if a == 2:
                assert nxt.op == "POP_TOP"
                emit("IMPORT_STAR", 0, i)
                k += 1
            elif a in (1, 5, 6):
                emit({1: "PRINT_EXPR", 5: "UNARY_POSITIVE", 6: "LIST_TO_TUPLE"}[a], 0, i)
                if a == 1:
                    assert nxt.op == "POP_TOP"
                    k += 1
            else:
                raise Unsupported("CALL_INTRINSIC_1 %d" % a)
        elif op == "CALL_INTRINSIC_2":
            if a != 1:
                raise Unsupported("CALL_INTRINSIC_2 %d" % a)
            emit("PREP_RERAISE_STAR", 0, i)
        elif (op == "COPY" and a == 1 and free(2) and nxt.op in ("POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE")
              and ins[k + 1].op == "POP_TOP" and nxt.target.offset > nxt.offset):
            emit("JUMP_IF_%s_OR_POP" % nxt.op[12:], 0, i, target=nxt.target)
            k += 2
        elif op.startswith("POP_JUMP_IF_"):
            what = op[12:]
            if nxt is not None and nxt.op == "JUMP_BACKWARD" and free(1) and k + 1 < len(ins) and i.target is ins[k + 1]:
                other = {"TRUE": "FALSE", "FALSE": "TRUE", "NONE": "NOT_NONE", "NOT_NONE": "NONE"}[what]
                emit("POP_JUMP_BACKWARD_IF_" + other, 0, i, target=nxt.target)
                k += 1
            else:
                way = "BACKWARD" if i.target.offset <= i.offset else "FORWARD"
                emit("POP_JUMP_%s_IF_%s" % (way, what), 0, i, target=i.target)
        else:
            if op not in OPC.opmap:
                raise Unsupported("opcode %s" % op)
            emit(op, a, i, target=i.target)

    for key, c in done.items():
        if key[0] == "new":
            consts[key[1]] = c

    # instructions that are gone stand for the next one that is there
    after = None
    place = {}
    for i in reversed(ins):
        if i.new is not None:
            after = i.new
        place[id(i)] = after
    for x in out:
        if x.target is not None:
            x.target = place[id(x.target)]
        if x.handler is not None:
            x.handler = (place[id(x.handler[0])],) + x.handler[1:]

    opmap = OPC.opmap
    for x in out:
        x.size = 1
    while True:
        off = 0
        for x in out:
            x.offset = off
            off += x.size + CACHES.get(x.op, 0)
        changed = False
        for x in out:
            if x.target is not None:
                end = x.offset + x.size + CACHES.get(x.op, 0)
                x.arg = end - x.target.offset if "BACKWARD" in x.op else x.target.offset - end
                assert x.arg >= 0, (x, x.target)
            need = 1 if x.arg < 0x100 else 2 if x.arg < 0x10000 else 3 if x.arg < 0x1000000 else 4
            if need > x.size:
                x.size = need
                changed = True
        if not changed:
            break
    raw = bytearray()
    for x in out:
        for s in range(x.size - 1, 0, -1):
            raw += bytes([opmap["EXTENDED_ARG"], (x.arg >> (8 * s)) & 0xFF])
        raw += bytes([opmap[x.op], x.arg & 0xFF])
        raw += bytes(2 * CACHES.get(x.op, 0))
    flags = code.co_flags
    if kind:
        flags &= ~CO_GENERATOR
    table = locations(out, code.co_firstlineno)
    return to_portable(
        co_argcount=code.co_argcount, co_posonlyargcount=code.co_posonlyargcount,
        co_kwonlyargcount=code.co_kwonlyargcount, co_nlocals=code.co_nlocals, co_stacksize=code.co_stacksize + 5,
        co_flags=flags, co_code=bytes(raw), co_consts=tuple(consts), co_names=tuple(names),
        co_varnames=code.co_varnames, co_filename=code.co_filename, co_name=name, co_qualname=qualname,
        co_firstlineno=code.co_firstlineno, co_lnotab=table, co_freevars=code.co_freevars,
        co_cellvars=code.co_cellvars, co_exceptiontable=handlers(out), version_triple=(3, 11, 0))


def varint(n, first=0, signed=False):
    if signed:
        n = ((-n) << 1) | 1 if n < 0 else n << 1
    out = []
    while n >= 64:
        out.append(n & 63 | 64)
        n >>= 6
    out.append(n)
    return bytes(out)


def locations(out, line):
    """The location table: no columns (code 13), or no line at all (code 15)."""
    t = bytearray()
    for x in out:
        units = x.size + CACHES.get(x.op, 0)
        here = x.pos[0]
        while units:
            n = min(units, 8)
            units -= n
            if here is None:
                t.append(0x80 | 15 << 3 | n - 1)
            else:
                t.append(0x80 | 13 << 3 | n - 1)
                t += varint(here - line, signed=True)
                line = here
    return bytes(t)


def handlers(out):
    t = bytearray()

    def number(n, first):
        parts = []
        while True:
            parts.append(n & 63)
            n >>= 6
            if not n:
                break
        parts.reverse()
        for k, p in enumerate(parts):
            t.append(p | (0x40 if k + 1 < len(parts) else 0) | (0x80 if first and k == 0 else 0))

    k = 0
    while k < len(out):
        h = out[k].handler
        start = k
        while k < len(out) and out[k].handler == h:
            k += 1
        if h is None:
            continue
        last = out[k - 1]
        end = last.offset + last.size + CACHES.get(last.op, 0)
        number(out[start].offset, True)
        number(end - out[start].offset, False)
        number(h[0].offset, False)
        number(h[1] << 1 | bool(h[2]), False)
    return bytes(t)
