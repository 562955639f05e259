"""Writes a bytecode file of any release from a code object of our compiler."""
import struct

MAGIC = {"2.4": "6df20d0a", "2.5": "b3f20d0a", "2.6": "d1f20d0a", "2.7": "03f30d0a", "3.1": "4f0c0d0a", "3.2": "6c0c0d0a",
         "3.3": "9e0c0d0a", "3.4": "ee0c0d0a", "3.5": "170d0d0a", "3.6": "330d0d0a", "3.7": "420d0d0a", "3.8": "550d0d0a",
         "3.9": "610d0d0a", "3.10": "6f0d0d0a", "3.11": "a70d0d0a", "3.12": "cb0d0d0a", "pypy3.5": "70000d0a",
         "pypy3.6": "c0000d0a", "pypy3.7": "f0000d0a", "pypy3.8": "00010d0a", "pypy3.9": "50010d0a"}


class Writer(object):
    def __init__(self, version):
        self.v = version
        self.out = bytearray()

    def i4(self, n):
        self.out += struct.pack("<i", n)

    def raw(self, kind, data):
        self.out += kind
        self.i4(len(data))
        self.out += data

    def text(self, s):
        if self.v < (3, 0):
            data = s.encode("utf8")
            self.raw(b"s" if len(data) == len(s) else b"u", data)
        else:
            self.raw(b"u", s.encode("utf8", "surrogatepass"))

    def bytes(self, b):
        self.raw(b"s", b)

    def obj(self, x):
        t = type(x)
        if x is None:
            self.out += b"N"
        elif x is True or x is False:
            self.out += b"T" if x else b"F"
        elif x is Ellipsis:
            self.out += b"."
        elif t is int:
            if -2 ** 31 <= x < 2 ** 31:
                self.out += b"i"
                self.i4(x)
            else:
                digits = []
                n = abs(x)
                while n:
                    digits.append(n & 0x7FFF)
                    n >>= 15
                self.out += b"l"
                self.i4(len(digits) if x >= 0 else -len(digits))
                for d in digits:
                    self.out += struct.pack("<H", d)
        elif t is float:
            self.real(x, b"g", b"f")
        elif t is complex:
            self.real(x.real, b"y", b"x")
            self.real(x.imag, b"", b"")
        elif t is str:
            self.text(x)
        elif t is bytes:
            self.bytes(x)
        elif t is tuple:
            self.out += b"("
            self.i4(len(x))
            for y in x:
                self.obj(y)
        elif t is frozenset:
            self.out += b">"
            self.i4(len(x))
            for y in sorted(x, key=repr):
                self.obj(y)
        elif hasattr(x, "co_code"):
            self.code(x)
        else:
            raise ValueError("constant %r" % (x,))

    def real(self, x, binary, text):
        if self.v >= (2, 5):
            self.out += binary + struct.pack("<d", x)
        else:
            s = repr(x).encode()
            self.out += text + bytes([len(s)]) + s

    def code(self, c):
        self.out += b"c"
        self.i4(c.co_argcount)
        if self.v >= (3, 8):
            self.i4(c.co_posonlyargcount)
        if self.v >= (3, 0):
            self.i4(c.co_kwonlyargcount)
        if self.v < (3, 11):
            self.i4(c.co_nlocals)
        self.i4(c.co_stacksize)
        self.i4(c.co_flags)
        self.bytes(c.co_code)
        self.obj(c.co_consts)
        self.obj(c.co_names)
        if self.v < (3, 11):
            self.obj(c.co_varnames)
            self.obj(c.co_freevars)
            self.obj(c.co_cellvars)
        else:
            names = list(c.co_varnames)
            kinds = [0x20 | (0x40 if n in c.co_cellvars else 0) for n in names]
            for n in c.co_cellvars:
                if n not in names:
                    names.append(n)
                    kinds.append(0x40)
            names += c.co_freevars
            kinds += [0x80] * len(c.co_freevars)
            self.obj(tuple(names))
            self.bytes(bytes(kinds))
        self.text(c.co_filename)
        self.text(c.co_name)
        if self.v >= (3, 11):
            self.text(c.co_qualname)
        self.i4(c.co_firstlineno)
        if self.v >= (3, 11):
            self.bytes(c.co_linetable)
            self.bytes(c.co_exceptiontable)
        elif self.v >= (3, 10):
            self.bytes(c.co_linetable)
        else:
            self.bytes(c.co_lnotab)


def pyc(code, target, version):
    w = Writer(version)
    w.out += bytes.fromhex(MAGIC[target])
    if version >= (3, 7):
        w.i4(0)
    w.i4(1000000000)                    # older than any source
    if version >= (3, 3):
        w.i4(100)
    w.obj(code)
    return bytes(w.out)
