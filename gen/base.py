"""Random program generation: the pieces every generator shares."""
import random


class G(object):
    def __init__(self, seed, version, pypy=False, native=False):
        self.r = random.Random(seed)
        self.v = version
        self.pypy = pypy
        self.native = native
        self.out = []
        self.ind = 0
        self.n = 0
        self.py2 = version < (3, 0)

    # ------------------------------------------------------------ emitting
    def w(self, line):
        self.out.append("    " * self.ind + line)

    def block(self, head):
        self.w(head)
        return _Block(self)

    def tag(self):
        self.n += 1
        return self.n

    def name(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def source(self):
        return "\n".join(self.out) + "\n"

    # ------------------------------------------------------------ choosing
    def p(self, x):
        return self.r.random() < x

    def pick(self, *xs):
        return self.r.choice(xs)

    def of(self, xs):
        return self.r.choice(list(xs))

    def weighted(self, pairs):
        pairs = [(w, x) for w, x in pairs if w > 0]
        t = self.r.random() * sum(w for w, _ in pairs)
        for w, x in pairs:
            t -= w
            if t <= 0:
                return x
        return pairs[-1][1]

    def k(self, a, b):
        return self.r.randint(a, b)

    def since(self, *v):
        return self.v >= v

    def log(self, *parts):
        self.w("T(%s)" % ", ".join(str(x) for x in (self.tag(),) + parts))

    def decider(self):
        """A deterministic source of decisions inside the program."""
        self.w("_s = [%d]" % self.k(1, 10 ** 6))
        with self.block("def d(n):"):
            self.w("_s[0] = (_s[0] * 1103515245 + 12345) % 2147483648")
            self.w("return (_s[0] >> 12) % n")

    def catch(self, what="Exception"):
        """The except clause that logs what arrived."""
        with self.block("except %s as _e:" % what):
            # texts are those of the reference's release; the names of its types of functions aren't the interpreter's
            text = ", str(_e).replace('Function', 'function').replace('Generator', 'generator').replace('Method', 'method')"
            self.w("T(%d, 'exc', type(_e).__name__%s)" % (self.tag(), text if self.native else ""))


class _Block(object):
    def __init__(self, g):
        self.g = g

    def __enter__(self):
        self.g.ind += 1
        self.at = len(self.g.out)

    def __exit__(self, *a):
        if len(self.g.out) == self.at:
            self.g.w("pass")
        self.g.ind -= 1
