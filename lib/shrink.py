"""Reduce a failing program: drop statements (nested ones too) and unwrap compound ones while it still fails."""
import ast
import copy
import time


def bodies(tree):
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody", "handlers", "cases"):
            b = getattr(node, field, None)
            if isinstance(b, list) and b:
                yield node, field, b


def text(tree):
    return ast.unparse(ast.fix_missing_locations(tree)) + "\n"


def shrink(src, fails, seconds=20):
    end = time.time() + seconds
    try:
        tree = ast.parse(src)
    except SyntaxError:
        return src

    def bad(t):
        try:
            return fails(text(t))
        except Exception:
            return False

    changed = True
    while changed and time.time() < end:
        changed = False
        size = 16
        while size >= 1 and time.time() < end:
            n_bodies = len(list(bodies(tree)))
            bi = 0
            while bi < n_bodies and time.time() < end:
                i = 0
                while time.time() < end:
                    bs = list(bodies(tree))
                    if bi >= len(bs):
                        break
                    node, field, b = bs[bi]
                    if i >= len(b):
                        break
                    if len(b) == 1 and isinstance(b[0], ast.Pass):
                        break
                    t2 = copy.deepcopy(tree)
                    node2, field2, b2 = list(bodies(t2))[bi]
                    del b2[i:i + size]
                    if not b2 and field2 == "body":
                        b2.append(ast.Pass())
                    if not b2 and field2 in ("handlers", "finalbody"):
                        if not (getattr(node2, "handlers", None) or getattr(node2, "finalbody", None)):
                            node2.finalbody = [ast.Pass()]
                            node2.orelse = []
                    if bad(t2):
                        tree = t2
                        changed = True
                    else:
                        i += size
                bi += 1
                n_bodies = len(list(bodies(tree)))
            size //= 4 if size > 4 else 2 if size > 1 else 2
            if size == 0:
                break
        # unwrap
        bi = 0
        while time.time() < end:
            bs = list(bodies(tree))
            if bi >= len(bs):
                break
            b = bs[bi][2]
            for i, st in enumerate(b):
                if isinstance(st, (ast.If, ast.For, ast.While, ast.Try, ast.With)) and st.body:
                    t2 = copy.deepcopy(tree)
                    b2 = list(bodies(t2))[bi][2]
                    b2[i:i + 1] = b2[i].body
                    if bad(t2):
                        tree = t2
                        changed = True
                        break
            else:
                bi += 1
    return text(tree)
