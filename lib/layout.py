"""The same program laid out otherwise: expressions over several lines, gaps between statements."""
import ast
import io
import tokenize

BREAK_AFTER = {"(", "[", "{", ",", "+", "-", "*", "and", "or", "if", "else", "in", "for", "==", "<", "not", "%"}


def spread(src, rng, p=.12, gaps=.03):
    try:
        new = spread1(src, rng, p, gaps)
        if ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)):
            return new
    except SyntaxError:
        pass
    return src


def spread1(src, rng, p, gaps):
    out = []
    depth = fs = 0
    prev = (1, 0)
    lines = src.split("\n")
    start = True
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type in (tokenize.INDENT, tokenize.DEDENT):
            continue
        if t.type == tokenize.ENDMARKER:
            break
        if start and t.type not in (tokenize.NL, tokenize.COMMENT) and rng.random() < gaps and not depth:
            out.append("\n" * rng.choice((1, 2, 100, 126, 127, 128, 129, 254, 255, 256, 300, 600)))
        if t.start[0] != prev[0]:
            prev = (t.start[0], 0)
        out.append(lines[t.start[0] - 1][prev[1]:t.start[1]])
        out.append(t.string if t.type not in (getattr(tokenize, "FSTRING_MIDDLE", -1),) else
                   between(lines, t.start, t.end))
        prev = t.end
        start = t.type in (tokenize.NEWLINE, tokenize.NL)
        if t.type == getattr(tokenize, "FSTRING_START", -1):
            fs += 1
        elif t.type == getattr(tokenize, "FSTRING_END", -1):
            fs -= 1
        if t.string in ("(", "[", "{"):
            depth += 1
        elif t.string in (")", "]", "}"):
            depth -= 1
        if depth and not fs and t.string in BREAK_AFTER and rng.random() < p:
            out.append("\n" * rng.choice((1, 1, 1, 2, 3, 130)) + " " * rng.randint(0, 8))
    return "".join(out)


def between(lines, a, b):
    if a[0] == b[0]:
        return lines[a[0] - 1][a[1]:b[1]]
    return "\n".join([lines[a[0] - 1][a[1]:]] + lines[a[0]:b[0] - 1] + [lines[b[0] - 1][:b[1]]])
