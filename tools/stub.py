"""Cuts the bodies of functions that do not type-check out of a scratch copy of the sources."""
import os
import re

MARK = '::core::panic!("ragu-ir: body does not type-check")'


def scan(src):
    """Blanks comments, strings and char literals, keeping offsets and newlines."""
    out = []
    i, n = 0, len(src)

    def blank(s):
        return "".join(c if c == "\n" else " " for c in s)

    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
        elif c == '"' or (m := re.compile(r'b?r(#*)"').match(src, i)) and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == "_")):
            if c == '"':
                j = i + 1
                while j < n and src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            else:
                end = '"' + m[1]
                j = src.find(end, m.end())
                j = n if j < 0 else j + len(end)
        elif c == "'" and (m := re.compile(r"'(\\(x..|u\{[^}]*\}|.)|[^\\'\n])'").match(src, i)):
            j = m.end()
        else:
            out.append(c)
            i += 1
            continue
        out.append(blank(src[i:j]))
        i = j
    return "".join(out)


def bodies(text):
    """(start, end, name) of every function body, outermost braces included."""
    res = []
    for m in re.finditer(r"\bfn\s+(\w+)", text):
        i = m.end()
        depth = 0
        while i < len(text):
            c = text[i]
            if c in "([":
                depth += 1
            elif c in ")]":
                depth -= 1
            elif c == ";" and depth == 0:
                break
            elif c == "{" and depth == 0:
                # a const-generic brace in the signature ends before the body starts
                d, j = 0, i
                while j < len(text):
                    if text[j] == "{":
                        d += 1
                    elif text[j] == "}":
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                rest = text[j + 1 :].lstrip()
                if rest[:1] in (">", ","):
                    i = j
                else:
                    res.append((i, j + 1, m[1]))
                    break
            i += 1
    return res


def stub(root, errs):
    """Stubs the functions around the given errors; returns their names."""
    by = {}
    for f, line, _ in errs:
        if f.startswith(root + "/") and f.endswith(".rs"):
            by.setdefault(f, set()).add(line)
    done = []
    for f, lines in by.items():
        src = open(f, encoding="utf-8").read()
        text = scan(src)
        off = [0]
        for l in src.split("\n"):
            off.append(off[-1] + len(l) + 1)
        cut = []
        bs = bodies(text)
        sig = {(s, e): text.rfind("fn", 0, s) for s, e, _ in bs}
        for l in lines:
            a, b = off[l - 1], off[min(l, len(off) - 1)]
            best = None
            for s, e, name in bs:
                if s < b and e > a and (best is None or s > best[0]):
                    best = (s, e, name)
            if best and MARK not in src[best[0] : best[1]]:
                cut.append(best)
        cut = sorted(set(cut))
        # nested functions: keep the outermost
        flat = []
        for c in cut:
            if not flat or c[0] >= flat[-1][1]:
                flat.append(c)
        for s, e, name in reversed(flat):
            src = src[:s] + "{ " + MARK + " }" + "\n" * src[s:e].count("\n") + src[e:]
            done.append(f"{os.path.relpath(f, root)}:{name}")
        if flat:
            open(f, "w", encoding="utf-8").write(src)
    return done
