"""Prints the dumped body of a function (for reading)."""
import json, sys, glob


def pat(p):
    if p is None: return "_"
    k = p["k"]
    if k == "bind": return ("ref " if p.get("ref") else "") + p["name"] + "#" + p["v"] + ("@" + pat(p["sub"]) if "sub" in p else "")
    if k == "variant": return p["variant"] + "{" + ", ".join(f"{n}: {pat(s)}" for n, s in p["sub"]) + "}"
    if k == "leaf": return "(" + ", ".join(f"{n}: {pat(s)}" for n, s in p["sub"]) + ")"
    if k == "deref": return "&" + pat(p["sub"])
    if k in ("const", "range"): return p["val"]
    if k == "or": return "|".join(map(pat, p["sub"]))
    if k == "slice": return "[" + ",".join(map(pat, p["prefix"])) + (",.." + pat(p["slice"]) if "slice" in p else "") + ",".join(map(pat, p["suffix"])) + "]"
    return k


def pp(e, ind=0, types=None):
    I = "  " * ind
    k = e["k"]
    P = lambda x, d=0: pp(x, ind + d, types)
    if k == "Block":
        o = ("unsafe " if e.get("unsafe") else "") + "{\n"
        for s in e["stmts"]:
            if s["k"] == "let":
                o += I + "  let " + pat(s["pat"]) + (" = " + P(s["init"], 1) if "init" in s else "") + (" else " + P(s["else"], 1) if "else" in s else "") + ";\n"
            else:
                o += I + "  " + P(s["e"], 1) + ";\n"
        if "e" in e: o += I + "  " + P(e["e"], 1) + "\n"
        return o + I + "}"
    if k == "Call":
        n = e.get("res") or e.get("fn") or "(" + P(e["f"]) + ")"
        return n + "(" + ", ".join(P(a) for a in e["args"]) + ")"
    if k == "If": return "if " + P(e["c"]) + " " + P(e["then"]) + (" else " + P(e["else"]) if "else" in e else "")
    if k == "Match":
        return f"match[{e['src']}] " + P(e["e"]) + " {\n" + "".join(I + "  " + pat(a["pat"]) + (" if " + P(a["guard"]) if "guard" in a else "") + " => " + P(a["body"], 1) + ",\n" for a in e["arms"]) + I + "}"
    if k == "Closure": return "|" + ", ".join(pat(p) for p in e["body"].get("params", [])[1:]) + "| " + (P(e["body"]["e"]) if "e" in e["body"] else "?")
    if k == "Var": return e["v"]
    if k == "Lit": return e["val"]
    if k == "Field": return P(e["e"]) + "." + e["name"]
    if k == "Borrow": return ("&mut " if e["mut"] else "&") + P(e["e"])
    if k == "Deref": return "*" + P(e["e"])
    if k in ("Binary", "Logical"): return "(" + P(e["a"]) + " " + e["op"] + " " + P(e["b"]) + ")"
    if k == "Assign": return P(e["a"]) + " = " + P(e["b"])
    if k == "AssignOp": return P(e["a"]) + " " + e["op"] + " " + P(e["b"])
    if k in ("Array", "Tuple"): return k[0] + "(" + ", ".join(P(x) for x in e["es"]) + ")"
    if k == "Adt": return e["adt"].split("::")[-1] + "::" + e["variant"] + "{" + ", ".join(n + ": " + P(x) for n, x in e["fields"]) + "}"
    if k in ("Const", "Static", "ConstParam"): return "<" + e.get("res", e["path"]) + ">"
    if k == "Fn": return "fn:" + e.get("res", e.get("fn", "?"))
    if k == "Let": return "let " + pat(e["pat"]) + " = " + P(e["e"])
    if k == "Loop": return "loop " + P(e["e"])
    if k in ("Return", "Break"): return k.lower() + " " + (P(e["e"]) if "e" in e else "")
    if k == "Index": return P(e["e"]) + "[" + P(e["i"]) + "]"
    if k == "Unary": return e["op"] + "(" + P(e["e"]) + ")"
    if k == "Cast": return P(e["e"]) + " as _"
    if k == "Repeat": return "[" + P(e["e"]) + "; " + e["n"] + "]"
    return k


if __name__ == "__main__":
    for f in sorted(glob.glob(sys.argv[1] + "/*.json")):
        c = json.load(open(f))
        for fn in c["fns"] + c["consts"]:
            if any(a in fn["path"] for a in sys.argv[2:]):
                print("=====", fn["path"], c["files"][fn["file"]], fn["l"])
                b = fn["body"]
                print("params", [pat(p) for p in b.get("params", [])])
                print(pp(b["e"]) if "e" in b else "ERROR")
