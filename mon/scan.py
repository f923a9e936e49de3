"""The words of a script, as its text has them: an independent reader used to account for every one of them."""
from .model import TRIM

TWO = {"==", "!=", "||", "&&", "<=", "<<", ">=", ">>"}


def words(text, shown=False):
    """[(kind, value)]: kind is num, str, tpl, id or op (any other character). shown: in the texts the library shows, a number never ends with its dot."""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c in TRIM:
            i += 1
            continue
        if c in "\"`":
            j = text.find(c, i + 1)
            j = n if j < 0 else j
            out.append(("str" if c == '"' else "tpl", text[i + 1:j]))
            i = j + 1
            continue
        j = i + 1
        if c.isascii() and c.isdigit():
            while j < n and text[j] in "0123456789.": j += 1
            if shown and text[j - 1] == ".": j -= 1
            w = text[i:j]
            out.append(("num", w if w.count(".") > 1 else float(w) if "." in w else int(w)))
        elif c == "_" or c.isascii() and c.isalpha():
            while j < n and (text[j] == "_" or text[j].isascii() and text[j].isalnum()): j += 1
            out.append(("id", text[i:j]))
        else:
            if text[i:i + 2] in TWO: j = i + 2
            out.append(("op", text[i:j]))
        i = j
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def closing(ws, i):
    """The index of the bracket that closes the one at i."""
    depth = 0
    while i < len(ws):
        if ws[i][0] == "op":
            if ws[i][1] in OPEN: depth += 1
            elif ws[i][1] in ")]}":
                depth -= 1
                if depth == 0: return i
        i += 1
    return None


def items(ws):
    """(words of the expressions, requests: name -> (message, words of its assertions), tests: name -> words) of a program's words; None when they cannot be told apart."""
    exprs, requests, tests = [], {}, {}
    i = 0
    while i < len(ws):
        k, v = ws[i]
        if k == "id" and v == "request":
            if i + 2 >= len(ws) or ws[i + 1][0] != "id" or ws[i + 2][0] != "tpl": return None
            name, message, asserts = ws[i + 1][1], ws[i + 2][1], []
            i += 3
            if i < len(ws) and ws[i] == ("op", "["):
                j = closing(ws, i)
                if j is None: return None
                asserts, i = ws[i + 1:j], j + 1
            requests[name] = (message, asserts)
        elif k == "id" and v == "test":
            if i + 2 >= len(ws) or ws[i + 1][0] != "id" or ws[i + 2] != ("op", "{"): return None
            j = closing(ws, i + 2)
            if j is None: return None
            tests[ws[i + 1][1]] = ws[i + 3:j]
            i = j + 1
        else:
            exprs.append(ws[i])
            i += 1
    return exprs, requests, tests


def bare(ws):
    """Without what only separates: semicolons, commas at the end of a list and an empty alternative."""
    ws = [w for w in ws if w != ("op", ";")]
    out = []
    for i, w in enumerate(ws):
        if w == ("op", ",") and (i + 1 == len(ws) or ws[i + 1] in (("op", ")"), ("op", "]"), ("op", "}"))): continue
        out.append(w)
        if out[-3:] == [("id", "else"), ("op", "{"), ("op", "}")]: del out[-3:]
    return out
