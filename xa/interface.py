"""Obligations on the interface the program declares for client generation (the shank attributes of
its instruction enum), read from the syntax of the sources: it must be the interface the clients and
the program agree on (rules.INTERFACE, which the other engines compare both with)."""
import glob, os, re
from .extract import REPO
from .rules import INTERFACE

FLAGS = {"writable": "w", "write": "w", "writ": "w", "mut": "w", "w": "w", "signer": "s", "sign": "s", "sig": "s", "s": "s"}


def tokens(s):
    """Rust tokens without comments; strings keep their quotes"""
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith("//", i):
            i = s.find("\n", i)
            i = n if i < 0 else i
        elif s.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if s.startswith("/*", i):
                    d, i = d + 1, i + 2
                elif s.startswith("*/", i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
        elif s[i].isspace():
            i += 1
        else:
            m = re.compile(r'b?r(#*)"').match(s, i)
            if m:
                e = s.index('"' + m.group(1), m.end())
                out.append('"' + s[m.end():e] + '"')
                i = e + 1 + len(m.group(1))
                continue
            m = re.compile(r'b?"(?:[^"\\]|\\.)*"|b?\'(?:[^\'\\]|\\.[^\']*)\'|\'\w+|\w+|::|=>|->|.', re.S).match(s, i)
            out.append(m.group())
            i = m.end()
    return out


PAIR = {"(": ")", "[": "]", "{": "}"}


def group(t, i):
    """index after the bracket group starting at i"""
    d = 0
    while True:
        if t[i] in PAIR:
            d += 1
        elif t[i] in PAIR.values():
            d -= 1
            if not d:
                return i + 1
        i += 1


def split(t):
    out, cur, i = [], [], 0
    while i < len(t):
        if t[i] == ",":
            out.append(cur)
            cur = []
            i += 1
        elif t[i] in PAIR:
            e = group(t, i)
            cur += t[i:e]
            i = e
        else:
            cur.append(t[i])
            i += 1
    return [x for x in out + [cur] if x]


def items(t):
    """(attributes, kind, name, body) of every struct and enum, at any depth"""
    attrs, i = [], 0
    while i < len(t):
        if t[i] == "#" and i + 1 < len(t) and t[i + 1] == "[":
            e = group(t, i + 1)
            attrs.append(t[i + 2:e - 1])
            i = e
        elif t[i] in ("struct", "enum") and i + 1 < len(t):
            j = i + 2
            while t[j] not in ("{", ";", "("):
                j += 1
            if t[j] == ";":
                i = j + 1
            else:
                e = group(t, j)
                yield attrs, t[i], t[i + 1], t[j + 1:e - 1]
                i = e
            attrs = []
        else:
            if t[i] in ("{", "}", ";"):
                attrs = []
            i += 1


def derives(attrs):
    return {x[-1] for a in attrs if a and a[0] == "derive" for x in split(a[2:-1])}


def accounts(attrs):
    out = []
    for a in attrs:
        if a[0] != "account":
            continue
        idx, name, flags = None, None, set()
        for x in split(a[2:-1]):
            if x[0].isdigit():
                idx = int(x[0])
            elif x[0] == "name":
                name = x[2].strip('"')
            elif len(x) == 1:
                flags.add(FLAGS.get(x[0], x[0]))
        out.append((idx, name, flags))
    return out


def evaluate():
    files = sorted(glob.glob(REPO + "/solana-program/src/**/*.rs", recursive=True))
    found, obs, n = [], [], 0
    kinds = {}
    for f in files:
        for attrs, kind, name, body in items(tokens(open(f).read())):
            n += 1
            d = derives(attrs)
            for k in d:
                kinds.setdefault(k, set()).add(name)
            if kind == "enum" and "ShankInstruction" in d:
                found.append((os.path.relpath(f, REPO), name, body))
    ob = lambda o, ok, msg: obs.append((o, bool(ok), msg))
    ob("declared.enum", len(found) == 1, "%d enums are declared as the program's instructions: %s" % (len(found), [x[:2] for x in found]))
    for f, name, body in found[:1]:
        seen = []
        for v in split(body):
            attrs, i = [], 0
            while v[i] == "#":
                e = group(v, i + 1)
                attrs.append(v[i + 2:e - 1])
                i = e
            ix = v[i]
            seen.append(ix.lower())
            want = INTERFACE.get(ix.lower())
            ob("declared.known", want, "%s: declares the instruction %s, which does not exist" % (f, ix))
            if not want:
                continue
            got = accounts(attrs)
            ob(ix.lower() + ".declared.order", [a[0] for a in got] == list(range(len(want[1]))), "%s: %s declares the account positions %s, the program takes 0 to %d" % (f, ix, [a[0] for a in got], len(want[1]) - 1))
            for k, (nm, (sg, wr)) in enumerate(want[1]):
                a = got[k] if k < len(got) else (None, None, set())
                ob(ix.lower() + ".declared.name", a[1] == nm, "%s: account %d of %s is declared as %s; the program and its clients call it %s" % (f, k, ix, a[1], nm))
                ob(ix.lower() + ".declared.signer", ("s" in a[2]) == bool(sg), "%s: account %d (%s) of %s is%s declared a signer" % (f, k, nm, ix, "" if "s" in a[2] else " not"))
                ob(ix.lower() + ".declared.writable", ("w" in a[2]) == bool(wr), "%s: account %d (%s) of %s is%s declared writable" % (f, k, nm, ix, "" if "w" in a[2] else " not"))
                ob(ix.lower() + ".declared.flags", not a[2] - {"s", "w"}, "%s: account %d (%s) of %s is declared %s" % (f, k, nm, ix, sorted(a[2] - {"s", "w"})))
        ob("declared.tags", seen == sorted(INTERFACE, key=lambda k: INTERFACE[k][0]), "%s: the instructions are declared in the order %s" % (f, seen))
    ob("declared.accounts", {"State", "PendingWithdraw"} <= kinds.get("ShankAccount", set()), "the account types declared for clients are %s" % sorted(kinds.get("ShankAccount", ())))
    ob("declared.events", "Event" in kinds.get("ShankType", set()), "the event type is not declared for clients")
    return obs, dict(files=len(files), items_parsed=n)
